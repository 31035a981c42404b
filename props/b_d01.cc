// D01: a package whose XML was written without error is complete and true
// D02: a crash while writing a package never leaves a false package
#include "b_package.h"
#include "exceptions.h"
#include "reel.h"
#include "reel_file_asset.h"
#include <cerrno>

using namespace sim;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

// how the XML of a package gets written
struct How {
	bool sign = false;
	dcp::Filenames filenames = dcp::Filenames::NEW;
	string format = "%t";
	bool group = false;
};

How draw_how(Ctx& ctx)
{
	auto& c = ctx.c;
	How h;
	h.sign = c.choose(8) == 7;
	h.filenames = c.choose(3) == 2 ? dcp::Filenames::ORIGINAL : dcp::Filenames::NEW;
	static vector<string> const formats = {"%t", "x_%t", "fixed"};
	h.format = c.pick(formats);
	h.group = c.choose(4) == 3;
	return h;
}

void write(dcp::DCP& dcp, How const& h)
{
	dcp.write_xml(
		h.sign ? signer_chain() : shared_ptr<dcp::CertificateChain>(), h.filenames, dcp::NameFormat(h.format),
		h.group ? boost::optional<string>("11111111-2222-4333-8444-555555555555") : boost::optional<string>()
		);
}

// so that digests are worked out again
void forget_digests(dcp::DCP& dcp)
{
	for (auto i: dcp.assets(true)) i->unset_hash();
}

shared_ptr<dcp::DCP> fresh(Package const& p)
{
	auto d = make_shared<dcp::DCP>(boost::filesystem::path(p.dir));
	for (auto i: p.dcp->cpls()) d->add(i);
	d->set_annotation_text("A Test DCP");
	d->set_issue_date("2012-07-17T04:45:18+00:00");
	forget_digests(*d);
	return d;
}

void modify(Ctx& ctx, Package& p, PackageOptions const& o)
{
	auto& c = ctx.c;
	auto cpls = p.dcp->cpls();
	auto cpl = cpls[c.choose(uint32_t(cpls.size()))];
	for (int n = c.range(1, 3); n; --n) {
		switch (c.choose(4)) {
		case 0: cpl->set_annotation_text(format_string("changed %u", c.choose(1000))); break;
		case 1: add_reel(ctx, p, cpl, o); break;
		case 2:
		{
			auto reels = cpl->reels();
			if (reels.size() > 1) {
				reels.pop_back();
				cpl->set(reels);
			}
			break;
		}
		case 3: cpl->set_content_title_text(string(c.choose(3000), 'y')); break;
		}
	}
}

// what is wrong with a package which was written without an error
string judge(Package const& p, dcp::DCP const& dcp)
{
	bool const smpte = dcp.cpls()[0]->standard() == dcp::Standard::SMPTE;
	auto const listing = read_listing(p.dir, smpte);
	auto wrong = check_listing(p.dir, listing);
	if (!wrong.empty()) return wrong;
	// exactly what belongs to it is listed
	set<string> used;
	for (auto i: dcp.cpls()) for (auto j: i->reel_file_assets()) used.insert(j->asset_ref().id());
	map<string, string> listed;
	for (auto const& i: listing.entries) listed[p.dir + "/" + i.second.path] = i.first;
	for (auto const& i: p.files) {
		// those without an identity belong to the text asset in their directory
		bool in_use = used.count(i.second);
		if (i.second.empty()) {
			for (auto const& j: p.files) if (used.count(j.second) && i.first.find(j.first.substr(0, j.first.rfind('/') + 1)) == 0 && j.first.find("/subs") != string::npos) in_use = true;
		}
		auto l = listed.find(i.first);
		if (in_use && l == listed.end()) return i.first + " is not listed";
		if (in_use && !i.second.empty() && l->second != i.second) return i.first + " is listed as " + l->second + " instead of " + i.second;
		if (l != listed.end()) listed.erase(l);
	}
	for (auto i: dcp.cpls()) {
		auto e = listing.entries.find(i->id());
		if (e == listing.entries.end()) return "composition " + i->id() + " is not listed";
		string xml;
		get_file(p.dir + "/" + e->second.path, xml);
		if (root_of(xml) != "CompositionPlaylist") return "composition " + i->id() + " is not well formed: " + show(xml);
		listed.erase(p.dir + "/" + e->second.path);
	}
	for (auto const& i: listed) if (!listing.entries.at(i.second).pkl) return i.first + " is listed but does not belong to the package";
	string xml;
	get_file(p.dir + (smpte ? "/VOLINDEX.xml" : "/VOLINDEX"), xml);
	if (root_of(xml) != "VolumeIndex") return "volume index is not well formed: " + show(xml);
	// and it reads back
	try {
		dcp::DCP back{boost::filesystem::path(p.dir)};
		vector<dcp::VerificationNote> notes;
		back.read(&notes);
		if (!notes.empty()) return format_string("reading back gives %zu notes, first ", notes.size()) + dcp::note_to_string(notes[0]);
		auto const a = describe_cpls(dcp), b = describe_cpls(back);
		if (a != b) {
			string r = "reads back as\n";
			for (auto const& i: b) r += i.second;
			r += "instead of\n";
			for (auto const& i: a) r += i.second;
			return r;
		}
	} catch (std::exception& e) {
		return string("reading back raises: ") + e.what();
	}
	return "";
}

void run_d01(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	PackageOptions o;
	auto p = make_package(ctx, "/sim/d", o);
	auto how = draw_how(ctx);
	bool const reuse = c.choose(3) == 2;

	auto go = [&](Window& w, dcp::DCP& dcp) {
		bool raised = false;
		string error;
		{
			WindowScope scope(w);
			try {
				write(dcp, how);
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("write_xml with %s -> %s %s", fired.c_str(), raised ? "raised" : "returned", error.c_str());
		if (raised && w.fired.empty()) ctx.violate("raised on a healthy disk", "%s", error.c_str());
		if (!open_handles().empty()) ctx.violate("file left open", "%s left open; %s", open_handles()[0].path.c_str(), fired.c_str());
		if (!raised) {
			auto const wrong = judge(p, dcp);
			if (!wrong.empty()) ctx.violate("false package", "%s; %s", wrong.c_str(), fired.c_str());
		}
		return raised;
	};

	auto before = snapshot();
	auto d = fresh(p);
	Window dry;
	go(dry, *d);
	ctx.sig(dry.ops.size());
	ctx.sig(p.files.size());
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		set_disk_free(-1);
		if (c.choose(3) == 2) {
			modify(ctx, p, o);
			auto const now = snapshot();
			restore(before);
			for (auto f: p.files) {
				string content;
				if (!exists(f.first) && file_in(now, f.first, content)) put_file(f.first, content);
			}
			before = snapshot();
			restore(now);
		}
		// written anew, or over what is there
		if (c.choose(2) == 0) restore(before);
		if (!reuse) d = fresh(p);
		Window w;
		FaultMenu menu;
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool const r = go(w, *d);
		count_faults(ctx, w);
		for (auto const& f: w.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("%zu files: %s -> %s", p.files.size(), describe_fired(w).c_str(), r ? "raised" : "returned");
		if (r && !ctx.violated) {
			// once the trouble is over the same object writes a good package
			set_disk_free(-1);
			Window again;
			go(again, *d);
		}
	}
}

void run_d02(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	PackageOptions o;
	o.max_reels = 2;
	auto p = make_package(ctx, "/sim/d", o);
	auto how = draw_how(ctx);
	bool const over = c.choose(3) != 0;
	map<string, string> old_cpls;
	shared_ptr<dcp::DCP> d = fresh(p);
	if (over) {
		write(*d, how);
		old_cpls = describe_cpls(*d);
		modify(ctx, p, o);
		switch (c.choose(3)) {
		case 0: break;
		case 1: d = fresh(p); break;
		case 2: how = draw_how(ctx); break;
		}
	}
	auto const new_cpls = describe_cpls(*d);

	auto const before = snapshot();
	Window dry;
	{
		WindowScope scope(dry);
		write(*d, how);
	}
	auto const wrong = judge(p, *d);
	if (!wrong.empty()) ctx.violate("false package", "%s", wrong.c_str());
	restore(before);
	d = fresh(p);
	// the digests are now worked out again, so number the operations again
	vector<int> points;
	{
		Window count;
		{
			WindowScope scope(count);
			write(*d, how);
		}
		for (size_t i = 0; i < count.ops.size(); ++i) if (count.ops[i].mutates || count.ops[i].op == Op::WRITE) points.push_back(int(i));
		restore(before);
		d = fresh(p);
	}
	Window w;
	int const crashes = c.range(1, 8);
	set<int> at;
	for (int i = 0; i < crashes && !points.empty(); ++i) at.insert(points[c.choose(uint32_t(points.size()))]);
	for (auto i: at) {
		w.crash_at.push_back(i);
		w.crash_frac.push_back(c.choose(17));
	}
	{
		WindowScope scope(w);
		write(*d, how);
	}
	ctx.sig(uint64_t(over));
	ctx.sig(p.files.size());
	int writes = 0;
	for (auto const& crash: w.crashes) {
		restore(crash.second);
		auto const& op = w.ops[size_t(crash.first)];
		auto const where = format_string("crash at operation %d of %zu (%s %s)", crash.first, w.ops.size(), op_name(op.op), op.path.c_str());
		ctx.count(string("fault.crash.") + op_name(op.op));
		ctx.stats.nontrivial = true;
		ctx.sig(uint64_t(crash.first));
		string outcome;
		try {
			dcp::DCP back{boost::filesystem::path(p.dir)};
			vector<dcp::VerificationNote> notes;
			back.read(&notes);
			if (!notes.empty()) {
				outcome = "notes";
			} else {
				outcome = "read";
				for (auto const& i: describe_cpls(back)) {
					auto o = old_cpls.find(i.first);
					auto n = new_cpls.find(i.first);
					bool const good = (o != old_cpls.end() && o->second == i.second) || (n != new_cpls.end() && n->second == i.second);
					if (!good) ctx.violate("neither the old nor the new composition", "%s: a reader sees\n%swhich is neither the old\n%snor the new\n%s", where.c_str(), i.second.c_str(), o == old_cpls.end() ? "-\n" : o->second.c_str(), n == new_cpls.end() ? "-\n" : n->second.c_str());
				}
				if (back.cpls().empty()) ctx.violate("empty package", "%s: a reader sees a package without compositions and no note", where.c_str());
			}
		} catch (std::exception& e) {
			outcome = "error";
		}
		ctx.count("reader." + outcome);
		ctx.sig(outcome);
		ctx.note("%s: reader: %s", where.c_str(), outcome.c_str());
		ctx.stats.sample = where + " -> " + outcome;
		if (ctx.violated) return;
		if (writes++ < 2) {
			// and it can be written again
			auto again = fresh(p);
			try {
				write(*again, how);
				auto const wrong = judge(p, *again);
				if (!wrong.empty()) ctx.violate("not recovered by writing again", "%s, then written again: %s", where.c_str(), wrong.c_str());
			} catch (std::exception& e) {
				ctx.violate("not recovered by writing again", "%s, then written again: raised %s", where.c_str(), e.what());
			}
		}
	}
}

}

SIM_PROPERTY(D01, package_setup, run_d01, 16, "A run makes the assets and compositions of a package (Interop or SMPTE, up to 3 compositions of up to 3 reels with picture, sound, text with fonts and images, captions, Atmos, shared and encrypted assets, names in directories), writes its XML undisturbed and then 1-4 times, anew or over the former, possibly after changing it, with 1-3 faults placed on the recorded operations, and once more undisturbed after a failure. Non-trivial: a fault took effect. Distinct: by numbers of operations and files, positions and kinds of faults, and outcomes.")
SIM_PROPERTY(D02, package_setup, run_d02, 16, "A run makes a package, in most cases writes it and changes it, and then writes its XML with the disk kept as it would be found after a crash at 1-8 drawn points (a write in progress may have landed in part); each is read, and written again. Non-trivial: at least one crash. Distinct: by shape of the package, crash points and what the reader found.")
