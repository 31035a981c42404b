// D03: combining packages loses nothing and leaves its inputs alone
#include "b_package.h"
#include "combine.h"
#include "exceptions.h"
#include "interop_text_asset.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <cerrno>

using namespace sim;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

string bytes_of(dcp::ArrayData const& d) { return string(reinterpret_cast<char const*>(d.data()), size_t(d.size())); }

// what an Interop text asset shows: its texts, images and fonts
string describe_text(shared_ptr<dcp::InteropTextAsset> a)
{
	string r = a->movie_title() + "|" + a->language() + "|" + a->reel_number() + "\n";
	for (auto i: a->texts()) {
		r += i->in().as_string(dcp::Standard::INTEROP) + " " + i->out().as_string(dcp::Standard::INTEROP) + " ";
		if (auto im = dynamic_pointer_cast<const dcp::TextImage>(i)) {
			r += "image " + im->id() + " " + b_digest(bytes_of(im->png_image())) + "\n";
		} else if (auto s = dynamic_pointer_cast<const dcp::TextString>(i)) {
			r += "text " + s->text() + " font " + s->font().get_value_or("-") + (s->italic() ? " italic" : "") + (s->bold() ? " bold" : "") + "\n";
		}
	}
	map<string, string> fonts;
	for (auto const& i: a->font_data()) fonts[i.first] = b_digest(bytes_of(i.second));
	for (auto const& i: fonts) r += "font " + i.first + " " + i.second + "\n";
	return r;
}

struct Contents {
	map<string, string> cpls;
	map<string, string> texts;                // Interop text assets by identity
	map<string, string> files;                // everything else listed, by identity: digest
	vector<string> stale;                     // references whose digest is not that of the file
};

// a package as a reader sees it
Contents contents(string const& dir, bool smpte, string& error)
{
	Contents r;
	auto const listing = read_listing(dir, smpte);
	error = check_listing(dir, listing);
	if (!error.empty()) return r;
	dcp::DCP dcp{boost::filesystem::path(dir)};
	vector<dcp::VerificationNote> notes;
	dcp.read(&notes);
	if (!notes.empty()) {
		error = "reading gives a note: " + dcp::note_to_string(notes[0]);
		return r;
	}
	set<string> cpl_ids;
	for (auto i: dcp.cpls()) {
		cpl_ids.insert(i->id());
		for (auto j: i->reel_file_assets()) {
			if (!j->asset_ref().resolved()) {
				error = "composition " + i->id() + " has an unresolved reference to " + j->asset_ref().id();
				return r;
			}
			auto e = listing.entries.find(j->asset_ref().id());
			if (e == listing.entries.end()) {
				error = "asset " + j->asset_ref().id() + " is not listed";
				return r;
			}
			if (auto t = dynamic_pointer_cast<dcp::InteropTextAsset>(j->asset_ref().asset())) {
				r.texts[t->id()] = describe_text(t);
			}
			if (j->hash() && *j->hash() != e->second.hash) r.stale.push_back(e->second.path);
		}
	}
	for (auto const& i: listing.entries) {
		if (i.second.pkl || cpl_ids.count(i.first) || r.texts.count(i.first)) continue;
		r.files[i.first] = i.second.hash;
	}
	// the digests of text assets are looked at above: they change when these are written anew
	for (auto i: dcp.cpls()) {
		auto d = describe_cpl(i);
		for (auto j: i->reel_file_assets()) {
			if (!r.texts.count(j->asset_ref().id()) || !j->hash()) continue;
			for (size_t p; (p = d.find("[" + *j->hash() + "]")) != string::npos; ) d.replace(p, j->hash()->size() + 2, "(digest)");
		}
		auto& to = r.cpls[i->id()];
		if (!to.empty()) error = "composition " + i->id() + " is there twice";
		to = d;
	}
	return r;
}

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	int const n = c.range(1, 3);
	bool const smpte = c.choose(2) == 0;
	bool const mixed = n > 1 && c.choose(12) == 11;
	vector<boost::filesystem::path> inputs;
	vector<Package> packages;
	vector<Contents> had;
	PackageOptions o;
	o.max_reels = 2;
	o.max_cpls = 2;
	for (int i = 0; i < n; ++i) {
		auto const dir = format_string("/sim/in%d", i);
		inputs.push_back(dir);
		bool const this_smpte = mixed && i == n - 1 ? !smpte : smpte;
		if (i > 0 && !mixed && c.choose(6) == 5) {
			// the same package again
			for (auto const& f: tree("/sim/in0")) {
				auto const to = dir + f.first.substr(8);
				if (f.second[0] == 'd') put_dir(to);
				else put_file(to, f.second.substr(2));
			}
		} else {
			o.standard = this_smpte ? 0 : 1;
			o.share.clear();
			for (auto const& p: packages) for (auto const& f: p.mxf) o.share.push_back(f);
			auto p = make_package(ctx, dir, o);
			p.dcp->write_xml(c.choose(8) == 7 ? signer_chain() : shared_ptr<dcp::CertificateChain>());
			packages.push_back(p);
		}
		string error;
		had.push_back(contents(dir, this_smpte, error));
		if (!error.empty()) {
			ctx.violate("false input", "package made for input: %s", error.c_str());
			return;
		}
	}
	// packages made elsewhere have their files in other places, under names which others use too
	for (int i = 0; i < n && !mixed; ++i) {
		if (!c.chance(1, 4)) continue;
		auto const dir = format_string("/sim/in%d", i);
		string const map_file = dir + (smpte ? "/ASSETMAP.xml" : "/ASSETMAP");
		string xml;
		if (!get_file(map_file, xml)) continue;
		int number = 0;
		for (auto const& e: read_listing(dir, smpte).entries) {
			auto const& path = e.second.path;
			if (path.size() < 4 || path.compare(path.size() - 4, 4, ".mxf")) continue;
			string const to = format_string("media%d/asset.mxf", number++);
			auto const at = xml.find("<Path>" + path + "</Path>");
			if (at == string::npos) continue;
			xml.replace(at, path.size() + 13, "<Path>" + to + "</Path>");
			put_dir(dir + format_string("/media%d", number - 1));
			boost::filesystem::rename(dir + "/" + path, dir + "/" + to);
			ctx.count("files elsewhere");
		}
		put_file(map_file, xml);
		string error;
		had[size_t(i)] = contents(dir, smpte, error);
		if (!error.empty()) {
			ctx.violate("false input", "package with files elsewhere: %s", error.c_str());
			return;
		}
		if (c.choose(2)) {
			for (size_t p = 0; (p = xml.find("<Path>", p)) != string::npos; p += 6) xml.insert(p + 6, "file://");
			put_file(map_file, xml);
			ctx.count("maps with file://");
		}
	}
	int const link_error = c.choose(3) ? 0 : c.pick(vector<int>{EXDEV, EOPNOTSUPP, EPERM, EMLINK});
	bool const existing = c.choose(3) == 2;
	if (existing) put_dir("/sim/out");
	auto const signer = c.choose(8) == 7 ? signer_chain() : shared_ptr<dcp::CertificateChain>();
	auto const before = snapshot();
	map<string, Tree> inputs_before;
	for (auto const& i: inputs) inputs_before[i.string()] = tree(i.string());

	auto go = [&](Window& w) {
		bool raised = false;
		string error;
		set_link_policy(link_error);
		{
			WindowScope scope(w);
			try {
				dcp::combine(inputs, "/sim/out", "issuer", "creator", "2027-01-01T00:00:00+00:00", "annotation", signer);
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		set_link_policy(0);
		auto const fired = describe_fired(w);
		ctx.note("combine with %s, link error %d -> %s %s", fired.c_str(), link_error, raised ? "raised" : "returned", error.c_str());
		for (auto const& i: inputs_before) {
			auto const now = tree(i.first);
			if (now != i.second) ctx.violate("input changed", "%s; %s", diff_trees(i.second, now).c_str(), fired.c_str());
		}
		if (!open_handles().empty()) ctx.violate("file left open", "%s left open; %s", open_handles()[0].path.c_str(), fired.c_str());
		if (mixed) {
			if (!raised) ctx.violate("mixed standards combined", "an Interop and a SMPTE package were combined");
			return raised;
		}
		if (raised) {
			if (w.fired.empty()) ctx.violate(link_error ? "raised where hard links are refused" : "raised on a healthy disk", "link error %d: %s", link_error, error.c_str());
			return raised;
		}
		string wrong;
		Contents out;
		try {
			out = contents("/sim/out", smpte, wrong);
		} catch (std::exception& e) {
			wrong = string("reading raises: ") + e.what();
		}
		if (!wrong.empty()) {
			ctx.violate("false output", "%s; %s", wrong.c_str(), fired.c_str());
			return raised;
		}
		for (auto const& i: read_listing("/sim/out", smpte).entries) if (i.second.pkl) {
			string xml;
			get_file("/sim/out/" + i.second.path, xml);
			for (auto const& j: {">issuer<", ">creator<", ">2027-01-01T00:00:00+00:00<", ">annotation<"}) {
				if (xml.find(j) == string::npos) ctx.violate("not what the caller said", "the packing list does not say %s; %s", j, fired.c_str());
			}
		}
		if (!out.stale.empty()) ctx.violate("composition has a stale digest", "the digest of %s in a composition is not that of the file; %s", out.stale[0].c_str(), fired.c_str());
		auto same = [&](char const* what, map<string, string> const& a, map<string, string> const& b) {
			for (auto const& i: a) {
				auto j = b.find(i.first);
				if (j == b.end()) ctx.violate("lost", "%s %s of an input is not in the output; %s", what, i.first.c_str(), fired.c_str());
				else if (j->second != i.second) ctx.violate("changed", "%s %s is\n%s\ninstead of\n%s; %s", what, i.first.c_str(), j->second.c_str(), i.second.c_str(), fired.c_str());
			}
		};
		set<string> all;
		for (auto const& i: had) {
			same("composition", i.cpls, out.cpls);
			same("text", i.texts, out.texts);
			same("file", i.files, out.files);
			for (auto const& j: i.cpls) all.insert(j.first);
			for (auto const& j: i.texts) all.insert(j.first);
			for (auto const& j: i.files) all.insert(j.first);
		}
		for (auto const& i: {out.cpls, out.texts, out.files}) {
			for (auto const& j: i) if (!all.count(j.first)) ctx.violate("invented", "%s is in the output but in no input; %s", j.first.c_str(), fired.c_str());
		}
		return raised;
	};

	Window dry;
	go(dry);
	ctx.sig(dry.ops.size());
	ctx.sig(uint64_t(n) * 4 + (smpte ? 1 : 0) + (mixed ? 2 : 0));
	ctx.sig(uint64_t(link_error));
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		if (c.choose(2)) {
			// beyond the first reading of the inputs
			auto const& ops = dry.ops;
			size_t first = 0;
			while (first < ops.size() && !ops[first].mutates) ++first;
			menu.filter = [&ops, first](OpRec const& r) { return size_t(&r - ops.data()) >= first; };
		}
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool const r = go(w);
		count_faults(ctx, w);
		for (auto const& f: w.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("%d inputs: %s -> %s", n, describe_fired(w).c_str(), r ? "raised" : "returned");
	}
	if (link_error) ctx.count("fault.link.refused");
}

}

SIM_PROPERTY(D03, package_setup, run, 16, "A run makes 1-3 packages (Interop or SMPTE, rarely mixed; colliding file names, assets shared between packages, a package given twice), combines them once undisturbed and then 1-4 times with 1-3 faults placed on the recorded operations, on a disk which allows or refuses hard links. Non-trivial: a fault took effect or links are refused. Distinct: by number of operations, inputs and their standard, link error, positions and kinds of faults, and outcomes.")
