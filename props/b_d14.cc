// D14: a supplemental package names what it lacks and is resolved by its original alone
#include "b_package.h"
#include "combine.h"
#include "reel.h"
#include "reel_file_asset.h"
#include "reel_picture_asset.h"
#include "reel_sound_asset.h"
#include "reel_text_asset.h"
#include "reel_atmos_asset.h"
#include "search.h"
#include "verify.h"
#include <algorithm>

using namespace sim;
using std::make_shared;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

// a CPL with every reference said to be resolved
string all_resolved(string d)
{
	for (size_t p; (p = d.find(" unresolved ")) != string::npos; ) d.replace(p, 12, " resolved ");
	return d;
}

map<string, string> all_resolved(map<string, string> d)
{
	for (auto& i: d) i.second = all_resolved(i.second);
	return d;
}

struct Seen {
	map<string, string> alone, together;      // the compositions before and after they are resolved
	vector<string> notes;
	map<string, string> where;                // the file of each reference
	vector<string> open;                      // references which remain open
};

Seen look(string const& vf_dir, vector<string> const& ov_dirs)
{
	Seen r;
	dcp::DCP vf{boost::filesystem::path(vf_dir)};
	vector<dcp::VerificationNote> notes;
	vf.read(&notes);
	r.alone = describe_cpls(vf);
	for (auto const& i: notes) r.notes.push_back(dcp::note_to_string(i));
	std::sort(r.notes.begin(), r.notes.end());
	for (auto const& i: ov_dirs) {
		dcp::DCP ov{boost::filesystem::path(i)};
		vector<dcp::VerificationNote> ov_notes;
		ov.read(&ov_notes);
		for (auto const& j: ov_notes) r.notes.push_back(dcp::note_to_string(j));
		vf.resolve_refs(ov.assets());
	}
	r.together = describe_cpls(vf);
	for (auto i: vf.cpls()) for (auto j: i->reel_file_assets()) {
		auto const& ref = j->asset_ref();
		if (ref.resolved()) r.where[ref.id()] = ref.asset()->file() ? ref.asset()->file()->string() : string("no file");
		else r.open.push_back(ref.id());
	}
	return r;
}

void run(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	bool const smpte = c.choose(2) == 0;
	PackageOptions o;
	o.standard = smpte ? 0 : 1;
	o.max_cpls = 2;
	o.max_reels = 2;
	int const originals = c.range(1, 2);
	vector<string> ov_dirs;
	map<string, string> where;                // where each asset is
	map<string, vector<string>> ids;          // the compositions of each package
	vector<shared_ptr<dcp::CPL>> from;        // compositions of the originals, nothing resolved
	for (int i = 0; i < originals; ++i) {
		o.prefix = format_string("o%d", i);
		auto const dir = format_string("/sim/ov%d", i);
		auto p = make_package(ctx, dir, o);
		p.dcp->write_xml();
		ov_dirs.push_back(dir);
		for (auto const& e: read_listing(dir, smpte).entries) if (!e.second.pkl) where[e.first] = dir + "/" + e.second.path;
		for (auto j: p.dcp->cpls()) {
			from.push_back(make_shared<dcp::CPL>(*j->file()));
			ids[dir].push_back(j->id());
		}
	}

	// the names of the directories begin alike or one is within the other
	string const vf_dir = c.pick(vector<string>{"/sim/vf", "/sim/ov", "/sim/ov00", "/sim/ov0/vf"});
	o.prefix = "v";
	o.max_cpls = 1 + c.choose(2);
	auto vf = make_package(ctx, vf_dir, o);
	set<string> external;
	size_t references = 0;
	for (auto cpl: vf.dcp->cpls()) {
		// a reel of the original as it is, or one made of both
		for (auto k = c.range(1, 3); k; --k) {
			auto theirs = c.pick(c.pick(from)->reels());
			shared_ptr<dcp::Reel> reel;
			auto const mine = cpl->reels();
			if (c.choose(2)) {
				reel = make_shared<dcp::Reel>();
				auto ours = c.pick(mine);
				if (c.choose(2) && theirs->main_picture()) reel->add(theirs->main_picture()); else if (ours->main_picture()) reel->add(ours->main_picture());
				if (c.choose(2) && theirs->main_sound()) reel->add(theirs->main_sound()); else if (ours->main_sound()) reel->add(ours->main_sound());
				if (c.choose(2) && theirs->main_subtitle()) reel->add(theirs->main_subtitle()); else if (ours->main_subtitle()) reel->add(ours->main_subtitle());
				if (theirs->atmos() && c.choose(2)) reel->add(theirs->atmos());
				for (auto i: theirs->closed_captions()) reel->add(i);
			} else {
				reel = theirs;
			}
			cpl->add(reel);
		}
		for (auto i: cpl->reel_file_assets()) if (!i->asset_ref().resolved()) {
			external.insert(i->asset_ref().id());
			++references;
		}
	}
	vf.dcp->write_xml(c.choose(8) == 7 ? signer_chain() : shared_ptr<dcp::CertificateChain>());
	auto const made = describe_cpls(*vf.dcp);
	for (auto const& i: made) ids[vf_dir].push_back(i.first);

	// the supplemental package lists what it has and nothing else
	auto const listing = read_listing(vf_dir, smpte);
	auto wrong = check_listing(vf_dir, listing);
	if (!wrong.empty()) {
		ctx.violate("false supplemental package", "%s", wrong.c_str());
		return;
	}
	set<string> listed;
	for (auto const& e: listing.entries) {
		listed.insert(e.first);
		if (!e.second.pkl) where[e.first] = vf_dir + "/" + e.second.path;
		if (external.count(e.first)) ctx.violate("lists an asset of another package", "%s", e.second.path.c_str());
	}
	for (auto const& i: made) if (!listed.count(i.first)) ctx.violate("does not list its composition", "%s", i.first.c_str());
	for (auto cpl: vf.dcp->cpls()) for (auto i: cpl->reel_file_assets()) {
		if (!external.count(i->asset_ref().id()) && !listed.count(i->asset_ref().id())) ctx.violate("does not list its own asset", "%s", i->asset_ref().id().c_str());
	}
	if (ctx.violated) return;

	auto order = ov_dirs;
	if (order.size() > 1 && c.choose(2)) std::swap(order[0], order[1]);

	// reading, and resolving with the originals
	auto const expect_notes = [&]() {
		vector<string> r;
		for (auto cpl: vf.dcp->cpls()) for (auto i: cpl->reel_file_assets()) if (!i->asset_ref().resolved()) {
			r.push_back(dcp::note_to_string(dcp::VerificationNote(dcp::VerificationNote::Code::EXTERNAL_ASSET).set_asset_id(i->asset_ref().id())));
		}
		std::sort(r.begin(), r.end());
		return r;
	}();
	int const action = c.choose(4);
	static char const* const actions[] = {"read", "write again", "combine", "find and resolve"};
	// for the last: the directories in some order, some of which may not exist
	vector<string> places = order;
	places.insert(places.begin() + long(c.choose(uint32_t(places.size() + 1))), vf_dir);
	bool const tolerant = action == 3 && c.choose(2);
	bool const lost = action == 3 && !external.empty() && c.choose(4) == 3;
	if (action == 3) {
		if (c.choose(3) == 2) places.insert(places.begin() + long(c.choose(uint32_t(places.size() + 1))), "/sim/nowhere/package");
		if (lost) {
			// a file of the originals is not there
			for (auto const& i: where) if (external.count(i.first)) {
				remove_tree(i.second);
				break;
			}
		}
	}
	auto const before = snapshot();
	auto const tree_before = tree("/sim");
	auto go = [&](Window& w) {
		bool raised = false;
		string error;
		Seen seen;
		vector<string> found;
		{
			WindowScope scope(w);
			try {
				if (action == 0) {
					seen = look(vf_dir, order);
				} else if (action == 1) {
					// resolved and written again
					dcp::DCP v{boost::filesystem::path(vf_dir)};
					v.read();
					for (auto const& i: order) {
						dcp::DCP ov{boost::filesystem::path(i)};
						ov.read();
						v.resolve_refs(ov.assets());
					}
					v.write_xml(shared_ptr<dcp::CertificateChain>(), dcp::Filenames::ORIGINAL);
				} else if (action == 3) {
					for (auto i: dcp::find_and_resolve_cpls(vector<boost::filesystem::path>(places.begin(), places.end()), tolerant)) {
						found.push_back(i->id());
						if (made.count(i->id())) seen.together[i->id()] = describe_cpl(i);
						for (auto j: i->reel_file_assets()) {
							auto const& ref = j->asset_ref();
							if (ref.resolved()) seen.where[ref.id()] = ref.asset()->file() ? ref.asset()->file()->string() : string("no file");
							else seen.open.push_back(ref.id());
						}
					}
				} else {
					vector<boost::filesystem::path> inputs(order.begin(), order.end());
					inputs.insert(inputs.begin() + long(references % (inputs.size() + 1)), vf_dir);
					dcp::combine(inputs, "/sim/out", "issuer", "creator", "2027-01-01T00:00:00+00:00", "annotation");
				}
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("%s with %s -> %s %s", actions[action], fired.c_str(), raised ? "raised" : "returned", error.c_str());
		if (!open_handles().empty()) ctx.violate("file left open", "%s left open; %s", open_handles()[0].path.c_str(), fired.c_str());
		for (auto const& i: tree_before) {
			// only what is being written may change
			if (action == 1 && i.first.compare(0, vf_dir.size() + 1, vf_dir + "/") == 0) continue;
			string content;
			if (i.second[0] == 'f' && (!get_file(i.first, content) || content != i.second.substr(2))) ctx.violate("another file changed", "%s; %s", i.first.c_str(), fired.c_str());
		}
		if (raised) {
			if (w.fired.empty() && !(lost && !tolerant)) ctx.violate("raised on a healthy disk", "%s", error.c_str());
			return raised;
		}
		if (action == 3) {
			if (tree("/sim") != tree_before) ctx.violate("finding changed the disk", "%s; %s", diff_trees(tree_before, tree("/sim")).c_str(), fired.c_str());
			if (lost && !tolerant) {
				ctx.violate("missing file not reported", "a file is missing but nothing is said; %s", fired.c_str());
				return raised;
			}
			// whoever tolerates everything gets what could be read
			if (tolerant && !w.fired.empty()) return raised;
			vector<string> all;
			for (auto const& i: places) for (auto const& j: ids[i]) all.push_back(j);
			std::sort(all.begin(), all.end());
			std::sort(found.begin(), found.end());
			if (found != all) {
				ctx.violate("not every composition found", "%zu instead of %zu; %s", found.size(), all.size(), fired.c_str());
				return raised;
			}
			if (!lost && !seen.open.empty()) ctx.violate("reference not resolved by its original", "%s; %s", seen.open[0].c_str(), fired.c_str());
			if (!lost && seen.together != all_resolved(made)) ctx.violate("read differently together", "%s\ninstead of\n%s; %s", seen.together.empty() ? "-" : seen.together.begin()->second.c_str(), all_resolved(made).begin()->second.c_str(), fired.c_str());
			if (lost && seen.open.empty()) ctx.violate("missing file resolved", "%s", fired.c_str());
			for (auto const& i: seen.where) {
				auto j = where.find(i.first);
				if (j == where.end() || j->second != i.second) ctx.violate("resolved with the wrong file", "%s with %s instead of %s; %s", i.first.c_str(), i.second.c_str(), j == where.end() ? "-" : j->second.c_str(), fired.c_str());
			}
			return raised;
		}
		if (action == 1) {
			// what was written is as it was before
			auto const l = read_listing(vf_dir, smpte);
			auto const bad = check_listing(vf_dir, l);
			if (!bad.empty()) {
				ctx.violate("false supplemental package written again", "%s; %s", bad.c_str(), fired.c_str());
				return raised;
			}
			set<string> now;
			for (auto const& e: l.entries) now.insert(e.first);
			if (now != listed) ctx.violate("lists something else when written again", "%zu assets instead of %zu; %s", now.size(), listed.size(), fired.c_str());
		} else if (action == 2) {
			try {
				seen = look("/sim/out", {});
				auto const l = read_listing("/sim/out", smpte);
				auto const bad = check_listing("/sim/out", l);
				if (!bad.empty()) ctx.violate("false output", "%s; %s", bad.c_str(), fired.c_str());
			} catch (std::exception& e) {
				ctx.violate("false output", "reading raises %s; %s", e.what(), fired.c_str());
				return raised;
			}
			if (!seen.open.empty()) ctx.violate("combined package has open references", "%s; %s", seen.open[0].c_str(), fired.c_str());
			if (!seen.notes.empty()) ctx.violate("combined package is not right", "%s; %s", seen.notes[0].c_str(), fired.c_str());
			for (auto const& i: made) if (!seen.alone.count(i.first)) ctx.violate("composition lost", "%s; %s", i.first.c_str(), fired.c_str());
			for (auto const& i: seen.where) if (i.second.compare(0, 9, "/sim/out/") != 0) ctx.violate("asset outside the combined package", "%s; %s", i.second.c_str(), fired.c_str());
			return raised;
		}
		if (action == 1) {
			try {
				seen = look(vf_dir, order);
			} catch (std::exception& e) {
				ctx.violate("false supplemental package written again", "reading raises %s; %s", e.what(), fired.c_str());
				return raised;
			}
		}
		if (seen.notes != expect_notes) {
			// a complaint about what could not be read is an answer too
			if (w.fired.empty() || action == 1 || seen.notes.size() <= expect_notes.size()) ctx.violate("what is external is not said", "%zu notes instead of %zu; first: %s; %s", seen.notes.size(), expect_notes.size(), seen.notes.empty() ? "-" : seen.notes[0].c_str(), fired.c_str());
			return raised;
		}
		if (seen.alone != made) ctx.violate("read differently alone", "%s\ninstead of\n%s; %s", seen.alone.empty() ? "-" : seen.alone.begin()->second.c_str(), made.begin()->second.c_str(), fired.c_str());
		if (!seen.open.empty()) ctx.violate("reference not resolved by its original", "%s; %s", seen.open[0].c_str(), fired.c_str());
		if (seen.together != all_resolved(made)) ctx.violate("read differently together", "%s\ninstead of\n%s; %s", seen.together.empty() ? "-" : seen.together.begin()->second.c_str(), all_resolved(made).begin()->second.c_str(), fired.c_str());
		for (auto const& i: seen.where) {
			auto j = where.find(i.first);
			if (j == where.end() || j->second != i.second) ctx.violate("resolved with the wrong file", "%s with %s instead of %s; %s", i.first.c_str(), i.second.c_str(), j == where.end() ? "-" : j->second.c_str(), fired.c_str());
		}
		return raised;
	};

	Window dry;
	go(dry);
	ctx.sig(dry.ops.size());
	ctx.sig(uint64_t(action) * 8 + uint64_t(originals) * 2 + smpte);
	ctx.sig(external.size());
	ctx.sig(references);
	ctx.count("external references", references);
	for (int i = c.range(1, 4); i && !ctx.violated; --i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool const r = go(w);
		count_faults(ctx, w);
		for (auto const& k: w.fired) { ctx.sig(uint64_t(k.first)); ctx.sig(uint64_t(k.second.kind)); }
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("%zu external references, %s: %s -> %s", references, actions[action], describe_fired(w).c_str(), r ? "raised" : "returned");
	}
}

}

SIM_PROPERTY(D14, package_setup, run, 16, "A run makes one or two originals and a supplemental package whose compositions use assets of both, in directories whose names begin alike or are within each other, and then reads and resolves it, writes it again when resolved, combines it with its originals or lets the compositions of all be found and resolved (among directories which do not exist, or with a file missing), once undisturbed and then 1-4 times with 1-3 faults placed on the recorded operations. Non-trivial: a fault took effect. Distinct: by action, number of operations, originals, external references, positions and kinds of faults, and outcomes.")
