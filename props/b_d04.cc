// D04: damage to a stored package never passes verification
// D05: reading, searching and verifying never change a package
#include "b_package.h"
#include "combine.h"
#include "exceptions.h"
#include "equality_options.h"
#include "reel.h"
#include "reel_picture_asset.h"
#include "reel_sound_asset.h"
#include "reel_text_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "picture_asset.h"
#include "search.h"
#include "verify.h"
#include <algorithm>
#include <cerrno>

using namespace sim;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

struct Verified {
	bool raised = false;
	string error;
	std::multiset<string> notes;      // everything
	std::multiset<string> errors;     // of type ERROR
	set<dcp::VerificationNote::Code> codes;
};

string describe_note(dcp::VerificationNote const& n)
{
	string s = format_string("%d %d ", int(n.type()), int(n.code())) + dcp::note_to_string(n);
	if (n.file()) s += " [" + n.file()->string() + "]";
	if (n.line()) s += format_string(" [%llu]", (unsigned long long) *n.line());
	if (n.cpl_id()) s += " cpl " + *n.cpl_id();
	if (n.asset_id()) s += " asset " + *n.asset_id();
	if (n.reel_index()) s += format_string(" reel %d", *n.reel_index());
	return s;
}

Verified verify(vector<string> const& dirs)
{
	Verified v;
	vector<boost::filesystem::path> paths;
	for (auto const& i: dirs) paths.push_back(i);
	try {
		auto const r = dcp::verify(paths, {}, [](string, boost::optional<boost::filesystem::path>) {}, [](float) {}, {}, boost::filesystem::path(b_repository() + "/xsd"));
		for (auto const& i: r.notes) {
			auto const d = describe_note(i);
			v.notes.insert(d);
			v.codes.insert(i.code());
			if (i.type() == dcp::VerificationNote::Type::ERROR) v.errors.insert(d);
		}
	} catch (std::exception& e) {
		v.raised = true;
		v.error = e.what();
	}
	return v;
}

// the first of a's which are not among b's
string beyond(std::multiset<string> const& a, std::multiset<string> const& b)
{
	for (auto const& i: a) if (a.count(i) > b.count(i)) return i;
	return "";
}

bool smpte_of(Package const& p) { return p.dcp->cpls()[0]->standard() == dcp::Standard::SMPTE; }

enum Kind { CPL, PICTURE, SOUND, TEXT, OTHER_XML, OTHER, KINDS };
char const* const kind_name[] = {"composition", "picture", "sound", "text", "list", "other file"};

// every file of a package, with what it is
map<string, Kind> files_of(Package const& p)
{
	map<string, Kind> r;
	auto const listing = read_listing(p.dir, smpte_of(p));
	for (auto const& i: listing.entries) r[p.dir + "/" + i.second.path] = i.second.pkl ? OTHER_XML : OTHER;
	r[p.dir + (smpte_of(p) ? "/ASSETMAP.xml" : "/ASSETMAP")] = OTHER_XML;
	for (auto cpl: p.dcp->cpls()) {
		r[cpl->file()->string()] = CPL;
		for (auto reel: cpl->reels()) {
			if (reel->main_picture()) r[reel->main_picture()->asset()->file()->string()] = PICTURE;
			if (reel->main_sound()) r[reel->main_sound()->asset()->file()->string()] = SOUND;
			if (reel->main_subtitle()) r[reel->main_subtitle()->asset()->file()->string()] = TEXT;
			for (auto i: reel->closed_captions()) r[i->asset()->file()->string()] = TEXT;
		}
	}
	return r;
}

bool is_xml(string const& path) { return path.size() > 4 && path.substr(path.size() - 4) == ".xml"; }

void run_d04(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	PackageOptions o;
	o.max_cpls = 2;
	o.max_reels = 2;
	o.more_cpls = true;
	auto p = make_package(ctx, "/sim/dcp", o);
	p.dcp->write_xml(c.choose(8) == 7 ? signer_chain() : shared_ptr<dcp::CertificateChain>());
	auto const files = files_of(p);
	auto const before = snapshot();

	auto const good = verify({p.dir});
	if (good.raised) {
		ctx.violate("verification of a good package raised", "%s", good.error.c_str());
		return;
	}
	typedef dcp::VerificationNote::Code Code;
	for (auto i: {Code::FAILED_READ, Code::MISMATCHED_CPL_HASHES, Code::INCORRECT_PICTURE_HASH, Code::INCORRECT_SOUND_HASH, Code::MISMATCHED_PICTURE_HASHES, Code::MISMATCHED_SOUND_HASHES,
		     Code::MISSING_ASSET, Code::MISSING_ASSETMAP, Code::MISMATCHED_ASSET_MAP_ID, Code::EMPTY_ASSET_PATH, Code::EXTERNAL_ASSET, Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, Code::DUPLICATE_ASSET_ID_IN_PKL}) {
		if (good.codes.count(i)) {
			string all;
			for (auto const& j: good.errors) all += j + "\n";
			ctx.violate("good package reported as damaged", "an undamaged package was reported with\n%s", all.c_str());
			return;
		}
	}

	vector<string> paths;
	for (auto const& i: files) paths.push_back(i.first);
	ctx.sig(uint64_t(paths.size()));
	int const tries = c.range(1, 4);
	for (int t = 0; t < tries && !ctx.violated; ++t) {
		restore(before);
		clear_bad_sectors();
		set_dir_order(c.choose(3) ? 0 : c.choose(1000));
		string what;
		bool expect_good = false;
		switch (c.choose(7)) {
		case 0:
			what = "verifying again";
			expect_good = true;
			break;
		case 1:
		case 2:
		{
			// a changed byte, in what there is a digest for
			vector<string> can;
			for (auto const& i: files) if (i.second <= SOUND) can.push_back(i.first);
			auto const path = c.pick(can);
			string content;
			get_file(path, content);
			size_t at = c.choose(uint32_t(content.size()));
			// what matters most is at the beginning
			if (c.choose(2)) at = std::min(content.size() - 1, size_t(c.choose(600)));
			unsigned mask = 1 + c.choose(255);
			// now and then so that it remains a digit: the more the better it hides
			if (is_xml(path) && c.choose(2)) {
				vector<size_t> digits;
				// and now and then in the identity
				auto const end = c.choose(2) ? content.find("</Id>") : content.size();
				for (size_t i = 0; i < std::min(content.size(), end); ++i) if (isdigit(content[i])) digits.push_back(i);
				at = c.pick(digits);
				mask = 1;
			}
			content[at] = char(content[at] ^ mask);
			put_file(path, content);
			what = format_string("byte %zu of %s %s changed by %u", at, kind_name[files.at(path)], path.c_str(), mask);
			break;
		}
		case 3:
		{
			// cut short: anywhere for what there is a digest for; to nothing, or within the root element, for other XML
			vector<string> can;
			for (auto const& i: files) if (i.second <= SOUND || i.second == OTHER_XML || (i.second == TEXT)) can.push_back(i.first);
			auto const path = c.pick(can);
			string content;
			get_file(path, content);
			size_t length = 0;
			if (c.choose(2)) {
				auto limit = content.size();
				if (files.at(path) == OTHER_XML || (files.at(path) == TEXT && is_xml(path))) limit = content.rfind("</");
				else if (files.at(path) == TEXT) limit = 1;
				length = c.choose(uint32_t(limit));
			}
			put_file(path, content.substr(0, length));
			what = format_string("%s %s cut from %zu to %zu bytes", kind_name[files.at(path)], path.c_str(), content.size(), length);
			break;
		}
		case 4:
		{
			auto const path = c.pick(paths);
			remove_tree(path);
			what = format_string("%s %s missing", kind_name[files.at(path)], path.c_str());
			break;
		}
		case 5:
		{
			// exchanged: two things which have identities or digests of their own
			vector<string> can;
			for (auto const& i: files) if (i.second <= TEXT) can.push_back(i.first);
			auto const a = c.pick(can);
			if (c.choose(4)) {
				// of the same kind if there is another
				vector<string> same;
				for (auto const& i: can) if (i != a && files.at(i) == files.at(a)) same.push_back(i);
				if (!same.empty()) can = same;
			}
			auto const b = c.pick(can);
			string ca, cb;
			get_file(a, ca);
			get_file(b, cb);
			if (ca == cb) {
				what = "nothing exchanged";
				expect_good = true;
				break;
			}
			put_file(a, cb);
			put_file(b, ca);
			what = format_string("%s %s and %s %s exchanged", kind_name[files.at(a)], a.c_str(), kind_name[files.at(b)], b.c_str());
			break;
		}
		case 6:
		{
			vector<string> can;
			for (auto const& i: files) if (i.second <= SOUND || i.second == OTHER_XML || (i.second == TEXT && is_xml(i.first))) can.push_back(i.first);
			auto const path = c.pick(can);
			string content;
			get_file(path, content);
			auto limit = content.size();
			if (files.at(path) == OTHER_XML || files.at(path) == TEXT) limit = content.rfind("</");
			auto const at = c.choose(uint32_t(limit));
			set_bad_sector(path, at);
			what = format_string("%s %s not readable from byte %u", kind_name[files.at(path)], path.c_str(), at);
			break;
		}
		}
		auto const v = verify({p.dir});
		auto const extra = v.raised ? "raised " + v.error : beyond(v.errors, good.errors);
		ctx.note("%s -> %s", what.c_str(), extra.c_str());
		if (expect_good) {
			if (v.raised || v.notes != good.notes) ctx.violate("notes differ", "%s: %s%s", what.c_str(), v.raised ? v.error.c_str() : beyond(v.notes, good.notes).c_str(), beyond(good.notes, v.notes).c_str());
		} else {
			if (extra.empty()) {
				ctx.violate("damage passed verification", "%s was not reported among %zu notes", what.c_str(), v.notes.size());
			}
			ctx.count(format_string("fault.damage.%.*s", int(what.find(' ')), what.c_str()));
			ctx.stats.nontrivial = true;
			ctx.sig(what);
		}
		ctx.stats.sample = what + " -> " + extra;
		if (!open_handles().empty()) ctx.violate("file left open", "%zu files left open: %s", open_handles().size(), what.c_str());
	}
	clear_bad_sectors();
}

void run_d05(Ctx& ctx)
{
	auto& c = ctx.c;
	start_clock(1830000000ll * 1000000000ll);
	PackageOptions o;
	o.max_cpls = 2;
	o.max_reels = 2;
	vector<Package> packages;
	int const n = 1 + int(c.choose(2));
	for (int i = 0; i < n; ++i) {
		auto q = o;
		if (i) q.share = packages[0].mxf;
		q.prefix = format_string("p%d", i);
		packages.push_back(make_package(ctx, format_string("/sim/lib/dcp%d", i), q));
		packages.back().dcp->write_xml();
		packages.back().dcp.reset();
	}
	// damage
	vector<string> files;
	for (auto const& i: tree("/sim/lib")) if (i.second[0] == 'f') files.push_back(i.first);
	for (auto k = c.choose(3); k; --k) {
		auto const path = c.pick(files);
		string content;
		get_file(path, content);
		switch (c.choose(4)) {
		case 0: remove_tree(path); break;
		case 1: put_file(path, ""); break;
		case 2: put_file(path, content.substr(0, content.size() / 2)); break;
		case 3: if (!content.empty()) { content[c.choose(uint32_t(content.size()))] ^= 1; put_file(path, content); } break;
		}
	}
	auto const before = snapshot();
	auto const tree_before = tree("/sim");
	static char const* names[] = {"read", "read with notes", "search", "compare", "verify", "digest"};
	int const kind = int(c.choose(6));
	auto const dir = [&](int i) { return boost::filesystem::path(format_string("/sim/lib/dcp%d", i % n)); };

	auto go = [&](Window& w) {
		string outcome = "returned";
		{
			WindowScope scope(w);
			try {
				switch (kind) {
				case 0: { dcp::DCP d(dir(0)); d.read(); break; }
				case 1: { dcp::DCP d(dir(0)); vector<dcp::VerificationNote> notes; d.read(&notes, true); break; }
				case 2: dcp::find_potential_dcps("/sim/lib"); dcp::DCP::directories_from_files({dir(0) / "ASSETMAP", dir(0) / "x"}); break;
				case 3: {
					dcp::DCP a(dir(0)), b(dir(1));
					a.read();
					b.read();
					dcp::EqualityOptions options;
					a.equals(b, options, [](dcp::NoteType, string) {});
					break;
				}
				case 4: {
					auto const v = verify({dir(0).string(), dir(1).string()});
					if (v.raised) outcome = "raised " + v.error;
					break;
				}
				case 5: {
					dcp::DCP d(dir(0));
					d.read();
					for (auto i: d.assets()) i->hash();
					break;
				}
				}
			} catch (std::exception& e) {
				outcome = string("raised ") + e.what();
			}
		}
		auto const fired = describe_fired(w);
		ctx.note("%s with %s -> %s", names[kind], fired.c_str(), outcome.c_str());
		if (!w.mutations.empty()) ctx.violate("the disk was changed", "%s: %s; %s", names[kind], w.mutations[0].c_str(), fired.c_str());
		auto const after = tree("/sim");
		if (after != tree_before) ctx.violate("the disk was changed", "%s: %s; %s", names[kind], diff_trees(tree_before, after).c_str(), fired.c_str());
		if (!escapes().empty()) ctx.violate("the disk was changed", "%s outside of the package: %s", names[kind], escapes()[0].c_str());
		return outcome;
	};

	Window dry;
	go(dry);
	ctx.sig(uint64_t(kind));
	ctx.sig(uint64_t(dry.ops.size()));
	int const tries = c.range(1, kind == 4 ? 2 : 5);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		Window w;
		FaultMenu menu;
		w.faults = draw_faults(ctx, dry.ops, menu);
		auto const r = go(w);
		count_faults(ctx, w);
		for (auto const& f: w.fired) { ctx.sig(uint64_t(f.first)); ctx.sig(uint64_t(f.second.kind)); }
		ctx.sig(r);
		ctx.stats.sample = format_string("%s: %s -> %s", names[kind], describe_fired(w).c_str(), r.c_str());
	}
}

}

SIM_PROPERTY(D04, package_setup, run_d04, 16, "A run makes a package (one or two compositions and reels), verifies it, and then 1-4 times verifies it again after one piece of damage: a changed byte of a composition, picture or sound file (often one which leaves a valid XML document), a file cut short, emptied or missing, two files exchanged, a file unreadable from some byte on; or undamaged with another listing order. Non-trivial: damage was done. Distinct: by number of files and kind and place of damage.")
SIM_PROPERTY(D05, package_setup, run_d05, 16, "A run makes one or two packages, damages up to two files, and reads, searches, compares, digests or verifies them, undisturbed and then 1-5 times with 1-3 faults placed on the recorded operations; the disk is watched for every change. Non-trivial: a fault took effect. Distinct: by operation, positions and kinds of faults, and outcomes.")
