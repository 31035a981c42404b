// S05: filesystem operations do exactly what they say or report an error
//
// The reference is Boost.Filesystem itself, working without faults on a second
// copy of the tree.
#include "../sim/sim.h"
#include "filesystem.h"
#include <boost/filesystem.hpp>

using namespace sim;
using std::string;
using std::vector;
namespace bfs = boost::filesystem;
namespace dfs = dcp::filesystem;

namespace {

struct Result {
	bool error = false;
	bool threw = false;
	string value;
};

typedef std::function<string (string const& root)> Call;

}

static Tree strip(Tree const& t, string const& root)
{
	Tree r;
	for (auto const& i: t) r[i.first.substr(root.size())] = i.second;
	return r;
}

// which names share an inode, by the first of them
static std::map<string, string> link_groups(string const& root)
{
	std::map<uint64_t, string> first;
	std::map<string, string> r;
	for (auto const& i: inode_numbers(root)) {
		auto name = i.first.substr(root.size());
		auto j = first.insert({i.second, name});
		r[name] = j.first->second;
	}
	return r;
}

static string num(uintmax_t n) { return std::to_string(n); }

static string listing(vector<string> v, string const& root)
{
	std::sort(v.begin(), v.end());
	string r;
	for (auto const& i: v) r += i.substr(root.size()) + "\n";
	return r;
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	string const SYS = "/sim/sys", REF = "/sim/ref";
	// initial tree, the same twice
	vector<string> const names = {"/a", "/b", "/d", "/d/x", "/d/y", "/e", "/e/f", "/e/f/g", "/long name.ext"};
	// with room above, since a symbolic link and ".." can lead up
	string const inner = "/1/2";
	for (auto root: {SYS, REF}) {
		put_dir(root);
		put_dir(root + "/1");
		put_dir(root + inner);
	}
	for (auto const& n: names) {
		int const kind = int(c.choose(8));
		string const parent = n.substr(0, n.rfind('/'));
		auto t = strip(tree(SYS), SYS);
		if (!parent.empty() && (!t.count(inner + parent) || t[inner + parent] != "d")) continue;
		string const content = kind >= 1 && kind <= 3 ? c.bytes(c.choose(c.chance(1, 8) ? (c.chance(1, 8) ? (c.chance(1, 4) ? 1500000 : 200000) : 20000) : 40)) : "";
		string const target = c.pick(vector<string>{"a", "d", "nowhere", "../a", "."});
		for (auto root: {SYS, REF}) {
			switch (kind) {
			case 0: break;
			case 1: case 2: case 3: put_file(root + inner + n, content); break;
			case 4: case 5: case 6: put_dir(root + inner + n); break;
			case 7: put_symlink(root + inner + n, target); break;
			}
		}
	}
	if (c.chance(1, 12)) {
		// many entries, or a long way down
		int const n = c.chance(1, 8) ? c.range(256, 300) : c.range(10, 70);
		bool const deep = c.choose(2);
		string at = "/m";
		for (auto root: {SYS, REF}) put_dir(root + inner + at);
		for (int i = 0; i < n; ++i) {
			if (deep && i < 25) at += "/s";
			for (auto root: {SYS, REF}) {
				if (deep && i < 25) put_dir(root + inner + at);
				else put_file(root + inner + at + format_string("/%d", i), string(size_t(i % 7), 'm'));
			}
		}
	}
	set_dir_order(c.choose(1000));
	auto draw_path = [&]() -> string {
		string p = c.pick(names);
		if (c.choose(4)) {
			// something which is there
			vector<string> there;
			for (auto const& i: tree(SYS + inner)) {
				if (i.first.size() > SYS.size() + inner.size()) there.push_back(i.first.substr(SYS.size() + inner.size()));
			}
			if (!there.empty()) p = c.pick(there);
		}
		if (c.chance(1, 10)) p += "/new";
		if (c.chance(1, 20)) p = "/e/../d";
		if (c.chance(1, 40)) p = "";
		return p;
	};

	int const steps = c.range(1, 12);
	for (int step = 0; step < steps && !ctx.violated; ++step) {
		int const op = int(c.choose(32));
		string const p = draw_path();
		string q = c.choose(2) ? c.pick(names) + (c.choose(2) ? "2" : "") : draw_path();
		bool const with_ec = c.choose(2);
		string const link_target = c.pick(vector<string>{"a", "d/x", "nowhere", "e"});
		// name; whether there is a variant with an error code
		string name;
		std::function<string (string const&, boost::system::error_code*)> sys, ref;
		auto B = [&](bool b) { return string(b ? "yes" : "no"); };
		bool ec_used = false;
#define EC(NAME, EXPR_S, EXPR_SE, EXPR_R, EXPR_RE) \
	name = NAME; ec_used = with_ec; \
	sys = [&](string const& r, boost::system::error_code* ec) -> string { (void)r; return ec ? (EXPR_SE) : (EXPR_S); }; \
	ref = [&](string const& r, boost::system::error_code* ec) -> string { (void)r; return ec ? (EXPR_RE) : (EXPR_R); };
#define PLAIN(NAME, EXPR_S, EXPR_R) \
	name = NAME; ec_used = false; \
	sys = [&](string const& r, boost::system::error_code*) -> string { (void)r; return EXPR_S; }; \
	ref = [&](string const& r, boost::system::error_code*) -> string { (void)r; return EXPR_R; };
		// what a listing gives
		auto list_sys = [&](string const& r) { vector<string> v; for (auto i: dfs::directory_iterator(r + p)) v.push_back(i.path().string()); return listing(v, r); };
		auto list_sys_arrow = [&](string const& r) { vector<string> v; for (auto i = dfs::directory_iterator(r + p); i != dfs::directory_iterator(); ++i) v.push_back(i->path().string()); return listing(v, r); };
		auto list_ref = [&](string const& r) { vector<string> v; for (bfs::directory_iterator i(r + p), e; i != e; ++i) v.push_back(i->path().string()); return listing(v, r); };
		auto list_sys_ec = [&](string const& r, boost::system::error_code& ec) { vector<string> v; dfs::directory_iterator i(r + p, ec); if (!ec) { for (; i != dfs::directory_iterator(); ++i) v.push_back(i->path().string()); } else if (i != dfs::directory_iterator()) { return string("failed iterator is not at its end"); } return listing(v, r); };
		auto list_ref_ec = [&](string const& r, boost::system::error_code& ec) { vector<string> v; bfs::directory_iterator i(r + p, ec), e; if (!ec) { for (; i != e; ++i) v.push_back(i->path().string()); } return listing(v, r); };
		auto rlist_sys = [&](string const& r) { vector<string> v; for (auto i: dfs::recursive_directory_iterator(r + p)) v.push_back(i.path().string()); return listing(v, r); };
		auto rlist_sys_arrow = [&](string const& r) { vector<string> v; for (auto i = dfs::recursive_directory_iterator(r + p); i != dfs::recursive_directory_iterator(); ++i) v.push_back(i->path().string()); return listing(v, r); };
		auto rlist_ref = [&](string const& r) { vector<string> v; for (bfs::recursive_directory_iterator i(r + p), e; i != e; ++i) v.push_back(i->path().string()); return listing(v, r); };
		auto unroot = [](string s, string const& r) { (void)r; return s.size() > 8 ? s.substr(8) : s; };
		string const relative = p.empty() ? "a" : p.substr(1);
		// a path with nothing needless in it which leads to the same file
		string const detour = p + c.pick(vector<string>{"", "/.", "/..", "/../b", "/./x", "/../../e", "/nowhere/.."});
		auto resolved_sys = [&](string const& r) { return dfs::weakly_canonical(r + detour).string(); };
		auto judge_resolved = [&](string const& r, bfs::path const& path) {
			boost::system::error_code ec;
			if (!path.is_absolute()) return string("not absolute");
			for (auto const& i: path) if (i == ".") return string("has a needless part");
			if (!bfs::exists(r + detour, ec)) return string("absent");
			return string(bfs::equivalent(path, r + detour, ec) ? "same" : "other: " + path.string());
		};
		auto resolved_ref = [&](string const& r) {
			boost::system::error_code ec;
			return string(bfs::exists(r + detour, ec) ? "same" : "absent");
		};
		switch (op) {
		case 0: EC("exists", B(dfs::exists(r + p)), B(dfs::exists(r + p, *ec)), B(bfs::exists(r + p)), B(bfs::exists(r + p, *ec))) break;
		case 1: PLAIN("is_directory", B(dfs::is_directory(r + p)), B(bfs::is_directory(r + p))) break;
		case 2: PLAIN("is_regular_file", B(dfs::is_regular_file(r + p)), B(bfs::is_regular_file(r + p))) break;
		case 3: PLAIN("is_empty", B(dfs::is_empty(r + p)), B(bfs::is_empty(r + p))) break;
		case 4: EC("file_size", num(dfs::file_size(r + p)), num(dfs::file_size(r + p, *ec)), num(bfs::file_size(r + p)), num(bfs::file_size(r + p, *ec))) break;
		case 5: PLAIN("hard_link_count", num(dfs::hard_link_count(r + p)), num(bfs::hard_link_count(r + p))) break;
		case 6: EC("last_write_time", num(uintmax_t(dfs::last_write_time(r + p))), num(uintmax_t(dfs::last_write_time(r + p, *ec))), num(uintmax_t(bfs::last_write_time(r + p))), num(uintmax_t(bfs::last_write_time(r + p, *ec)))) break;
		case 7: case 8: EC("create_directory", B(dfs::create_directory(r + p)), B(dfs::create_directory(r + p, *ec)), B(bfs::create_directory(r + p)), B(bfs::create_directory(r + p, *ec))) break;
		case 9: case 10: EC("create_directories", B(dfs::create_directories(r + p + "/n/m")), B(dfs::create_directories(r + p, *ec)), B(bfs::create_directories(r + p + "/n/m")), B(bfs::create_directories(r + p, *ec))) break;
		case 11: case 12: EC("create_hard_link", (dfs::create_hard_link(r + p, r + q), ""), (dfs::create_hard_link(r + p, r + q, *ec), ""), (bfs::create_hard_link(r + p, r + q), ""), (bfs::create_hard_link(r + p, r + q, *ec), "")) break;
		case 13: EC("create_symlink", "", "", "", "") ec_used = true;
			sys = [&](string const& r, boost::system::error_code* ec) { dfs::create_symlink(link_target, r + p, *ec); return string(); };
			ref = [&](string const& r, boost::system::error_code* ec) { bfs::create_symlink(link_target, r + p, *ec); return string(); };
			break;
		case 14: PLAIN("copy", (dfs::copy(r + p, r + q), ""), (bfs::copy(r + p, r + q), "")) break;
		case 15: case 16: EC("copy_file", (dfs::copy_file(r + p, r + q), ""), (dfs::copy_file(r + p, r + q, *ec), ""), (bfs::copy_file(r + p, r + q), ""), (bfs::copy_file(r + p, r + q, *ec), "")) break;
		case 17: PLAIN("copy_file none", (dfs::copy_file(r + p, r + q, dfs::CopyOptions::NONE), ""), (bfs::copy_file(r + p, r + q, bfs::copy_options::none), "")) break;
		case 18: case 19: PLAIN("copy_file overwrite", (dfs::copy_file(r + p, r + q, dfs::CopyOptions::OVERWRITE_EXISTING), ""), (bfs::copy_file(r + p, r + q, bfs::copy_options::overwrite_existing), "")) break;
		case 20: EC("remove", B(dfs::remove(r + p)), B(dfs::remove(r + p, *ec)), B(bfs::remove(r + p)), B(bfs::remove(r + p, *ec))) break;
		case 21: EC("remove_all", num(dfs::remove_all(r + p)), num(dfs::remove_all(r + p, *ec)), num(bfs::remove_all(r + p)), num(bfs::remove_all(r + p, *ec))) break;
		case 22: case 23: EC("rename", (dfs::rename(r + p, r + q), ""), (dfs::rename(r + p, r + q, *ec), ""), (bfs::rename(r + p, r + q), ""), (bfs::rename(r + p, r + q, *ec), "")) break;
		case 24: EC("list", list_sys(r), list_sys_ec(r, *ec), list_ref(r), list_ref_ec(r, *ec)) break;
		case 25: PLAIN("list ->", list_sys_arrow(r), list_ref(r)) break;
		case 26: if (c.choose(2)) { PLAIN("recursive list", rlist_sys(r), rlist_ref(r)) } else { PLAIN("recursive list ->", rlist_sys_arrow(r), rlist_ref(r)) } break;
		case 27: PLAIN("canonical", unroot(dfs::canonical(r + p).string(), r), unroot(bfs::canonical(r + p).string(), r)) break;
		case 28: PLAIN("working directory", (dfs::current_path(r), unroot(dfs::current_path().string(), r) + " " + unroot(dfs::absolute(relative).string(), r) + B(dfs::exists(relative))), (bfs::current_path(r), unroot(bfs::current_path().string(), r) + " " + unroot(bfs::absolute(relative).string(), r) + B(bfs::exists(relative)))) break;
		case 29: PLAIN("space", num(dfs::space(r + p).capacity) + " " + num(dfs::space(r + p).available), num(bfs::space(r + p).capacity) + " " + num(bfs::space(r + p).available)) break;
		case 30: PLAIN("weakly_canonical", resolved_sys(r), resolved_ref(r)) break;
		case 31: PLAIN("extension", dfs::extension(p) + " " + dfs::change_extension(p, ".new").string(), bfs::path(p).extension().string() + " " + bfs::path(p).replace_extension(".new").string()) break;
		}
		bool const to_q = op == 11 || op == 12 || (op >= 14 && op <= 19) || op == 22 || op == 23;
		string const text = name + " " + p + (to_q ? " " + q : "") + (ec_used ? " (code)" : "");

		auto perform = [&](std::function<string (string const&, boost::system::error_code*)> const& f, string const& root) {
			Result r;
			boost::system::error_code ec;
			try {
				r.value = f(root + inner, ec_used ? &ec : nullptr);
				if (ec_used && ec) r.error = true;
			} catch (bfs::filesystem_error& e) {
				r.error = r.threw = true;
			}
			set_sim_cwd("");
			return r;
		};

		// the reference, without faults
		auto const want = perform(ref, REF);
		auto const base = snapshot();
		auto const tree_before = strip(tree(SYS), SYS);
		// a fault-free trial numbers the operations
		Window dry;
		{
			WindowScope scope(dry);
			perform(sys, SYS);
		}
		restore(base);
		Window w;
		bool const faulty = c.chance(1, 3);
		if (faulty) {
			FaultMenu menu;
			w.faults = draw_faults(ctx, dry.ops, menu);
		}
		Result got;
		{
			WindowScope scope(w);
			got = perform(sys, SYS);
		}
		set_disk_free(-1);
		if (name == "weakly_canonical" && !got.error) got.value = judge_resolved(SYS + inner, got.value);
		count_faults(ctx, w);
		auto const after = strip(tree(SYS), SYS);
		auto const expected = strip(tree(REF), REF);
		auto const what = describe_fired(w);
		ctx.note("%d: %s -> %s%s; %s", step, text.c_str(), got.error ? "error" : "ok ", got.error ? "" : got.value.substr(0, 60).c_str(), what.c_str());
		ctx.stats.sample += text + (got.error ? " -> error; " : " -> ok; ");
		ctx.sig(uint64_t(op) * 4 + got.error * 2 + !w.fired.empty());
		ctx.sig(hash_str(p) * 3 + hash_str(q));
		ctx.count("steps");
		if (after != tree_before) ctx.stats.nontrivial = true;

		// a listing of a directory with an error code only covers the opening
		bool const may_throw = name == "list";
		if (ec_used && got.threw && !may_throw) {
			ctx.violate("variant with an error code threw", "%s; %s", text.c_str(), what.c_str());
			break;
		}
		if (!got.error) {
			if (want.error) {
				ctx.violate("succeeded where it must fail", "%s; %s; %s", text.c_str(), what.c_str(), diff_trees(tree_before, after).c_str());
			} else if (got.value != want.value) {
				ctx.violate("wrong answer", "%s gave \"%s\", expected \"%s\"; %s", text.c_str(), got.value.c_str(), want.value.c_str(), what.c_str());
			} else if (after != expected || link_groups(SYS) != link_groups(REF)) {
				ctx.violate("wrong effect", "%s: compared with the reference: %s; %s", text.c_str(), diff_trees(expected, after).c_str(), what.c_str());
			}
		} else {
			// a path which leads nowhere, perhaps in a circle, need not be resolved
			bool links = false;
			for (auto const& i: tree_before) links = links || i.second[0] == 'l';
			if (!want.error && w.fired.empty() && !(name == "weakly_canonical" && want.value == "absent" && links)) {
				ctx.violate("failed where it must succeed", "%s", text.c_str());
			}
			if (want.error && w.fired.empty() && after != expected) {
				ctx.violate("wrong effect", "%s failed but compared with the reference: %s", text.c_str(), diff_trees(expected, after).c_str());
			}
			// a failed operation: what was there and is not what it was asked to change stays
			for (auto const& i: tree_before) {
				auto j = after.find(i.first);
				bool const same = j != after.end() && j->second == i.second;
				auto under = [&](string const& path) { return i.first == path || i.first.compare(0, path.size() + 1, path + "/") == 0; };
				bool allowed = false;
				if (name == "remove_all") allowed = true;
				if (name == "copy_file overwrite" || name == "copy") allowed = true;   // judged below
				if (!same && !allowed) {
					ctx.violate("failed operation changed something", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
					break;
				}
				(void)under;
			}
			for (auto const& i: after) {
				bool const allowed = name == "create_directories" || name.compare(0, 4, "copy") == 0;
				if (!tree_before.count(i.first) && !allowed) {
					ctx.violate("failed operation created something", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
					break;
				}
			}
			if (name == "remove_all") {
				for (auto const& i: after) {
					auto j = tree_before.find(i.first);
					if (j == tree_before.end() || j->second != i.second) ctx.violate("failed removal changed something", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
				}
			}
			if (name == "copy_file overwrite" || name == "copy") {
				// only the destination may differ, and names which share its inode or link to it
				int changed = 0;
				auto ids = inode_numbers(SYS);
				std::set<uint64_t> inodes;
				for (auto const& i: tree_before) {
					auto j = after.find(i.first);
					if (j == after.end()) ctx.violate("failed copy removed something", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
					else if (j->second != i.second) { ++changed; inodes.insert(ids[SYS + i.first]); }
				}
				if (name == "copy" && changed) ctx.violate("copy without overwriting changed an existing file", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
				if (inodes.size() > 1) ctx.violate("failed copy changed several files", "%s: %s; %s", text.c_str(), diff_trees(tree_before, after).c_str(), what.c_str());
			}
		}
		if (!open_handles().empty()) {
			ctx.violate("handle left open", "%s: %s; %s", text.c_str(), open_handles()[0].path.c_str(), what.c_str());
		}
		// go on from the same tree on both sides
		if (after != expected || link_groups(SYS) != link_groups(REF)) {
			if (!ctx.violated) {
				restore(base);
				remove_tree(REF);
				// the reference may have changed its tree: rebuild both from what was before
				auto const t = strip(tree(SYS), SYS);
				remove_tree(SYS);
				for (auto root: {SYS, REF}) {
					for (auto const& i: t) {
						if (i.second == "d") put_dir(root + i.first);
						else if (i.second[0] == 'f') put_file(root + i.first, i.second.substr(2));
						else put_symlink(root + i.first, i.second.substr(2));
					}
				}
			}
		}
	}

	if (!ctx.violated && c.chance(1, 10)) {
		// a file whose size, age or number of links few files have
		string const far = "/sim/far";
		put_file(far, "f");
		auto const size = c.pick(vector<uint64_t>{1, 255, 256, 65536, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x123456789aULL, 0x7fffffffffffffffULL});
		auto const mtime = c.pick(vector<int64_t>{0, 1, -2, 0x7fffffffLL, 0x80000000LL, 0x100000000LL, -0x80000001LL, 253402300799LL});
		int const links = c.pick(vector<int>{1, 2, 255, 256, 65535, 65536});
		put_facts(far, size, mtime, links);
		ctx.sig(size);
		ctx.sig(uint64_t(mtime) * 31 + uint64_t(links));
		ctx.count("files with unusual facts");
		auto tell = [&](string const& style) {
			boost::system::error_code a, b;
			auto const s = style == "" ? dfs::file_size(far) : dfs::file_size(far, a);
			auto const t = style == "" ? dfs::last_write_time(far) : dfs::last_write_time(far, b);
			return format_string("%llu %lld %llu", static_cast<unsigned long long>(s), static_cast<long long>(t), static_cast<unsigned long long>(dfs::hard_link_count(far)));
		};
		auto const want = format_string("%llu %lld %llu", static_cast<unsigned long long>(size), static_cast<long long>(mtime), static_cast<unsigned long long>(links));
		for (string style: {"", "error code"}) {
			auto const got = tell(style);
			if (got != want) ctx.violate("wrong answer", "file_size, last_write_time and hard_link_count gave \"%s\", expected \"%s\" %s", got.c_str(), want.c_str(), style.c_str());
		}
	}
}

SIM_PROPERTY(S05, nullptr, run, 32, "A run draws a tree of up to nine files, directories and symbolic links (one in twelve with a directory of up to 300 entries or 25 levels besides) and a listing order, and makes 1-12 filesystem calls (32 kinds, both error styles), a third of them with 1-3 injected faults; each result and the whole tree (with its hard links) is compared with Boost.Filesystem working without faults on a second copy; one run in ten also asks the size, age and links of a file for which these are far out of the ordinary. Non-trivial: the tree changed or a fault took effect. Distinct: by the sequence of calls, paths, outcomes.")
