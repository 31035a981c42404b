// D08: every reachable package is found despite unreadable neighbours
#include "b_common.h"
#include "search.h"

using namespace sim;
using std::set;
using std::string;
using std::vector;

static bool within(string const& path, string const& top)
{
	return path == top || (path.size() > top.size() && path.compare(0, top.size(), top) == 0 && path[top.size()] == '/');
}

struct Maker {
	Ctx& ctx;
	set<string> maps;      // every directory with an asset map
	vector<string> dirs;
	int left = 40;

	void fill(string const& dir, int depth)
	{
		auto& c = ctx.c;
		put_dir(dir);
		dirs.push_back(dir);
		if (depth > 0 || c.choose(6) == 5) {
			switch (c.choose(6)) {
			case 3: put_file(dir + "/ASSETMAP", "x"); maps.insert(dir); break;
			case 4: put_file(dir + "/ASSETMAP.xml", "x"); maps.insert(dir); break;
			case 5: put_file(dir + "/ASSETMAP", ""); put_file(dir + "/ASSETMAP.xml", "x"); maps.insert(dir); break;
			default: break;
			}
		}
		static vector<string> const decoys = {"ASSETMAP.XML", "assetmap", "ASSETMAP.xml.bak", "VOLINDEX", "CPL_1.xml", ".hidden"};
		for (auto n = c.choose(3); n > 0; --n) put_file(dir + "/" + c.pick(decoys), "d");
		static vector<string> const names = {"a", "b", "c", "A B", ".x", "zz", "ASSETMAPS", "0", "\xc3\xa9", "d.xml"};
		if (depth < 5) {
			set<string> used;
			for (auto n = c.choose(depth == 0 ? 6 : 4); n > 0 && left > 0; --n) {
				auto const& name = c.pick(names);
				if (!used.insert(name).second) continue;
				--left;
				fill(dir + "/" + name, depth + 1);
			}
		}
	}
};

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	string const root = "/sim/root";
	Maker maker{ctx, {}, {}};
	maker.fill(root, 0);
	if (c.chance(1, 20)) {
		// a long way down, or very many side by side
		bool const deep = c.choose(2);
		int const n = deep ? c.range(8, 40) : c.range(60, 300);
		string at = root + "/far";
		put_dir(at);
		maker.dirs.push_back(at);
		for (int i = 0; i < n; ++i) {
			string const dir = deep ? at + "/s" : at + format_string("/%d", i);
			put_dir(dir);
			maker.dirs.push_back(dir);
			if (deep ? i == n - 1 : c.choose(4) != 0) {
				put_file(dir + "/ASSETMAP", "x");
				maker.maps.insert(dir);
			}
			if (deep) at = dir;
		}
		ctx.count(deep ? "deep trees" : "wide trees");
	}
	// packages which are inside no other
	set<string> expected;
	for (auto const& i: maker.maps) {
		bool inside = false;
		for (auto const& j: maker.maps) if (i != j && within(i, j)) inside = true;
		if (!inside) expected.insert(i);
	}
	string asked = root;
	switch (c.choose(4)) {
	case 1: asked = "root"; set_sim_cwd("/sim"); break;
	case 2: asked = "/sim/./root"; break;
	default: break;
	}

	auto go = [&](Window& w) {
		vector<boost::filesystem::path> got;
		bool raised = false;
		string error;
		{
			WindowScope scope(w);
			try {
				got = dcp::find_potential_dcps(asked);
			} catch (std::exception& e) {
				raised = true;
				error = e.what();
			}
		}
		auto const fired = describe_fired(w);
		// what an error may have hidden
		vector<string> hidden;
		bool root_hit = false;
		for (auto const& i: w.fired) {
			auto const& op = w.ops[size_t(i.first)];
			auto p = op.path;
			auto const slash = p.rfind('/');
			auto const base = p.substr(slash + 1);
			if (base == "ASSETMAP" || base == "ASSETMAP.xml") p = p.substr(0, slash);
			if (p == root) root_hit = true;
			hidden.push_back(p);
		}
		ctx.note("search of %zu directories, %zu packages, with %s -> %s, %zu found", maker.dirs.size(), expected.size(), fired.c_str(), raised ? error.c_str() : "returned", got.size());
		if (root_hit) return raised;
		if (raised) {
			ctx.violate("search aborted", "the search raised (%s); %s", error.c_str(), fired.c_str());
			return raised;
		}
		set<string> found;
		for (auto const& i: got) {
			auto s = i.string();
			if (s == asked) s = root;
			else if (s.compare(0, asked.size() + 1, asked + "/") == 0) s = root + s.substr(asked.size());
			if (!found.insert(s).second) ctx.violate("found twice", "%s was found twice; %s", s.c_str(), fired.c_str());
			if (!expected.count(s)) {
				bool excused = false;
				for (auto const& h: hidden) if (within(s, h)) excused = true;
				if (!excused || !maker.maps.count(s)) ctx.violate("found something else", "%s was found but is not a package outside every other; %s", s.c_str(), fired.c_str());
			}
		}
		for (auto const& i: expected) {
			if (found.count(i)) continue;
			bool excused = false;
			for (auto const& h: hidden) if (within(i, h)) excused = true;
			if (!excused) ctx.violate("package not found", "%s was not found; %s", i.c_str(), fired.c_str());
		}
		if (!open_handles().empty()) ctx.violate("directory left open", "%zu handles left open; %s", open_handles().size(), fired.c_str());
		return raised;
	};

	auto const before = snapshot();
	Window dry;
	set_dir_order(0);
	go(dry);
	ctx.sig(uint64_t(maker.dirs.size()));
	ctx.sig(uint64_t(expected.size()));
	for (auto const& i: expected) ctx.sig(i);
	int const tries = c.range(1, 5);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		auto const order = c.choose(1000);
		set_dir_order(order);
		// number the operations for this order, then hit some of them
		Window again;
		go(again);
		if (ctx.violated) break;
		if (order) {
			ctx.count("search.shuffled");
			ctx.stats.nontrivial = true;
		}
		Window w;
		FaultMenu menu;
		menu.max_faults = 4;
		menu.filter = [](OpRec const& r) { return r.op != Op::CLOSE; };
		w.faults = draw_faults(ctx, again.ops, menu);
		bool const r = go(w);
		count_faults(ctx, w);
		ctx.sig(order);
		ctx.sig(uint64_t(r));
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.stats.sample = format_string("%zu directories, %zu packages, order %u: %s", maker.dirs.size(), expected.size(), order, describe_fired(w).c_str());
	}
}

SIM_PROPERTY(D08, nullptr, run, 32, "A run draws a directory tree (up to 41 directories and six levels, one in twenty with up to 300 more side by side or 40 below each other; asset maps of both names at any of them, misleading neighbours), searches it in name order and then 1-5 times in a drawn listing order, without and with 1-4 failing directory or status operations. Non-trivial: a fault took effect or the order was shuffled. Distinct: by tree shape, packages, orders, positions of faults and outcomes.")
