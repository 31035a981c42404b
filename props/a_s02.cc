// S02: replacing a file through a temporary is all-or-nothing
#include "../sim/sim.h"
#include "array_data.h"

using namespace sim;
using std::string;

static string entry(Disk const& d, string const& path)
{
	auto t = tree_of(d, path);
	auto i = t.find(path);
	return i == t.end() ? "absent" : i->second;
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	put_dir("/sim/d/tmp");
	static std::vector<string> const temps = {"/sim/d/final.tmp", "/sim/d/tmp/t", "/sim/zz"};
	string const temp = c.pick(temps);
	string const fin = "/sim/d/final.bin";
	auto size = [&]() -> size_t {
		if (c.chance(1, 80)) return 65536 * (c.choose(2) ? 1 : 16) + c.choose(3) - 1;
		switch (c.choose(4)) {
		case 0: return c.choose(8);
		case 1: return c.choose(1000);
		case 2: return 8192 * c.range(1, 3) + c.choose(3) - 1;
		default: return c.choose(30000);
		}
	};
	string const content = c.bytes(size());
	int const state = int(c.choose(6));
	bool possible = true;
	switch (state) {
	case 0: put_file(fin, c.bytes(size())); break;
	case 1: break;
	case 2: put_dir(fin); put_file(fin + "/inside", "x"); possible = false; break;
	case 3: put_file("/sim/elsewhere", "old target"); put_symlink(fin, "/sim/elsewhere"); break;
	case 4: put_file(fin, content + "tail"); break;
	case 5: put_file(fin, ""); break;
	}
	int const stale = int(c.choose(4));
	switch (stale) {
	case 0: break;
	case 1: put_file(temp, string(content.size() + 77, 's')); break;
	case 2: put_file(temp, "s"); break;
	case 3: put_dir(temp); possible = false; break;
	}
	// a disk which transfers little at a time
	static std::vector<size_t> const transfers = {0, 0, 0, 4096, 1000, 300};
	auto const transfer = content.size() > 60000 ? 0 : c.pick(transfers);
	set_max_transfer(transfer);
	auto const before = snapshot();
	string const old = entry(before, fin);
	string const want = "f:" + content;
	dcp::ArrayData data(reinterpret_cast<uint8_t const*>(content.data()), int(content.size()));

	auto go = [&](Window& w) -> int {
		WindowScope scope(w);
		w.after_mutation = [&](OpRec const& rec, int at) {
			auto e = entry(snapshot(), fin);
			if (e != old && e != want) {
				ctx.violate("destination is neither old nor new", "after operation %d (%s %s) the destination has %s; old %s, new %s", at, op_name(rec.op), rec.path.c_str(), show(e).c_str(), show(old).c_str(), show(want).c_str());
			}
		};
		try {
			data.write_via_temp(temp, fin);
		} catch (std::exception& e) {
			ctx.note("raised: %s", e.what());
			return 1;
		}
		return 0;
	};
	auto judge = [&](Window const& w, int raised) {
		auto const what = describe_fired(w);
		ctx.note("replace (state %d, temporary %d) with %zu bytes, %s -> %s", state, stale, content.size(), what.c_str(), raised ? "raised" : "returned");
		auto e = entry(snapshot(), fin);
		if (raised && e != old) {
			ctx.violate("raised but destination changed", "destination is %s, was %s; %s", show(e).c_str(), show(old).c_str(), what.c_str());
		}
		if (!raised && e != want) {
			ctx.violate("returned but destination is not the new bytes", "destination is %s, expected %s; %s", show(e).c_str(), show(want).c_str(), what.c_str());
		}
		if (!raised && exists(temp)) {
			ctx.violate("returned but temporary remains", "%s still exists; %s", temp.c_str(), what.c_str());
		}
		if (raised && possible && w.fired.empty()) {
			ctx.violate("raised on a healthy disk", "nothing failed");
		}
		for (auto const& i: w.crashes) {
			auto e2 = entry(i.second, fin);
			if (e2 != old && e2 != want) {
				ctx.violate("crash leaves neither old nor new", "after a crash at operation %d the destination has %s; old %s, new %s; %s", i.first, show(e2).c_str(), show(old).c_str(), show(want).c_str(), what.c_str());
			}
		}
	};
	Window dry;
	int r = go(dry);
	judge(dry, r);
	if (ctx.violated) return;
	ctx.sig(uint64_t(state * 10 + stale));
	ctx.sig(uint64_t(content.size() / 4096));
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		if (c.chance(3, 4)) {
			w.faults = draw_faults(ctx, dry.ops, menu);
		}
		int const crashes = c.range(1, 3);
		for (int j = 0; j < crashes; ++j) {
			w.crash_at.push_back(int(c.choose(uint32_t(dry.ops.size() + 1))));
			w.crash_frac.push_back(c.choose(16));
			ctx.sig(uint64_t(w.crash_at.back()));
		}
		r = go(w);
		count_faults(ctx, w);
		judge(w, r);
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.sig(uint64_t(r));
		ctx.stats.sample = format_string("replace %s by %zu bytes via %s: %s, %zu crash images -> %s", show(old).c_str(), content.size(), temp.c_str(), describe_fired(w).c_str(), w.crashes.size(), r ? "raised" : "returned");
	}
}

SIM_PROPERTY(S02, nullptr, run, 64, "A run draws old state, stale temporary and new bytes, then, on a disk which transfers all at once or little at a time, replaces the file 1-4 times with faults on 0-3 operations and crash images at 1-3 operations (whole or part of a write landed); the destination is also examined after every single change of the disk. Non-trivial: a fault or a crash image took effect. Distinct: by states, size class, crash positions, kinds and positions of faults, outcomes.")
