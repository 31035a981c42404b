// S01: a buffer write that returns has stored every byte
#include "../sim/sim.h"
#include "array_data.h"
#include "exceptions.h"
#include "file.h"

using namespace sim;
using std::string;

static std::vector<uint32_t> const BIG = {65536, 131072, 1000000, 1u << 20, 2u << 20, 5000000};

static size_t draw_size(Ctx& ctx)
{
	auto& c = ctx.c;
	if (c.chance(1, 100)) return c.pick(BIG) + c.choose(3) - 1;
	switch (c.choose(6)) {
	case 0: return c.choose(4);
	case 1: return c.choose(300);
	case 2: return 4096 + c.choose(5) - 2;
	case 3: return 8192 + c.choose(5) - 2;
	case 4: return 8192 * c.range(1, 4) + c.choose(3) - 1;
	default: return c.choose(40000);
	}
}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	static std::vector<string> const paths = {"/sim/d/x.bin", "/sim/d/sp ace.bin", "/sim/x", "/sim/d/e/../x.bin", "rel.bin", "./d/rel.bin"};
	put_dir("/sim/d/e");
	string const path = c.pick(paths);
	string real = path;
	if (path[0] != '/') {
		set_sim_cwd("/sim/d/e");
		put_dir("/sim/d/e/d");
		real = path == "rel.bin" ? "/sim/d/e/rel.bin" : "/sim/d/e/d/rel.bin";
	} else if (path.find("..") != string::npos) {
		real = "/sim/d/x.bin";
	}
	string const content = c.bytes(draw_size(ctx));
	int const state = int(c.choose(6));
	bool possible = true;
	switch (state) {
	case 0: break;
	case 1: put_file(real, "old"); break;
	case 2: put_file(real, string(content.size() + 100, 'o')); break;
	case 3: put_dir(real); possible = false; break;
	case 4: put_file("/sim/target", string(c.choose(20000), 't')); put_symlink(real, "/sim/target"); real = "/sim/target"; break;
	case 5: put_file("/sim/other", string(50, 'q')); break;
	}
	// saved as a whole, or by checked writes of pieces
	std::vector<size_t> pieces;
	bool const whole = c.choose(3) < 2;
	if (!whole) {
		size_t left = content.size();
		for (int n = c.range(1, 5); n > 1 && left; --n) {
			pieces.push_back(1 + c.choose(uint32_t(left)));
			left -= pieces.back();
		}
		pieces.push_back(left);
	}
	dcp::ArrayData data(reinterpret_cast<uint8_t const*>(content.data()), int(content.size()));
	// a disk which transfers little at a time
	static std::vector<size_t> const transfers = {0, 0, 0, 4096, 1000, 300};
	auto const transfer = content.size() > 60000 ? 0 : c.pick(transfers);
	set_max_transfer(transfer);
	auto const before = snapshot();
	auto go = [&](Window& w) -> int {
		WindowScope scope(w);
		try {
			if (whole) data.write(path);
			else {
				dcp::File f(path, "wb");
				if (!f) return 1;
				size_t at = 0;
				for (auto i: pieces) {
					f.checked_write(content.data() + at, i);
					at += i;
				}
				if (f.close()) return 1;
				if (f || f.close()) ctx.violate("still open after close", "%s", path.c_str());
			}
		} catch (dcp::FileError& e) {
			if (e.filename() != boost::filesystem::path(path)) {
				ctx.violate("file error names another path", "wrote to %s but the error names %s", path.c_str(), e.filename().string().c_str());
			}
			return 1;
		} catch (std::exception& e) {
			ctx.violate("failure is not a file error", "writing %s: %s", path.c_str(), e.what());
			return 1;
		}
		return 0;
	};
	auto judge = [&](Window const& w, int raised) {
		auto const what = describe_fired(w);
		ctx.note("write %zu bytes%s to %s (state %d) with %s -> %s", content.size(), whole ? "" : format_string(" in %zu pieces", pieces.size()).c_str(), path.c_str(), state, what.c_str(), raised ? "raised" : "returned");
		string got;
		bool const is_file = get_file(real, got);
		if (!raised && (!is_file || got != content)) {
			ctx.violate("returned without storing every byte", "write of %s to %s returned, but the file has %s; %s", show(content).c_str(), path.c_str(), is_file ? show(got).c_str() : "no file", what.c_str());
		}
		if (raised && possible && w.fired.empty()) {
			ctx.violate("raised on a healthy disk", "write of %zu bytes to %s raised although nothing failed", content.size(), path.c_str());
		}
	};
	Window dry;
	int r = go(dry);
	judge(dry, r);
	if (ctx.violated) return;
	ctx.sig(uint64_t(state));
	ctx.sig(uint64_t(content.size() / 1024));
	ctx.sig(hash_str(path));
	for (auto i: pieces) ctx.sig(uint64_t(i / 1024));
	int const tries = c.range(1, 4);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		set_disk_free(-1);
		Window w;
		FaultMenu menu;
		menu.storms = true;
		if (transfer) menu.max_faults = 6;
		w.faults = draw_faults(ctx, dry.ops, menu);
		r = go(w);
		count_faults(ctx, w);
		judge(w, r);
		ctx.sig(uint64_t(r));
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.stats.sample = format_string("write %zu bytes to %s (destination state %d): %s-> %s", content.size(), path.c_str(), state, describe_fired(w).c_str(), r ? "raised" : "returned");
	}
}

SIM_PROPERTY(S01, nullptr, run, 64, "A run draws a buffer (0 to 40000 bytes, now and then up to 5 million, biased to multiples of the stdio buffer), a path, a destination state, saves it - as a whole or by checked writes of 1-5 pieces and a close - once on a healthy disk to number its operations and then 1-4 times with 1-3 faults (1-6 on a disk which transfers little at a time) placed on those operations. Non-trivial: at least one fault took effect. Distinct: by size class, path, destination state, kinds and positions of the faults, and outcomes.")
