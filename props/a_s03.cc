// S03: exact reads deliver the stored bytes or fail
#include "../sim/sim.h"
#include "array_data.h"
#include "file.h"

using namespace sim;
using std::string;

static std::vector<uint32_t> const BIG = {65536, 131072, 1000000, 1u << 20, 2u << 20, 5000000};

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	string const path = "/sim/d/in.bin";
	size_t size;
	switch (c.choose(4)) {
	case 0: size = c.choose(10); break;
	case 1: size = c.choose(2000); break;
	case 2: size = 4096 * c.range(1, 6) + c.choose(3) - 1; break;
	default: size = c.choose(30000); break;
	}
	if (c.chance(1, 100)) size = c.pick(BIG) + c.choose(3) - 1;
	string const content = c.bytes(size);
	put_file(path, content);
	bool const whole = c.choose(2) == 0;
	// a sequence of exact reads and seeks
	struct Step { bool seek; size_t n; int whence; };
	std::vector<Step> steps;
	if (!whole) {
		int const n = c.range(1, 8);
		for (int i = 0; i < n; ++i) {
			Step s;
			s.seek = c.chance(1, 4);
			s.whence = int(c.choose(3));
			switch (c.choose(3)) {
			case 0: s.n = c.choose(uint32_t(size / 2 + 2)); break;
			case 1: s.n = c.choose(16); break;
			default: s.n = 4096 * c.choose(3) + c.choose(3); break;
			}
			steps.push_back(s);
		}
	}
	// a disk which transfers little at a time
	static std::vector<size_t> const transfers = {0, 0, 0, 4096, 1000, 300};
	auto const transfer = size > 60000 ? 0 : c.pick(transfers);
	set_max_transfer(transfer);
	auto const before = snapshot();

	// returns 0 if everything was delivered, 1 if something raised
	auto go = [&](Window& w, bool shrinks) -> int {
		WindowScope scope(w);
		auto acceptable = [&](string const& got, size_t at) {
			if (got.empty()) return true;
			if (content.compare(at <= content.size() ? at : content.size(), got.size(), got) == 0 && at + got.size() <= content.size()) return true;
			return false;
		};
		if (whole) {
			try {
				dcp::ArrayData d{boost::filesystem::path(path)};
				string got(reinterpret_cast<char const*>(d.data()), size_t(d.size()));
				// every state which the file has had
				bool ok = got == content;
				string version = content;
				for (auto const& f: w.fired) {
					if (f.second.kind == FaultKind::SHRINK && !version.empty()) {
						version = version.substr(0, size_t(f.second.arg % version.size()));
						ok = ok || got == version;
					}
				}
				if (!ok) {
					ctx.violate("whole-file load is not the stored bytes", "loaded %s, stored %s; %s", show(got).c_str(), show(content).c_str(), describe_fired(w).c_str());
				}
			} catch (std::exception& e) {
				ctx.note("raised: %s", e.what());
				return 1;
			}
			return 0;
		}
		try {
			dcp::File f(path, "rb");
			if (!f) return 1;
			size_t pos = 0;
			for (auto const& s: steps) {
				if (s.seek) {
					// only to where the position is known whatever the size is
					size_t const to = s.whence == 0 ? s.n : s.whence == 1 ? pos + s.n : (s.n <= content.size() ? content.size() - s.n : 0);
					int r = s.whence == 0 ? f.seek(int64_t(to), SEEK_SET) : s.whence == 1 ? f.seek(int64_t(s.n), SEEK_CUR) : shrinks ? f.seek(int64_t(to), SEEK_SET) : f.seek(int64_t(to) - int64_t(content.size()), SEEK_END);
					if (r != 0) return 1;
					pos = to;
					continue;
				}
				string got(s.n, '\xa5');
				f.checked_read(&got[0], s.n);
				if (!acceptable(got, pos)) {
					ctx.violate("exact read is not the stored bytes", "read of %zu at %zu gave %s, stored there %s; %s", s.n, pos, show(got).c_str(), pos < content.size() ? show(content.substr(pos, s.n)).c_str() : "nothing", describe_fired(w).c_str());
					return 0;
				}
				pos += s.n;
				// a raised error would have left the position unknown; here it is known
				if (f.tell() != int64_t(pos)) {
					bool seek_fault = false;
					for (auto const& x: w.fired) seek_fault = seek_fault || w.ops[size_t(x.first)].op == Op::SEEK;
					if (!seek_fault) ctx.violate("position after exact read is wrong", "position %lld, expected %zu; %s", (long long)(f.tell()), pos, describe_fired(w).c_str());
				}
			}
		} catch (std::exception& e) {
			ctx.note("raised: %s", e.what());
			return 1;
		}
		return 0;
	};
	// must it succeed on a healthy disk?
	bool possible = true;
	{
		size_t pos = 0;
		for (auto const& s: steps) {
			if (s.seek) {
				pos = s.whence == 0 ? s.n : s.whence == 1 ? pos + s.n : (s.n <= size ? size - s.n : 0);
			} else {
				if (s.n && pos + s.n > size) possible = false;
				pos += s.n;
			}
		}
	}
	Window dry;
	int r = go(dry, false);
	if (r && possible) ctx.violate("raised on a healthy disk", "size %zu, %s", size, whole ? "whole file" : "exact reads");
	if (!r && !possible) ctx.violate("read past the end returned", "size %zu", size);
	if (ctx.violated) return;
	int const tries = c.range(1, 4);
	ctx.sig(uint64_t(whole) * 100 + size / 1024);
	ctx.sig(uint64_t(transfer));
	for (auto const& s: steps) ctx.sig(uint64_t(s.seek) + s.n / 512 * 2);
	for (int i = 0; i < tries && !ctx.violated; ++i) {
		restore(before);
		Window w;
		FaultMenu menu;
		menu.shrink = true;
		menu.storms = true;
		if (transfer) menu.max_faults = 8;
		w.faults = draw_faults(ctx, dry.ops, menu);
		bool shrinks = false;
		for (auto const& f: w.faults) shrinks = shrinks || f.kind == FaultKind::SHRINK;
		r = go(w, shrinks);
		count_faults(ctx, w);
		ctx.note("%s of %zu bytes: %s -> %s", whole ? "load" : "exact reads", size, describe_fired(w).c_str(), r ? "raised" : "delivered");
		if (!r && !possible && !ctx.violated) ctx.violate("read past the end returned", "size %zu; %s", size, describe_fired(w).c_str());
		ctx.sig(uint64_t(r));
		for (auto const& f: w.fired) ctx.sig(uint64_t(f.first));
		ctx.stats.sample = format_string("%s of a file of %zu bytes (%zu steps): %s-> %s", whole ? "load" : "exact reads", size, steps.size(), describe_fired(w).c_str(), r ? "raised" : "delivered");
	}
}

SIM_PROPERTY(S03, nullptr, run, 64, "A run draws a file (0 to 30000 bytes, now and then up to 5 million, on a disk which transfers all that is asked for or little at a time) and either loads it whole or makes 1-8 exact-length reads and seeks, once on a healthy disk and then 1-4 times with 1-3 (little at a time: 1-8) short, interrupted and failing reads, failing opens and stats, and truncation by another process between two operations. Non-trivial: a fault took effect. Distinct: by size class, cutting, kinds and positions of faults, outcomes.")
