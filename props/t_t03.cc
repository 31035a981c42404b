// T03: preset colour conversions are built once and shared safely
#include "../sim/sched.h"
#include "chromaticity.h"
#include "colour_conversion.h"
#include "transfer_function.h"
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
using std::string;
using std::vector;

typedef dcp::ColourConversion const& (*Preset)();

static int const PRESETS = 9;

static Preset presets[PRESETS] = {
	dcp::ColourConversion::srgb_to_xyz, dcp::ColourConversion::rec601_to_xyz, dcp::ColourConversion::rec709_to_xyz,
	dcp::ColourConversion::p3_dci_to_xyz, dcp::ColourConversion::p3_d65_to_xyz, dcp::ColourConversion::p3_d60_to_xyz,
	dcp::ColourConversion::rec1886_to_xyz, dcp::ColourConversion::rec2020_to_xyz, dcp::ColourConversion::s_gamut3_to_xyz
};

static char const* names[PRESETS] = {"srgb", "rec601", "rec709", "p3 dci", "p3 d65", "p3 d60", "rec1886", "rec2020", "s-gamut3"};

// what each preset is in a program with one thread
static uint64_t expected[PRESETS];

// everything one can see of a conversion, reduced to a number without allocating more than it must
static uint64_t digest(dcp::ColourConversion const& c)
{
	uint64_t h = 1;
	auto number = [&h](double d) {
		uint64_t u;
		memcpy(&u, &d, 8);
		h = mix(h, u);
	};
	auto chroma = [&](dcp::Chromaticity const& x) { number(x.x); number(x.y); };
	h = mix(h, uint64_t(c.yuv_to_rgb()));
	chroma(c.red());
	chroma(c.green());
	chroma(c.blue());
	chroma(c.white());
	if (c.adjusted_white()) chroma(*c.adjusted_white());
	if (!c.in() || !c.out()) return 0;
	for (auto d: c.in()->double_lut(0, 1, 2, false)) number(d);
	for (auto d: c.out()->double_lut(0, 1, 2, true)) number(d);
	auto const m = c.rgb_to_xyz();
	for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) number(m(i, j));
	auto const b = c.bradford();
	for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) number(b(i, j));
	return h;
}

static void setup()
{
	// in a process of its own, so that nothing is built yet in this one
	int p[2];
	if (pipe(p)) _exit(2);
	pid_t const child = fork();
	if (child == 0) {
		for (int i = 0; i < PRESETS; ++i) expected[i] = digest(presets[i]());
		ssize_t const n = write(p[1], expected, sizeof(expected));
		_exit(n == ssize_t(sizeof(expected)) ? 0 : 1);
	}
	close(p[1]);
	size_t done = 0;
	while (done < sizeof(expected)) {
		auto const n = read(p[0], reinterpret_cast<char*>(expected) + done, sizeof(expected) - done);
		if (n <= 0) _exit(2);
		done += size_t(n);
	}
	close(p[0]);
	int status;
	waitpid(child, &status, 0);
}

namespace {

struct Use {
	int preset = 0;
	bool look = false;        // also look at it
	bool raised = false;
	bool finished = false;
	void const* where = nullptr;
	uint64_t seen = 0;
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	threads_reset();
	int const threads = c.range(2, 4);
	vector<vector<Use>> programs(static_cast<size_t>(threads));
	int const span = c.range(1, 3);
	int const first = int(c.choose(PRESETS));
	for (auto& p: programs) {
		p.resize(size_t(c.range(1, 4)));
		for (auto& u: p) {
			u.preset = (first + int(c.choose(uint32_t(span)))) % PRESETS;
			u.look = c.choose(2);
		}
	}
	auto use = [](Use& u) {
		try {
			auto const& x = presets[u.preset]();
			u.where = &x;
			if (u.look) u.seen = digest(x);
			u.finished = true;
		} catch (std::bad_alloc&) {
			u.raised = true;
		}
	};
	ThreadRun r;
	r.plan = draw_plan(ctx, threads, nullptr);
	for (auto& p: programs) {
		r.bodies.push_back([&]() { for (auto& u: p) use(u); });
	}
	Window w;
	if (c.choose(3) == 2) {
		w.alloc_fail_at = int(c.choose(c.choose(2) ? 8 : 60));
		w.alloc_fail_n = c.choose(4) == 3 ? 2 : 1;
	}
	{
		WindowScope scope(w);
		run_threads(ctx, r);
	}
	if (w.alloc_failures) ctx.count("fault.alloc.failed", uint64_t(w.alloc_failures));
	ctx.note("%s; %d allocations failed from %d", describe_plan(r.plan).c_str(), w.alloc_failures, w.alloc_fail_at);
	for (size_t t = 0; t < programs.size(); ++t) {
		for (auto const& u: programs[t]) {
			ctx.note("thread %zu: %s%s%s", t, names[u.preset], u.look ? " and look" : "", u.raised ? " raised" : "");
			ctx.sig(uint64_t(u.preset) * 4 + u.look * 2 + u.raised);
		}
	}
	judge_threads(ctx, r);
	if (ctx.violated) return;
	void const* where[PRESETS] = {};
	auto check = [&](Use const& u, char const* when) {
		if (u.raised) {
			if (!w.alloc_failures) ctx.violate("raised without cause", "%s %s", names[u.preset], when);
			return;
		}
		if (!where[u.preset] && u.where) where[u.preset] = u.where;
		if (u.where && where[u.preset] != u.where) ctx.violate("two objects for one preset", "%s %s", names[u.preset], when);
		if (u.finished && u.look && u.seen != expected[u.preset]) ctx.violate("wrong preset", "%s %s", names[u.preset], when);
	};
	for (auto const& p: programs) for (auto const& u: p) check(u, "in the threads");
	// later requests succeed with the correct object
	ThreadRun after;
	vector<Use> later;
	for (int i = 0; i < span; ++i) {
		Use u;
		u.preset = (first + i) % PRESETS;
		u.look = true;
		later.push_back(u);
	}
	after.bodies.push_back([&]() { for (auto& u: later) use(u); });
	w.alloc_failures = 0;
	run_threads(ctx, after);
	judge_threads(ctx, after);
	for (auto const& u: later) {
		check(u, "afterwards");
		if (!u.finished && !ctx.violated) ctx.violate("later request failed", "%s", names[u.preset]);
	}
	ctx.sig(r.shape);
	ctx.stats.nontrivial = r.switches > 0;
	ctx.stats.sample = format_string("%d threads, %s", threads, describe_plan(r.plan).c_str());
}

SIM_PROPERTY(T03, setup, run, 1, "A run is a fresh process in which 2-4 threads make first use of up to three of the nine presets, and in half of the uses look at all that can be seen of them, with up to eight preemptions at drawn steps or operations on initialisation guards, locks and reference counts; in a third of the runs allocations fail at a drawn point; afterwards the presets are asked for again. The reference is what another process with one thread got. Non-trivial: at least one preemption took place. Distinct: by the requests, which raised, and the order of lock and atomic operations.")
