// T02: a failed table build does not spoil the transfer function
#include "tables.h"

using namespace sim;
using namespace tables;
using std::string;
using std::vector;

namespace {

struct Phase {
	vector<vector<Request>> threads;
	int fail_at = -1;
	int fail_n = 1;
	vector<Preempt> plan;
};

}

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	threads_reset();
	int const kind = int(c.choose(KINDS));
	vector<Request> all;
	vector<Phase> phases(size_t(c.range(2, 5)));
	for (auto& p: phases) {
		p.threads.resize(size_t(c.choose(3) == 2 ? c.range(2, 3) : 1));
		for (auto& t: p.threads) {
			int const n = c.range(1, 2);
			for (int i = 0; i < n; ++i) {
				t.push_back(draw_request(c, 1, all));
				all.push_back(t.back());
			}
		}
	}
	auto f = make_function(kind);
	struct Held { Request r; Got g; };
	vector<Held> held;
	bool failed = false;
	for (size_t n = 0; n < phases.size() && !ctx.violated; ++n) {
		auto& p = phases[n];
		vector<vector<Got>> got;
		for (auto const& t: p.threads) got.push_back(vector<Got>(t.size()));
		auto body = [&](size_t t, dcp::TransferFunction const& on) {
			return [&, t]() {
				for (size_t i = 0; i < p.threads[t].size(); ++i) got[t][i] = ask(on, p.threads[t][i]);
			};
		};
		if (c.choose(3) != 0) {
			// how many allocations this takes at most: on an object with nothing built yet
			auto other = make_function(kind);
			Window w;
			ThreadRun r;
			for (size_t t = 0; t < p.threads.size(); ++t) r.bodies.push_back(body(t, *other));
			{
				WindowScope scope(w);
				run_threads(ctx, r);
			}
			if (w.allocs) {
				p.fail_at = int(c.choose(uint32_t(w.allocs)));
				p.fail_n = c.choose(4) == 3 ? c.range(2, 4) : 1;
			}
		}
		if (p.threads.size() > 1) p.plan = draw_plan(ctx, int(p.threads.size()), nullptr, 4);
		Window w;
		w.alloc_fail_at = p.fail_at;
		w.alloc_fail_n = p.fail_n;
		ThreadRun r;
		for (size_t t = 0; t < p.threads.size(); ++t) r.bodies.push_back(body(t, *f));
		r.plan = p.plan;
		{
			WindowScope scope(w);
			run_threads(ctx, r);
		}
		if (w.alloc_failures) {
			ctx.count("fault.alloc.failed", uint64_t(w.alloc_failures));
			failed = true;
		}
		ctx.note("phase %zu: %zu threads, %d of %d allocations failed, from %d", n, p.threads.size(), w.alloc_failures, int(w.allocs), p.fail_at);
		judge_threads(ctx, r);
		if (!r.deadlock.empty()) new std::shared_ptr<dcp::TransferFunction>(f);
		if (ctx.violated) return;
		int raised = 0;
		for (size_t t = 0; t < p.threads.size(); ++t) {
			for (size_t i = 0; i < p.threads[t].size(); ++i) {
				auto const& q = p.threads[t][i];
				auto const& g = got[t][i];
				ctx.note("  thread %zu: %s%s", t, q.text().c_str(), g.raised ? " raised" : "");
				ctx.sig(q.text());
				ctx.sig(g.raised);
				ctx.count("requests");
				if (g.raised) {
					++raised;
					continue;
				}
				auto const want = ask(*make_function(kind), q);
				if (!(g == want)) {
					ctx.violate("wrong or incomplete table", "phase %zu: %s: %zu entries instead of %zu", n, q.text().c_str(), g.d.size() + g.i.size(), want.d.size() + want.i.size());
					return;
				}
				auto const mistake = wrong(kind, q, g);
				if (!mistake.empty()) {
					ctx.violate("wrong or incomplete table", "phase %zu: %s: %s", n, q.text().c_str(), mistake.c_str());
					return;
				}
				held.push_back({q, g});
			}
		}
		if (raised > w.alloc_failures) ctx.violate("raised without cause", "phase %zu: %d requests raised, %d allocations failed", n, raised, w.alloc_failures);
		ctx.sig(r.shape);
		for (auto const& h: held) {
			auto const now = look(h.g, h.r.integer);
			if (!(now == h.g) || now.data != h.g.data) {
				ctx.violate("a table which had been handed out changed", "after phase %zu: %s", n, h.r.text().c_str());
				return;
			}
		}
	}
	ctx.stats.nontrivial = failed;
	ctx.stats.sample = format_string("%zu phases, %zu requests", phases.size(), all.size());
}

SIM_PROPERTY(T02, nullptr, run, 64, "A run is a history of 2-5 phases on one transfer function, each of 1-3 threads with 1-2 requests (often the same as before) and up to four preemptions; in two thirds of them 1-4 successive allocations fail at a drawn point. Non-trivial: at least one allocation failed. Distinct: by the requests, which of them raised, and the order of lock operations.")
