// T01: concurrent transfer-function lookups match sequential ones
#include "tables.h"

using namespace sim;
using namespace tables;
using std::string;
using std::vector;

static void run(Ctx& ctx)
{
	auto& c = ctx.c;
	int const objects = c.range(1, 2);
	vector<int> kinds;
	for (int i = 0; i < objects; ++i) kinds.push_back(int(c.choose(KINDS)));
	int const threads = c.range(2, 4);
	vector<vector<Request>> programs(static_cast<size_t>(threads));
	vector<Request> all;
	for (auto& p: programs) {
		int const n = c.range(1, c.choose(4) == 3 ? 6 : 3);
		for (int i = 0; i < n; ++i) {
			p.push_back(draw_request(c, objects, all));
			all.push_back(p.back());
		}
	}
	// what each would be alone
	vector<vector<Got>> want(programs.size());
	for (size_t t = 0; t < programs.size(); ++t) {
		for (auto const& r: programs[t]) want[t].push_back(ask(*make_function(kinds[size_t(r.object)]), r));
	}
	auto const fill = c.choose(3);   // some tables may be there already
	// and many others asked for before and after
	int const others = c.chance(1, 8) ? c.range(1, c.chance(1, 16) ? 1200 : 150) : 0;
	auto other = [&](int i) {
		Request r;
		r.integer = i % 3 == 1;
		r.to = 1 + i * 0.125;
		r.depth = 1 + i % 3;
		r.inverse = i % 5 == 2;
		return r;
	};

	vector<vector<Got>> got(programs.size());
	string problem, problem_class;
	auto execute = [&](vector<Preempt> const& plan, bool record, ThreadRun& r) {
		vector<std::shared_ptr<dcp::TransferFunction>> f;
		for (auto k: kinds) f.push_back(make_function(k));
		vector<Got> held;
		for (int i = 0; i < others / 2; ++i) held.push_back(ask(*f[0], other(i)));
		for (uint32_t i = 0; i < fill && i < all.size(); ++i) ask(*f[size_t(all[i].object)], all[i]);
		for (size_t t = 0; t < programs.size(); ++t) {
			got[t].assign(programs[t].size(), Got());
			r.bodies.push_back([&, t]() {
				for (size_t i = 0; i < programs[t].size(); ++i) {
					auto const& q = programs[t][i];
					got[t][i] = ask(*f[size_t(q.object)], q);
				}
			});
		}
		r.plan = plan;
		r.record = record;
		run_threads(ctx, r);
		if (!r.deadlock.empty()) {
			// threads are stuck inside them
			for (auto& i: f) new std::shared_ptr<dcp::TransferFunction>(i);
			return;
		}
		// what was handed out stays where and what it was
		if (r.bad()) return;
		for (int i = others / 2; i < others; ++i) held.push_back(ask(*f[0], other(i)));
		for (int i = 0; i < others && problem.empty(); ++i) {
			auto const n = look(held[size_t(i)], other(i).integer);
			auto const again = ask(*f[0], other(i));
			if (!(n == held[size_t(i)]) || n.data != held[size_t(i)].data || again.where != held[size_t(i)].where) {
				problem_class = "a table which had been handed out changed";
				problem = format_string("table %d of %d others: ", i, others) + other(i).text();
			} else {
				auto const w = wrong(kinds[0], other(i), n);
				if (!w.empty()) {
					problem_class = "wrong table";
					problem = format_string("table %d of %d others: ", i, others) + other(i).text() + ": " + w;
				}
			}
		}
		for (size_t t = 0; t < programs.size(); ++t) {
			for (size_t i = 0; i < programs[t].size(); ++i) {
				auto const& q = programs[t][i];
				auto const& g = got[t][i];
				if (!problem.empty()) break;
				if (!(g == want[t][i])) {
					problem_class = "wrong table";
					problem = format_string("thread %zu, request %zu: ", t, i) + q.text();
					break;
				}
				auto const w = wrong(kinds[size_t(q.object)], q, g);
				if (!w.empty()) {
					problem_class = "wrong table";
					problem = format_string("thread %zu, request %zu: ", t, i) + q.text() + ": " + w;
					break;
				}
				auto const n = look(g, q.integer);
				if (!(n == g) || n.data != g.data) {
					problem_class = "a table which had been handed out changed";
					problem = format_string("thread %zu, request %zu: ", t, i) + q.text();
					break;
				}
				for (size_t u = 0; u < programs.size(); ++u) {
					for (size_t j = 0; j < programs[u].size(); ++j) {
						if (programs[u][j].same_table(q) && got[u][j].where != g.where) {
							problem_class = "the same table was handed out from two places";
							problem = q.text();
						}
					}
				}
			}
		}
	};
	ThreadRun dry;
	execute({}, true, dry);
	judge_threads(ctx, dry);
	if (!problem.empty()) ctx.violate(problem_class + " without preemption", "%s", problem.c_str());
	if (ctx.violated) return;
	auto const plan = draw_plan(ctx, threads, &dry);
	ThreadRun r;
	execute(plan, false, r);
	for (size_t t = 0; t < programs.size(); ++t) {
		for (auto const& q: programs[t]) ctx.note("thread %zu: %s", t, q.text().c_str());
	}
	ctx.note("%s", describe_plan(plan).c_str());
	judge_threads(ctx, r);
	if (!problem.empty()) ctx.violate(problem_class, "%s", problem.c_str());
	ctx.sig(r.shape);
	for (auto const& p: programs) { for (auto const& q: p) ctx.sig(q.text()); }
	ctx.count("requests", all.size());
	ctx.stats.nontrivial = r.switches > 0;
	ctx.stats.sample = format_string("%d threads, %zu requests, %s", threads, all.size(), describe_plan(plan).c_str());
}

SIM_PROPERTY(T01, nullptr, run, 64, "A run draws 1-2 transfer functions of seven kinds (four of the library, with several parameters, and one whose tables say what they were made for), 2-4 threads with 1-6 requests each (often the same or differing in one parameter, or in two which balance each other in the key), on objects of which, in one run of eight, up to 150 (now and then 1200) other tables are asked before and after; executes them once in sequence to find the steps which touch shared memory, then again with up to eight preemptions placed among those steps, at lock operations or anywhere. Non-trivial: at least one preemption took place. Distinct: by the requests and by the order in which the threads operated on locks and atomics.")
