// S06: a scope guard runs its action exactly once on every exit path
#include "../sim/sim.h"
#include "scope_guard.h"
#include <memory>
#include <stdexcept>

using namespace sim;
using std::unique_ptr;
using std::vector;

namespace {

struct Boom {};

struct State {
	Ctx& ctx;
	vector<int> ran;         // how often each action has run
	vector<bool> cancelled;
	vector<bool> alive;      // responsibility still held by some guard
	int depth = 0;
	int steps = 0;
	int budget;
	explicit State(Ctx& c) : ctx(c), budget(c.c.range(1, 14)) {}

	void verify(char const* after)
	{
		for (size_t i = 0; i < ran.size(); ++i) {
			int const want = alive[i] || cancelled[i] ? 0 : 1;
			if (ran[i] != want) {
				ctx.violate(ran[i] > want ? (cancelled[i] ? "cancelled action ran" : want ? "action ran more than once" : "action ran early") : "action did not run",
					"after %s: action %zu has run %d times, expected %d", after, i, ran[i], want);
			}
		}
	}
};

}

// a payload which makes std::function allocate
struct Big { State* s; size_t id; long pad[6]; };

static size_t new_action(State& s)
{
	s.ran.push_back(0);
	s.cancelled.push_back(false);
	s.alive.push_back(true);
	return s.ran.size() - 1;
}

static dcp::ScopeGuard make_guard(State& s, size_t id, bool big)
{
	if (big) {
		Big b{&s, id, {}};
		return dcp::ScopeGuard([b]() { b.s->ran[b.id]++; });
	}
	return dcp::ScopeGuard([&s, id]() { s.ran[id]++; });
}

// one scope; guards are declared in it, moved about, cancelled, and it is left in some way
static void scope(State& s)
{
	auto& c = s.ctx.c;
	struct Item { unique_ptr<dcp::ScopeGuard> guard; int id; };   // id -1: moved from
	struct Leave {
		State& s; vector<Item>& items;
		// runs before the guards go: from now on they are expected to act
		~Leave() { for (auto const& i: items) if (i.id >= 0) s.alive[size_t(i.id)] = false; }
	};
	vector<Item> items;
	items.reserve(32);
	Leave leave{s, items};
	++s.depth;
	struct Down { State& s; ~Down() { --s.depth; } } down{s};
	while (s.budget-- > 0) {
		int const op = int(c.choose(8));
		s.ctx.sig(uint64_t(op) + uint64_t(s.depth) * 16);
		switch (op) {
		case 0:
		case 1:
		{
			auto id = new_action(s);
			bool const big = c.choose(2);
			s.ctx.note("%*smake guard %zu%s", s.depth * 2, "", id, big ? " (large)" : "");
			items.push_back({unique_ptr<dcp::ScopeGuard>(new dcp::ScopeGuard(make_guard(s, id, big))), int(id)});
			break;
		}
		case 2:
		{
			if (items.empty()) break;
			auto k = c.choose(uint32_t(items.size()));
			if (!items[k].guard) break;
			s.ctx.note("%*smove guard of action %d", s.depth * 2, "", items[k].id);
			unique_ptr<dcp::ScopeGuard> n(new dcp::ScopeGuard(std::move(*items[k].guard)));
			items.push_back({std::move(n), items[k].id});
			items[k].id = -1;
			s.ctx.stats.nontrivial = true;
			s.verify("move");
			break;
		}
		case 3:
		{
			if (items.empty()) break;
			auto k = c.choose(uint32_t(items.size()));
			if (!items[k].guard) break;
			s.ctx.note("%*scancel guard of action %d", s.depth * 2, "", items[k].id);
			items[k].guard->cancel();
			if (items[k].id >= 0) s.cancelled[size_t(items[k].id)] = true;
			s.ctx.stats.nontrivial = true;
			s.verify("cancel");
			break;
		}
		case 4:
		{
			if (items.empty()) break;
			auto k = c.choose(uint32_t(items.size()));
			if (!items[k].guard) break;
			s.ctx.note("%*sdrop guard of action %d", s.depth * 2, "", items[k].id);
			if (items[k].id >= 0) s.alive[size_t(items[k].id)] = false;
			items[k].id = -1;
			items[k].guard.reset();
			s.verify("dropping a guard");
			break;
		}
		case 5:
			if (s.depth < 4) {
				s.ctx.note("%*senter scope", s.depth * 2, "");
				bool const catches = c.choose(2);
				s.ctx.stats.nontrivial = true;
				if (catches) {
					try { scope(s); } catch (Boom&) { s.ctx.note("%*scaught", s.depth * 2, ""); }
				} else {
					scope(s);
				}
				s.verify("leaving a scope");
			}
			break;
		case 6:
			s.ctx.note("%*sthrow", s.depth * 2, "");
			s.ctx.count("fault.exception");
			throw Boom();
		case 7:
			s.ctx.note("%*sreturn", s.depth * 2, "");
			return;
		}
		if (s.ctx.violated) return;
	}
}

// a function which makes a guard, and in which any allocation may fail
static void with_failing_memory(State& s)
{
	auto& c = s.ctx.c;
	auto id = new_action(s);
	Window w;
	w.alloc_fail_at = int(c.choose(4));
	bool made = false;
	try {
		WindowScope window(w);
		Big b{&s, id, {}};
		dcp::ScopeGuard g([b]() { b.s->ran[b.id]++; });
		made = true;
		// something which may throw while the guard is held
		std::vector<int> v(10);
		v.resize(1000);
	} catch (std::bad_alloc&) {
		s.ctx.note("allocation %d failed, guard %s", w.alloc_fail_at, made ? "made" : "not made");
	}
	if (w.alloc_failures) {
		s.ctx.count("fault.alloc");
		s.ctx.stats.nontrivial = true;
	}
	s.alive[id] = false;
	if (!made) s.cancelled[id] = true;   // never had the responsibility
	s.verify("a scope in which memory ran out");
	s.ctx.sig(uint64_t(w.alloc_fail_at) + 1000);
}

static void run(Ctx& ctx)
{
	State s(ctx);
	if (ctx.c.chance(1, 8)) {
		with_failing_memory(s);
	}
	try {
		scope(s);
	} catch (Boom&) {
		ctx.note("caught outside");
	}
	s.verify("the end");
	ctx.count("actions", s.ran.size());
	ctx.stats.sample = ctx.notes.substr(0, 400);
}

SIM_PROPERTY(S06, nullptr, run, 256, "A run is a program of up to 14 steps (make a guard with a small or large action, move it, cancel it, drop it, enter a nested scope which catches or not, throw, return) over up to four nested scopes, with failing allocation in some; each action's run count is compared with a model after each step. Non-trivial: a guard was moved, cancelled or its scope left early. Distinct: by the sequence of steps and depths.")
