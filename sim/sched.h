// Simulated threads: one runs at a time, every memory access of instrumented
// code is a step, and the plan says after which steps another thread goes on.
#pragma once
#include "sim.h"

namespace sim {

struct Preempt {
	int thread;
	bool sync;           // count operations on locks and atomics instead of all steps
	uint32_t step;
	uint32_t to;         // which of the other runnable threads
};

struct ThreadRun {
	// what to run
	std::vector<std::function<void ()>> bodies;
	std::vector<Preempt> plan;
	bool record = false;          // find out which steps touch what another thread touches too
	// what happened
	std::vector<uint32_t> steps, syncs;
	std::vector<std::vector<uint32_t>> shared;
	int switches = 0;             // not counting those when a thread ends
	int blocked = 0;              // times a thread had to wait for a lock
	std::string race, deadlock, misuse, exception;
	uint64_t shape = 0;           // order in which threads operated on locks and shared memory
	bool bad() const { return !race.empty() || !deadlock.empty() || !misuse.empty() || !exception.empty(); }
};

// forget everything about locks and memory
void threads_reset();
void run_threads(Ctx& ctx, ThreadRun& r);
std::vector<Preempt> draw_plan(Ctx& ctx, int threads, ThreadRun const* dry, int max = 8);
// report what went wrong, if anything did
void judge_threads(Ctx& ctx, ThreadRun const& r);
std::string describe_plan(std::vector<Preempt> const& plan);
// which simulated thread this is; -1 if none
int this_thread();
// allocations of the check itself, made in instrumented code, never fail
struct OwnWork { OwnWork(); ~OwnWork(); };
// nor is what it does part of the simulated threads' memory accesses
struct Unseen { Unseen(); ~Unseen(); };
// uninstrumented code changed or read this memory
void annotate(void const* p, size_t n, bool write);

}
