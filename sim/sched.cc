// The scheduler and race detector behind sched.h, and what instrumented code calls.
#include "sched.h"
#include "kernel.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

using std::string;
using std::vector;

namespace sim {

extern void (*on_alloc)(void*, size_t);
extern void (*on_free)(void*);

namespace {

int const MAX_THREADS = 6;

// ---------------------------------------------------------------- state

struct VC {
	uint32_t c[MAX_THREADS];
	void clear() { memset(c, 0, sizeof(c)); }
	void join(VC const& o) { for (int i = 0; i < MAX_THREADS; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum class State { IDLE, RUNNABLE, BLOCKED, DONE };

struct Thread {
	pthread_t handle;
	sem_t go;
	State state = State::IDLE;
	std::function<void ()> body;
	VC vc, acquire_pending, release_fence;
	uint32_t steps = 0, syncs = 0;
	void const* waiting_for = nullptr;
	char const* waiting_how = "";
	bool timed = false, timed_out = false;
	uint32_t spins = 0;
	char* stack_lo = nullptr;
	char* stack_hi = nullptr;
	vector<Preempt> plan;     // own points, in order of step
	size_t next_step = 0, next_sync = 0;
	vector<Preempt> plan_sync;
	vector<std::pair<uint32_t, uint32_t>> touched;    // step, lifetime
};

struct Access { uint32_t clock; uint8_t mask; void* pc; };

// one per eight bytes of memory
struct Cell {
	uintptr_t addr;
	uint32_t generation;
	uint32_t life;
	bool freed;
	Access read[MAX_THREADS], write[MAX_THREADS], aread[MAX_THREADS], awrite[MAX_THREADS];
};

struct Life { uint8_t threads; bool written; };

enum class LockKind : uint8_t { MUTEX, RW, COND, ONCE, GUARD };

struct Lock {
	uintptr_t addr = 0;
	LockKind kind = LockKind::MUTEX;
	int owner = -1;
	int depth = 0;
	int readers[MAX_THREADS] = {};
	VC vc;
	int state = 0;            // ONCE, GUARD: 0 new, 1 running, 2 done
	uint32_t signals = 0;     // COND
};

uint32_t const CELLS = 1u << 17;
uint32_t const LOCKS = 1u << 12;
uint32_t const SYNCS = 1u << 12;

struct Sync { uintptr_t addr; uint32_t generation; VC vc; };

Thread g_threads[MAX_THREADS];
int g_count = 0;
int g_pool = 0;
bool g_active = false;
bool g_record = false;
bool g_abandoned = false;
__thread int t_id = -1;
__thread int t_busy = 0;
sem_t g_main;
ThreadRun* g_run;
Ctx* g_ctx;
uint32_t g_generation = 1;
Cell* g_cells;
uint32_t g_cells_used = 0;
Sync* g_syncs;
Lock g_locks[LOCKS];
int g_nlocks = 0;
vector<Life>* g_lives;
uint32_t g_life = 0;

struct Busy { Busy() { ++t_busy; ++k::quiet_depth; } ~Busy() { --k::quiet_depth; --t_busy; } };

bool simulated() { return t_id >= 0 && g_active && !t_busy; }

template <class F> F real(char const* name)
{
	auto p = dlsym(RTLD_NEXT, name);
	if (!p) _exit(3);
	return reinterpret_cast<F>(p);
}

void wait_sem(sem_t* s) { while (sem_wait(s) < 0 && errno == EINTR) {} }

string where(void* pc)
{
	if (!pc) return "operator delete";
	Dl_info info;
	if (!dladdr(pc, &info) || !info.dli_sname) return "somewhere";
	int st = 0;
	char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &st);
	string s = d ? d : info.dli_sname;
	free(d);
	if (s.size() > 160) s = s.substr(0, 160) + "...";
	return s;
}

// ---------------------------------------------------------------- switching

void hand_over(int to)
{
	if (to < 0) sem_post(&g_main);
	else sem_post(&g_threads[to].go);
}

int pick(bool others_only)
{
	int r[MAX_THREADS];
	int n = 0;
	for (int i = 0; i < g_count; ++i) {
		if (g_threads[i].state == State::RUNNABLE && !(others_only && i == t_id)) r[n++] = i;
	}
	if (n == 0) return -1;
	if (n == 1) return r[0];
	return r[g_ctx->c.choose(uint32_t(n))];
}

void trace_switch(int to)
{
	auto const& t = g_threads[t_id];
	trace(uint64_t(t_id) << 56 | uint64_t(unsigned(to + 1)) << 48 | t.steps);
	if (verbose) fprintf(stderr, "  thread %d after %u steps (%u on locks) -> %d\n", t_id, t.steps, t.syncs, to);
}

// give the processor to another thread and wait for it to come back
void switch_to(int to)
{
	if (to == t_id) return;
	trace_switch(to);
	int const quiet = k::quiet_depth;
	hand_over(to);
	wait_sem(&g_threads[t_id].go);
	k::quiet_depth = quiet;
}

[[noreturn]] void abandon()
{
	// nothing can run any more: the threads stay where they are
	g_abandoned = true;
	hand_over(-1);
	for (;;) pause();
}

// this thread cannot go on until somebody wakes it
void block(void const* on, char const* how, bool timed = false)
{
	auto& t = g_threads[t_id];
	t.state = State::BLOCKED;
	t.waiting_for = on;
	t.waiting_how = how;
	t.timed = timed;
	t.timed_out = false;
	++g_run->blocked;
	int to = pick(true);
	if (to < 0) {
		// somebody may be waiting for a limited time only
		for (int i = 0; i < g_count; ++i) {
			if (g_threads[i].state == State::BLOCKED && g_threads[i].timed) {
				g_threads[i].timed_out = true;
				g_threads[i].state = State::RUNNABLE;
				to = i;
				break;
			}
		}
	}
	if (to < 0) {
		string s;
		for (int i = 0; i < g_count; ++i) {
			if (g_threads[i].state == State::BLOCKED) {
				s += format_string("thread %d waits for %s; ", i, g_threads[i].waiting_how);
			}
		}
		g_run->deadlock = s;
		abandon();
	}
	switch_to(to);
	t.waiting_for = nullptr;
}

void wake(void const* what)
{
	for (int i = 0; i < g_count; ++i) {
		auto& t = g_threads[i];
		if (t.state == State::BLOCKED && t.waiting_for == what) t.state = State::RUNNABLE;
	}
}

void preempt(uint32_t to)
{
	int r[MAX_THREADS];
	int n = 0;
	for (int i = 0; i < g_count; ++i) {
		if (i != t_id && g_threads[i].state == State::RUNNABLE) r[n++] = i;
	}
	if (!n) return;
	++g_run->switches;
	switch_to(r[to % uint32_t(n)]);
}

void step()
{
	auto& t = g_threads[t_id];
	++t.steps;
	while (t.next_step < t.plan.size() && t.plan[t.next_step].step <= t.steps) {
		auto const to = t.plan[t.next_step++].to;
		preempt(to);
	}
}

void sync_step()
{
	auto& t = g_threads[t_id];
	++t.syncs;
	g_run->shape = mix(g_run->shape, uint64_t(t_id) + 1);
	while (t.next_sync < t.plan_sync.size() && t.plan_sync[t.next_sync].step <= t.syncs) {
		auto const to = t.plan_sync[t.next_sync++].to;
		preempt(to);
	}
}

// a thread which only ever looks at something must let others go on
void spinning()
{
	auto& t = g_threads[t_id];
	if (++t.spins % 3000 == 0) {
		int const to = pick(true);
		if (to >= 0) switch_to(to);
		else if (t.spins > 3000000) {
			g_run->deadlock = format_string("thread %d spins for ever; ", t_id);
			abandon();
		}
	}
}

// ---------------------------------------------------------------- memory

Cell* cell(uintptr_t a, bool make)
{
	uint32_t i = uint32_t((a >> 3) * 0x9E3779B97F4A7C15ull >> 40) & (CELLS - 1);
	for (uint32_t n = 0; n < 64; ++n, i = (i + 1) & (CELLS - 1)) {
		auto& c = g_cells[i];
		if (c.generation != g_generation) {
			if (!make) return nullptr;
			memset(static_cast<void*>(&c), 0, sizeof(c));
			c.addr = a;
			c.generation = g_generation;
			c.life = g_life++;
			if (g_lives) g_lives->push_back({0, false});
			++g_cells_used;
			return &c;
		}
		if (c.addr == a) return &c;
	}
	return nullptr;
}

void race(char const* what, Cell const*, int other, void* other_pc, void* pc)
{
	if (!g_run->race.empty()) return;
	g_run->race = format_string("%s: thread %d in %s and thread %d in ", what, other, where(other_pc).c_str(), t_id) + where(pc);
}

bool overlaps(Access const& a, uint8_t mask, int thread, VC const& vc)
{
	return a.clock && (a.mask & mask) && a.clock > vc.c[thread];
}

void put(Access& a, uint32_t clock, uint8_t mask, void* pc)
{
	if (a.clock == clock) a.mask |= mask;
	else { a.clock = clock; a.mask = mask; }
	a.pc = pc;
}

void touch(uintptr_t addr, uint8_t mask, bool write, bool atomic, void* pc)
{
	auto& t = g_threads[t_id];
	auto c = cell(addr, true);
	if (!c) return;
	if (c->freed && g_run->misuse.empty()) {
		g_run->misuse = format_string("thread %d uses freed memory in ", t_id) + where(pc);
	}
	for (int i = 0; i < g_count; ++i) {
		if (i == t_id) continue;
		if (overlaps(c->write[i], mask, i, t.vc)) race(write ? "two writes" : "write and read", c, i, c->write[i].pc, pc);
		if (!atomic && overlaps(c->awrite[i], mask, i, t.vc)) race("atomic write and other access", c, i, c->awrite[i].pc, pc);
		if (write) {
			if (overlaps(c->read[i], mask, i, t.vc)) race("read and write", c, i, c->read[i].pc, pc);
			if (!atomic && overlaps(c->aread[i], mask, i, t.vc)) race("atomic read and write", c, i, c->aread[i].pc, pc);
		}
	}
	auto& a = (atomic ? (write ? c->awrite : c->aread) : (write ? c->write : c->read))[t_id];
	put(a, t.vc.c[t_id], mask, pc);
	if (g_record) {
		auto& l = (*g_lives)[c->life];
		l.threads = uint8_t(l.threads | 1 << t_id);
		l.written = l.written || write;
		t.touched.push_back({t.steps, c->life});
	}
}

bool own_stack(uintptr_t a)
{
	auto const& t = g_threads[t_id];
	return a >= uintptr_t(t.stack_lo) && a < uintptr_t(t.stack_hi);
}

void access(uintptr_t a, size_t n, bool write, bool atomic, void* pc)
{
	if (own_stack(a) || !n) return;
	uintptr_t const end = a + n;
	for (uintptr_t g = a & ~uintptr_t(7); g < end; g += 8) {
		uint8_t mask = 0;
		for (int i = 0; i < 8; ++i) if (g + unsigned(i) >= a && g + unsigned(i) < end) mask = uint8_t(mask | 1 << i);
		touch(g, mask, write, atomic, pc);
	}
}

// an access by instrumented code: first others may run, then it happens
inline void plain(void* p, size_t n, bool write, void* pc)
{
	if (!simulated()) return;
	Busy busy;
	step();
	access(uintptr_t(p), n, write, false, pc);
}

Sync* sync_of(uintptr_t a)
{
	a &= ~uintptr_t(7);
	uint32_t i = uint32_t((a >> 3) * 0x9E3779B97F4A7C15ull >> 40) & (SYNCS - 1);
	for (uint32_t n = 0; n < SYNCS; ++n, i = (i + 1) & (SYNCS - 1)) {
		auto& s = g_syncs[i];
		if (s.generation != g_generation) {
			s.addr = a;
			s.generation = g_generation;
			s.vc.clear();
			return &s;
		}
		if (s.addr == a) return &s;
	}
	_exit(3);
}

bool acquires(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void atomic_step()
{
	step();
	sync_step();
}

void atomic_effect(void* p, size_t n, bool reads, bool writes, int mo, void* pc)
{
	auto& t = g_threads[t_id];
	if (reads && !writes) spinning();
	access(uintptr_t(p), n, writes, true, pc);
	auto s = sync_of(uintptr_t(p));
	if (reads) {
		if (acquires(mo)) t.vc.join(s->vc);
		else t.acquire_pending.join(s->vc);
	}
	if (writes) {
		VC add = releases(mo) ? t.vc : t.release_fence;
		if (reads) s->vc.join(add);
		else s->vc = add;
		if (releases(mo)) ++t.vc.c[t_id];
	}
}

// ---------------------------------------------------------------- locks

Lock* lock_of(void const* p, LockKind kind)
{
	for (int i = 0; i < g_nlocks; ++i) {
		if (g_locks[i].addr == uintptr_t(p)) return &g_locks[i];
	}
	if (g_nlocks == int(LOCKS)) _exit(3);
	auto& l = g_locks[g_nlocks++];
	l = Lock();
	l.addr = uintptr_t(p);
	l.kind = kind;
	l.vc.clear();
	return &l;
}

void forget_locks(uintptr_t a, size_t n)
{
	for (int i = 0; i < g_nlocks;) {
		if (g_locks[i].addr >= a && g_locks[i].addr < a + n) g_locks[i] = g_locks[--g_nlocks];
		else ++i;
	}
}

void acquire(Lock* l) { g_threads[t_id].vc.join(l->vc); }
void release(Lock* l)
{
	l->vc.join(g_threads[t_id].vc);
	++g_threads[t_id].vc.c[t_id];
}

int mutex_lock(pthread_mutex_t* m, bool try_only, bool timed)
{
	Busy busy;
	step();
	sync_step();
	bool const recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
	bool const checking = (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP;
	for (;;) {
		auto l = lock_of(m, LockKind::MUTEX);
		if (l->owner < 0 || (l->owner == t_id && recursive)) {
			l->owner = t_id;
			++l->depth;
			acquire(l);
			return 0;
		}
		if (l->owner == t_id && checking) return EDEADLK;
		if (try_only) return EBUSY;
		block(m, l->owner == t_id ? "a mutex which it holds itself" : "a mutex", timed);
		if (timed && g_threads[t_id].timed_out) return ETIMEDOUT;
	}
}

// going_to_wait: nobody may come between this and the waiting
int mutex_unlock(pthread_mutex_t* m, bool going_to_wait = false)
{
	Busy busy;
	auto l = lock_of(m, LockKind::MUTEX);
	if (l->owner != t_id) {
		if (g_run->misuse.empty()) g_run->misuse = format_string("thread %d unlocks a mutex which it does not hold", t_id);
		return EPERM;
	}
	if (--l->depth == 0) {
		release(l);
		l->owner = -1;
		wake(m);
	}
	if (going_to_wait) return 0;
	step();
	sync_step();
	return 0;
}

int rw_lock(void* p, bool write, bool try_only)
{
	Busy busy;
	step();
	sync_step();
	for (;;) {
		auto l = lock_of(p, LockKind::RW);
		bool other_readers = false;
		for (int i = 0; i < g_count; ++i) other_readers = other_readers || (l->readers[i] > 0);
		if (l->owner < 0 && !(write && other_readers)) {
			if (write) l->owner = t_id;
			else ++l->readers[t_id];
			acquire(l);
			return 0;
		}
		if (try_only) return EBUSY;
		block(p, "a reader-writer lock");
	}
}

int rw_unlock(void* p)
{
	Busy busy;
	auto l = lock_of(p, LockKind::RW);
	if (l->owner == t_id) l->owner = -1;
	else if (l->readers[t_id] > 0) --l->readers[t_id];
	else if (g_run->misuse.empty()) g_run->misuse = format_string("thread %d unlocks a lock which it does not hold", t_id);
	release(l);
	wake(p);
	step();
	sync_step();
	return 0;
}

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	mutex_unlock(m, true);
	{
		Busy busy;
		block(c, "a condition", timed);
	}
	bool const out = timed && g_threads[t_id].timed_out;
	mutex_lock(m, false, false);
	return out ? ETIMEDOUT : 0;
}

int cond_wake(pthread_cond_t* c, bool all)
{
	Busy busy;
	step();
	sync_step();
	int r[MAX_THREADS];
	int n = 0;
	for (int i = 0; i < g_count; ++i) {
		if (g_threads[i].state == State::BLOCKED && g_threads[i].waiting_for == c) r[n++] = i;
	}
	if (!n) return 0;
	if (all) for (int i = 0; i < n; ++i) g_threads[r[i]].state = State::RUNNABLE;
	else g_threads[r[n == 1 ? 0 : int(g_ctx->c.choose(uint32_t(n)))]].state = State::RUNNABLE;
	return 0;
}

// ---------------------------------------------------------------- memory management

void allocated(void* p, size_t)
{
	if (!simulated()) return;
	Busy busy;
	size_t const n = malloc_usable_size(p);
	uintptr_t const a = uintptr_t(p);
	for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
		auto c = cell(g, false);
		if (c) {
			memset(static_cast<void*>(c), 0, sizeof(*c));
			c->addr = g;
			c->generation = g_generation;
			c->life = g_life++;
			if (g_lives) g_lives->push_back({0, false});
		}
	}
	if (g_nlocks) forget_locks(a, n);
}

void freed(void* p)
{
	if (!simulated()) return;
	Busy busy;
	size_t const n = malloc_usable_size(p);
	uintptr_t const a = uintptr_t(p);
	for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
		auto c = cell(g, n <= 4096);
		if (!c) continue;
		if (c->freed) {
			if (g_run->misuse.empty()) g_run->misuse = format_string("thread %d frees memory twice", t_id);
			break;
		}
		touch(g, 0xff, true, false, nullptr);
		c->freed = true;
	}
}

// ---------------------------------------------------------------- threads

// returns the thread to go on with
int run_body(int id)
{
	string problem;
	try {
		g_threads[id].body();
	} catch (std::exception& e) {
		Busy busy;
		problem = format_string("thread %d: ", id) + e.what();
	} catch (...) {
		Busy busy;
		problem = format_string("thread %d: unknown exception", id);
	}
	Busy busy;
	if (!problem.empty() && g_run->exception.empty()) g_run->exception = problem;
	for (int i = 0; i < g_nlocks; ++i) {
		if (g_locks[i].kind == LockKind::MUTEX && g_locks[i].owner == id && g_run->misuse.empty()) {
			g_run->misuse = format_string("thread %d ends with a mutex locked", id);
		}
	}
	g_threads[id].state = State::DONE;
	int to = pick(true);
	if (to < 0) {
		bool stuck = false;
		for (int i = 0; i < g_count; ++i) {
			auto& t = g_threads[i];
			if (t.state != State::BLOCKED) continue;
			if (t.timed) {
				t.timed_out = true;
				t.state = State::RUNNABLE;
				to = i;
				stuck = false;
				break;
			}
			stuck = true;
			g_run->deadlock += format_string("thread %d waits for %s; ", i, t.waiting_how);
		}
		if (stuck) abandon();
	}
	trace_switch(to);
	return to;
}

void* thread_main(void* arg)
{
	int const id = int(intptr_t(arg));
	t_id = id;
	{
		pthread_attr_t attr;
		void* base = nullptr;
		size_t size = 0;
		pthread_getattr_np(pthread_self(), &attr);
		pthread_attr_getstack(&attr, &base, &size);
		pthread_attr_destroy(&attr);
		g_threads[id].stack_lo = static_cast<char*>(base);
		g_threads[id].stack_hi = static_cast<char*>(base) + size;
	}
	sem_post(&g_main);
	for (;;) {
		wait_sem(&g_threads[id].go);
		k::quiet_depth = 0;
		int const to = run_body(id);
		// from here on another thread runs: nothing may happen after this
		hand_over(to);
	}
	return nullptr;
}

void ensure_pool(int n)
{
	if (g_abandoned) {
		g_pool = 0;
		g_abandoned = false;
	}
	if (!g_cells) {
		g_cells = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * CELLS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		g_syncs = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * SYNCS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		sem_init(&g_main, 0, 0);
		on_alloc = allocated;
		on_free = freed;
	}
	while (g_pool < n) {
		pthread_attr_t attr;
		pthread_attr_init(&attr);
		pthread_attr_setstacksize(&attr, 512 * 1024);
		sem_init(&g_threads[g_pool].go, 0, 0);
		static auto create = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
		if (create(&g_threads[g_pool].handle, &attr, thread_main, reinterpret_cast<void*>(intptr_t(g_pool)))) _exit(3);
		pthread_attr_destroy(&attr);
		wait_sem(&g_main);
		++g_pool;
	}
}

}

// ---------------------------------------------------------------- interface

int this_thread() { return t_id; }
OwnWork::OwnWork() { ++k::quiet_depth; }
OwnWork::~OwnWork() { --k::quiet_depth; }
Unseen::Unseen() { ++t_busy; ++k::quiet_depth; }
Unseen::~Unseen() { --k::quiet_depth; --t_busy; }

void annotate(void const* p, size_t n, bool write)
{
	if (!simulated()) return;
	Busy busy;
	step();
	access(uintptr_t(p), n, write, false, __builtin_return_address(0));
}

void threads_reset()
{
	g_nlocks = 0;
	++g_generation;
	g_cells_used = 0;
}

void run_threads(Ctx& ctx, ThreadRun& r)
{
	Busy busy;
	int const n = int(r.bodies.size());
	if (n > MAX_THREADS - 1) _exit(3);
	mallopt(M_ARENA_MAX, 1);
	ensure_pool(n);
	++g_generation;
	g_cells_used = 0;
	g_life = 0;
	for (int i = 0; i < g_nlocks; ++i) g_locks[i].vc.clear();
	vector<Life> lives;
	g_lives = r.record ? &lives : nullptr;
	g_record = r.record;
	g_run = &r;
	g_ctx = &ctx;
	g_count = n;
	for (int i = 0; i < n; ++i) {
		auto& t = g_threads[i];
		t.state = State::RUNNABLE;
		t.body = r.bodies[size_t(i)];
		t.vc.clear();
		t.vc.c[i] = 1;
		t.acquire_pending.clear();
		t.release_fence.clear();
		t.steps = t.syncs = t.spins = 0;
		t.waiting_for = nullptr;
		t.plan.clear();
		t.plan_sync.clear();
		t.next_step = t.next_sync = 0;
		t.touched.clear();
		for (auto const& p: r.plan) {
			if (p.thread == i) (p.sync ? t.plan_sync : t.plan).push_back(p);
		}
		auto by_step = [](Preempt const& a, Preempt const& b) { return a.step < b.step; };
		std::stable_sort(t.plan.begin(), t.plan.end(), by_step);
		std::stable_sort(t.plan_sync.begin(), t.plan_sync.end(), by_step);
	}
	g_active = true;
	int const quiet = k::quiet_depth;
	hand_over(pick(false));
	wait_sem(&g_main);
	k::quiet_depth = quiet;
	g_active = false;
	r.steps.clear();
	r.syncs.clear();
	r.shared.clear();
	for (int i = 0; i < n; ++i) {
		auto& t = g_threads[i];
		r.steps.push_back(t.steps);
		r.syncs.push_back(t.syncs);
		vector<uint32_t> s;
		if (r.record) {
			for (auto const& j: t.touched) {
				auto const& l = lives[j.second];
				if (l.written && (l.threads & (l.threads - 1)) && (s.empty() || s.back() != j.first)) s.push_back(j.first);
			}
		}
		r.shared.push_back(s);
		trace(t.steps);
		if (!g_abandoned) t.body = nullptr;
	}
	g_lives = nullptr;
	g_record = false;
	ctx.count("threads.switches", uint64_t(r.switches));
	ctx.count("threads.waits", uint64_t(r.blocked));
	uint64_t steps = 0;
	for (auto i: r.steps) steps += i;
	ctx.count("threads.steps", steps);
}

vector<Preempt> draw_plan(Ctx& ctx, int threads, ThreadRun const* dry, int max)
{
	auto& c = ctx.c;
	vector<Preempt> plan;
	int const n = int(c.choose(uint32_t(max + 1)));
	for (int i = 0; i < n; ++i) {
		Preempt p;
		p.thread = int(c.choose(uint32_t(threads)));
		p.to = c.choose(uint32_t(threads - 1 > 0 ? threads - 1 : 1));
		auto const kind = c.choose(4);
		p.sync = kind == 1;
		if (kind == 1) {
			uint32_t const limit = dry ? dry->syncs[size_t(p.thread)] + 2 : 40;
			p.step = 1 + c.choose(limit);
		} else if (dry && kind != 0 && !dry->shared[size_t(p.thread)].empty()) {
			auto const& s = dry->shared[size_t(p.thread)];
			p.step = s[c.choose(uint32_t(s.size()))] + c.choose(2);
		} else {
			uint32_t const limit = dry ? dry->steps[size_t(p.thread)] + 2 : 1u << c.choose(14);
			p.step = 1 + c.choose(limit);
		}
		plan.push_back(p);
	}
	return plan;
}

string describe_plan(vector<Preempt> const& plan)
{
	string s;
	for (auto const& p: plan) s += format_string("thread %d after %u %s; ", p.thread, p.step, p.sync ? "lock operations" : "steps");
	return s.empty() ? "no preemption" : s;
}

void judge_threads(Ctx& ctx, ThreadRun const& r)
{
	if (!r.race.empty()) ctx.violate("data race", "%s", r.race.c_str());
	if (!r.deadlock.empty()) ctx.violate("deadlock", "%s", r.deadlock.c_str());
	if (!r.misuse.empty()) ctx.violate("misuse of memory or locks", "%s", r.misuse.c_str());
	if (!r.exception.empty()) ctx.violate("unexpected exception in a thread", "%s", r.exception.c_str());
}

}

// ---------------------------------------------------------------- called by instrumented code

using namespace sim;

#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

#define RW(N) \
	void __tsan_read##N(void* p) { plain(p, N, false, PC); } \
	void __tsan_write##N(void* p) { plain(p, N, true, PC); } \
	void __tsan_unaligned_read##N(void* p) { plain(p, N, false, PC); } \
	void __tsan_unaligned_write##N(void* p) { plain(p, N, true, PC); } \
	void __tsan_volatile_read##N(void* p) { plain(p, N, false, PC); } \
	void __tsan_volatile_write##N(void* p) { plain(p, N, true, PC); } \
	void __tsan_unaligned_volatile_read##N(void* p) { plain(p, N, false, PC); } \
	void __tsan_unaligned_volatile_write##N(void* p) { plain(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_read_range(void* p, size_t n) { plain(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { plain(p, n, true, PC); }
void __tsan_vptr_read(void** p) { plain(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain(p, 8, true, PC); }

#define ATOMIC(BITS, T) \
	T __tsan_atomic##BITS##_load(T const volatile* p, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, false, mo, PC); } \
		return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##BITS##_store(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), false, true, mo, PC); } \
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_exchange(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_add(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_sub(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_and(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_or(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_xor(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##BITS##_fetch_nand(T volatile* p, T v, int mo) { \
		if (simulated()) { Busy b; atomic_step(); atomic_effect(const_cast<T*>(p), sizeof(T), true, true, mo, PC); } \
		return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##BITS##_compare_exchange_strong(T volatile* p, T* e, T v, int mo, int fmo) { \
		if (simulated()) { Busy b; atomic_step(); bool const will = *p == *e; \
			atomic_effect(const_cast<T*>(p), sizeof(T), true, will, will ? mo : fmo, PC); } \
		return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	bool __tsan_atomic##BITS##_compare_exchange_weak(T volatile* p, T* e, T v, int mo, int fmo) { \
		return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo); } \
	T __tsan_atomic##BITS##_compare_exchange_val(T volatile* p, T e, T v, int mo, int fmo) { \
		__tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
	if (!simulated()) return;
	Busy b;
	step();
	sync_step();
	auto& t = g_threads[t_id];
	if (acquires(mo)) t.vc.join(t.acquire_pending);
	if (releases(mo)) { t.release_fence = t.vc; ++t.vc.c[t_id]; }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory functions, by ld --wrap

void* __real_memcpy(void*, void const*, size_t);
void* __real_memmove(void*, void const*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(void const*, void const*, size_t);
void* __wrap_memcpy(void* d, void const* s, size_t n)
{
	if (simulated()) { plain(const_cast<void*>(s), n, false, PC); plain(d, n, true, PC); }
	return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, void const* s, size_t n)
{
	if (simulated()) { plain(const_cast<void*>(s), n, false, PC); plain(d, n, true, PC); }
	return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
	if (simulated()) plain(d, n, true, PC);
	return __real_memset(d, v, n);
}
int __wrap_memcmp(void const* a, void const* b, size_t n)
{
	if (simulated()) { plain(const_cast<void*>(a), n, false, PC); plain(const_cast<void*>(b), n, false, PC); }
	return __real_memcmp(a, b, n);
}

// the parts of the containers which live in libstdc++
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void* x, void* p, void* h)
{
	if (simulated()) { plain(x, 32, true, PC); plain(p, 32, true, PC); plain(h, 32, true, PC); }
	__real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(left, x, p, h);
}
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h)
{
	if (simulated()) { plain(z, 32, true, PC); plain(h, 32, true, PC); }
	return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void __real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void*, void*);
void __wrap__ZNSt8__detail15_List_node_base7_M_hookEPS0_(void* self, void* at)
{
	if (simulated()) { plain(self, 16, true, PC); plain(at, 16, true, PC); }
	__real__ZNSt8__detail15_List_node_base7_M_hookEPS0_(self, at);
}

void* __real_malloc(size_t);
void* __wrap_malloc(size_t n)
{
	void* p = __real_malloc(n);
	if (p) allocated(p, n);
	return p;
}

// the result of localtime and gmtime is shared by all threads
static struct tm g_tm;
struct tm* __wrap_localtime(time_t const* t)
{
	if (simulated()) annotate(&g_tm, sizeof(g_tm), true);
	return localtime_r(t, &g_tm);
}
struct tm* __wrap_gmtime(time_t const* t)
{
	if (simulated()) annotate(&g_tm, sizeof(g_tm), true);
	return gmtime_r(t, &g_tm);
}

// ---------------------------------------------------------------- interposed functions

void* __cxa_allocate_exception(size_t n) noexcept
{
	static auto r = real<void* (*)(size_t)>("__cxa_allocate_exception");
	void* p = r(n);
	// the header lies before it
	if (t_id >= 0 && g_active) {
		uintptr_t const a = (uintptr_t(p) - 256) & ~uintptr_t(7);
		for (uintptr_t g = a; g < uintptr_t(p) + n; g += 8) {
			auto c = cell(g, false);
			if (c && c->freed) { auto const life = c->life; memset(static_cast<void*>(c), 0, sizeof(*c)); c->addr = g; c->generation = g_generation; c->life = life; }
		}
	}
	return p;
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
	static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
	return simulated() ? mutex_lock(m, false, false) : r(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
	return simulated() ? mutex_lock(m, true, false) : r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, struct timespec const* t)
{
	static auto r = real<int (*)(pthread_mutex_t*, struct timespec const*)>("pthread_mutex_timedlock");
	return simulated() ? mutex_lock(m, false, true) : r(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
	return simulated() ? mutex_unlock(m) : r(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
	static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
	forget_locks(uintptr_t(m), 1);
	return r(m);
}

int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
	static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
	return simulated() ? rw_lock(l, false, false) : r(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
	static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
	return simulated() ? rw_lock(l, true, false) : r(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
	static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
	return simulated() ? rw_lock(l, false, true) : r(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
	static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
	return simulated() ? rw_lock(l, true, true) : r(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
	return simulated() ? rw_unlock(l) : r(l);
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
	return simulated() ? cond_wait(c, m, false) : r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t)
{
	static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, struct timespec const*)>("pthread_cond_timedwait");
	return simulated() ? cond_wait(c, m, true) : r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, struct timespec const* t)
{
	static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, struct timespec const*)>("pthread_cond_clockwait");
	return simulated() ? cond_wait(c, m, true) : r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c)
{
	static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
	return simulated() ? cond_wake(c, false) : r(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
	return simulated() ? cond_wake(c, true) : r(c);
}

int pthread_once(pthread_once_t* o, void (*f)())
{
	static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
	if (!simulated()) return r(o, f);
	{
		Busy b;
		step();
		sync_step();
		auto l = lock_of(o, LockKind::ONCE);
		if (*o == 2) { acquire(l); return 0; }
		while (l->state == 1) {
			block(o, "a once-only call");
			l = lock_of(o, LockKind::ONCE);
		}
		if (*o == 2) { acquire(l); return 0; }
		l->state = 1;
	}
	try {
		f();
	} catch (...) {
		Busy b;
		lock_of(o, LockKind::ONCE)->state = 0;
		wake(o);
		throw;
	}
	Busy b;
	auto l = lock_of(o, LockKind::ONCE);
	l->state = 0;
	*o = 2;
	release(l);
	wake(o);
	sync_step();
	return 0;
}

int sched_yield() noexcept
{
	if (simulated()) {
		Busy b;
		int const to = pick(true);
		if (to >= 0) switch_to(to);
		return 0;
	}
	return int(::syscall(24));
}
int usleep(useconds_t n)
{
	static auto r = real<int (*)(useconds_t)>("usleep");
	return simulated() ? sched_yield() : r(n);
}
int nanosleep(struct timespec const* a, struct timespec* b)
{
	static auto r = real<int (*)(struct timespec const*, struct timespec*)>("nanosleep");
	return simulated() ? sched_yield() : r(a, b);
}

}

// ---------------------------------------------------------------- static initialisation

namespace __cxxabiv1 {
extern "C" {

int __cxa_guard_acquire(__guard* g)
{
	auto done = reinterpret_cast<char volatile*>(g);
	if (*done) return 0;
	if (!simulated()) {
		if (done[1]) _exit(3);
		done[1] = 1;
		return 1;
	}
	Busy b;
	step();
	sync_step();
	while (done[1]) block(g, "a static object being built");
	if (*done) {
		g_threads[t_id].vc.join(sync_of(uintptr_t(g))->vc);
		return 0;
	}
	g_threads[t_id].vc.join(sync_of(uintptr_t(g))->vc);
	done[1] = 1;
	return 1;
}

void __cxa_guard_release(__guard* g) noexcept
{
	auto done = reinterpret_cast<char volatile*>(g);
	if (simulated()) {
		Busy b;
		auto& t = g_threads[t_id];
		sync_of(uintptr_t(g))->vc.join(t.vc);
		++t.vc.c[t_id];
		done[1] = 0;
		*done = 1;
		wake(g);
		step();
		sync_step();
		return;
	}
	done[1] = 0;
	*done = 1;
}

void __cxa_guard_abort(__guard* g) noexcept
{
	auto done = reinterpret_cast<char volatile*>(g);
	done[1] = 0;
	if (simulated()) {
		Busy b;
		auto& t = g_threads[t_id];
		sync_of(uintptr_t(g))->vc.join(t.vc);
		++t.vc.c[t_id];
		wake(g);
		step();
		sync_step();
	}
}

}
}
