// Deterministic simulation kernel: choices, disk, clock, memory, commands.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices

struct PRNG {
	uint64_t s;
	explicit PRNG(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

// The only source of nondeterminism in a run.  0 is always the plainest choice.
class Choices {
public:
	void seed(uint64_t s);
	void replay(std::vector<uint32_t> const& values);
	uint32_t choose(uint32_t n);              // [0, n)
	int range(int lo, int hi) { return lo + int(choose(uint32_t(hi - lo + 1))); }
	bool chance(uint32_t num, uint32_t den) { return choose(den) >= den - num; }  // 0 -> false
	uint64_t word() { return (uint64_t(choose(1u << 31)) << 20) ^ choose(1u << 20); }
	template <class T> T const& pick(std::vector<T> const& v) { return v[choose(uint32_t(v.size()))]; }
	// bytes derived from one recorded choice; 0 -> all zero
	std::string bytes(size_t n);
	std::vector<uint32_t> const& log() const { return _log; }
private:
	bool _replay = false;
	PRNG _rng{1};
	std::vector<uint32_t> _in;
	size_t _pos = 0;
	std::vector<uint32_t> _log;
};

// ---------------------------------------------------------------- trace

enum class Op : uint8_t {
	OPEN, READ, WRITE, CLOSE, SEEK, STAT, MKDIR, RMDIR, UNLINK, RENAME, LINK, SYMLINK, READLINK,
	OPENDIR, READDIR, TRUNCATE, META, SYNC, STATVFS, CHDIR, GETCWD, COMMAND, COUNT
};
char const* op_name(Op op);

struct OpRec {
	Op op;
	bool creates = false;    // OPEN which may create or truncate
	bool mutates = false;
	std::string path;
	uint64_t size = 0;       // bytes asked for
};

// ---------------------------------------------------------------- faults

enum class FaultKind : uint8_t { NONE, ERRNO, SHORT, FULL, CLOSE_LOST, SHRINK, COUNT };
char const* fault_name(FaultKind k);

struct Fault {
	int at = -1;             // index of the operation within the window
	FaultKind kind = FaultKind::NONE;
	int err = 0;
	uint64_t arg = 0;
	bool sticky = false;     // keeps happening for the same kind of operation
};

// ---------------------------------------------------------------- disk

enum class Type : uint8_t { FILE, DIR, LINK };
typedef std::shared_ptr<std::string const> Bytes;

struct Inode {
	Type type = Type::FILE;
	Bytes data;                               // FILE: content; LINK: target
	std::map<std::string, uint64_t> entries;  // DIR
	int nlink = 1;
	int64_t mtime = 0;
	uint64_t apparent = 0;                    // FILE: size which stat reports, if not 0
	unsigned mode = 0644;
};

typedef std::map<uint64_t, std::shared_ptr<Inode const>> Image;  // copy-on-write

struct Disk {
	Image inodes;
	uint64_t next_ino = 2;
};

// flat view of a disk: path -> "d", "f:<content>", "l:<target>"
typedef std::map<std::string, std::string> Tree;

// ---- direct access by harness (no faults, no counting)
Disk snapshot();
void restore(Disk const& d);       // also closes every handle
void format();                     // empty disk, reset all sim state
void put_file(std::string const& path, std::string const& content);
void put_dir(std::string const& path);
void put_symlink(std::string const& path, std::string const& target);
// make stat report something out of the ordinary about a file
void put_facts(std::string const& path, uint64_t size, int64_t mtime, int nlink);
bool get_file(std::string const& path, std::string& content);   // false if not a regular file
bool exists(std::string const& path);
Tree tree(std::string const& root = "/sim");
Tree tree_of(Disk const& d, std::string const& root = "/sim");
bool file_in(Disk const& d, std::string const& path, std::string& content);
// tree with "f#<group>:" so that hard links can be told apart from copies
std::map<std::string, uint64_t> inode_numbers(std::string const& root);
void remove_tree(std::string const& path);

struct HandleInfo { int fd; std::string path; bool dir; int opened_at; };
std::vector<HandleInfo> open_handles();
uint64_t total_opens();

// ---- the window: operations are numbered and may fail only inside it
struct Window {
	std::vector<Fault> faults;
	std::vector<int> crash_at;                    // operation indices at which to keep an image
	std::vector<unsigned> crash_frac;             // for WRITE: how much of it landed, in 1/16
	int alloc_fail_at = -1;
	int alloc_fail_n = 1;                         // how many successive allocations fail
	std::function<void (OpRec const&, int)> after_mutation;   // called after each change of the disk
	// results
	std::vector<OpRec> ops;
	std::vector<std::pair<int, Disk>> crashes;
	std::vector<std::pair<int, Fault>> fired;
	uint64_t allocs = 0;
	int alloc_failures = 0;
	std::vector<std::string> mutations;
};
// more operations than this in one window are taken for a loop without end
size_t const MAX_OPS = 300000;
extern void (*on_runaway)();
extern unsigned long long overruns;   // blocks of memory found to have been written beyond their ends
void begin_window(Window* w);
void end_window();
bool in_window();

struct WindowScope {
	explicit WindowScope(Window& w) { begin_window(&w); }
	~WindowScope() { end_window(); }
};

// suspend counting and faults while the harness itself works on the disk inside a window
struct Pause { Pause(); ~Pause(); Window* w; };

// ---- environment
void set_dir_order(uint64_t seed);                // 0: by name
void deny(std::string const& path, int err);      // opening/listing this path fails always
void set_bad_sector(std::string const& path, uint64_t offset);  // what lies there or beyond cannot be read
void clear_bad_sectors();
void set_handle_limit(int n);                     // EMFILE above this many; 0: none
void set_link_policy(int err);                    // 0: links allowed, else errno
int64_t disk_free();
void set_disk_free(int64_t bytes);                // -1: unlimited
void set_max_transfer(size_t bytes);              // reads and writes do at most this much at a time; 0: no limit
std::string sim_cwd();
void set_sim_cwd(std::string const& p);
extern std::function<int (std::string const&)> command_handler;   // for system(3); returns wait status
std::vector<std::string> const& escapes();        // refused attempts to change the real disk

// clock, in seconds and nanoseconds since the epoch
extern std::function<int64_t ()> clock_source;     // nanoseconds; if empty, fixed and slowly ticking
int64_t clock_now();
// where a run begins; the time passed until then is not simulated
void start_clock(int64_t ns);
void set_clock(int64_t ns);
void enable_clock(bool on);
uint64_t simulated_ns();                          // how much simulated time has passed in this process

// randomness used by library code through stand-ins and OpenSSL
void seed_random(uint64_t s);
void random_bytes(void* p, size_t n);
void crypto_random_bytes(void* p, size_t n);      // for OpenSSL, whose needs depend on what it has cached

// trace hash of the run
void trace_reset();
void trace(uint64_t v);
void trace(std::string const& s);
uint64_t trace_hash();

// real file output for the driver
bool real_write_file(std::string const& path, std::string const& content);
std::string real_read_file(std::string const& path);

// verbose trace of every simulated call on stderr
extern bool verbose;

// ---------------------------------------------------------------- properties

struct Violation {
	std::string cls;      // stable class, used to keep the same failure while minimising
	std::string detail;
};

struct RunStats {
	std::map<std::string, uint64_t> counts;
	uint64_t signature = 0;      // abstract shape of the run
	bool nontrivial = false;
	std::string sample;
};

class Ctx {
public:
	Choices c;
	RunStats stats;
	bool violated = false;
	Violation violation;
	void violate(std::string cls, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
	void count(std::string const& what, uint64_t n = 1) { stats.counts[what] += n; }
	void sig(uint64_t v) { stats.signature = mix(stats.signature, v); }
	void sig(std::string const& v) { sig(hash_str(v)); }
	void note(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
	std::string notes;
};

struct Property {
	char const* id;
	void (*setup)();             // once per process, before any run
	void (*run)(Ctx&);
	int batch;                   // runs per forked child
	char const* rule;            // how cases are made and what makes one non-trivial
};

void register_property(Property const& p);

#define SIM_PROPERTY(ID, SETUP, RUN, BATCH, RULE) \
	static struct Reg_##ID { Reg_##ID() { sim::register_property({#ID, SETUP, RUN, BATCH, RULE}); } } reg_##ID;

std::string format_string(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- helpers shared by properties

struct FaultMenu {
	bool reads = true, writes = true, meta = true;
	bool shrink = false;         // another process truncates the file
	bool sticky = true;
	bool storms = false;         // many interrupted transfers, now and then
	int max_faults = 3;
	std::function<bool (OpRec const&)> filter;  // which operations may be hit
};
// choose faults for operations recorded in a fault-free execution
std::vector<Fault> draw_faults(Ctx& ctx, std::vector<OpRec> const& ops, FaultMenu const& menu);
void count_faults(Ctx& ctx, Window const& w);
std::string describe_fired(Window const& w);
std::string show(std::string const& bytes);
std::string diff_trees(Tree const& a, Tree const& b);

}
