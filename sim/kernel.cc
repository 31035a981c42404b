// The simulated kernel: choice stream, disk, fault injection, clock.
#include "kernel.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <fcntl.h>
#include <algorithm>

using std::string;
using std::vector;
using std::map;
using std::shared_ptr;
using std::make_shared;

namespace sim {

bool verbose = false;

uint64_t mix(uint64_t a, uint64_t b)
{
	uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15;
	z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
	z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
	return z ^ (z >> 32);
}

uint64_t hash_bytes(void const* p, size_t n, uint64_t h)
{
	auto c = static_cast<unsigned char const*>(p);
	for (size_t i = 0; i < n; ++i) {
		h = (h ^ c[i]) * 0x100000001b3ull;
	}
	return h;
}

string format_string(char const* fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	return buf;
}

// ---------------------------------------------------------------- choices

void Choices::seed(uint64_t s)
{
	_replay = false;
	_rng = PRNG(s);
	_log.clear();
	_in.clear();
	_pos = 0;
}

void Choices::replay(vector<uint32_t> const& values)
{
	_replay = true;
	_in = values;
	_pos = 0;
	_log.clear();
}

void mirror_choice(uint32_t v);

uint32_t Choices::choose(uint32_t n)
{
	k::Quiet quiet;
	if (n <= 1) {
		return 0;
	}
	uint32_t v;
	if (_replay) {
		v = _pos < _in.size() ? _in[_pos] % n : 0;
		++_pos;
	} else {
		v = uint32_t(_rng.below(n));
	}
	_log.push_back(v);
	mirror_choice(v);
	return v;
}

string Choices::bytes(size_t n)
{
	k::Quiet quiet;
	uint32_t const s = choose(1u << 30);
	string r(n, '\0');
	if (s) {
		PRNG p(s);
		for (size_t i = 0; i < n; ++i) {
			r[i] = char(p.next());
		}
	}
	return r;
}

// ---------------------------------------------------------------- trace

static uint64_t g_trace = 0;
void trace_reset() { g_trace = 0; }
void trace(uint64_t v) { g_trace = mix(g_trace, v); }
void trace(string const& s) { g_trace = mix(g_trace, hash_str(s)); }
uint64_t trace_hash() { return g_trace; }

char const* op_name(Op op)
{
	static char const* n[] = {
		"open", "read", "write", "close", "seek", "stat", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "readlink",
		"opendir", "readdir", "truncate", "meta", "sync", "statvfs", "chdir", "getcwd", "command"
	};
	return n[int(op)];
}

char const* fault_name(FaultKind k)
{
	static char const* n[] = { "none", "errno", "short", "full", "close_lost", "shrink" };
	return n[int(k)];
}

// ---------------------------------------------------------------- state

static Disk g_disk;
static map<int, shared_ptr<k::OpenFile>> g_fds;
static int g_next_fd = k::FD_BASE;
static uint64_t g_total_opens = 0;
static Window* g_window = nullptr;
static vector<Fault> g_sticky;
static uint64_t g_dir_order = 0;
static map<string, int> g_deny;
static map<string, uint64_t> g_bad_sector;
static int g_handle_limit = 0;
static int g_link_policy = 0;
static int64_t g_free = -1;
static size_t g_max_transfer = 0;
void (*on_runaway)() = nullptr;
static string g_cwd;
static vector<string> g_escapes;
static bool g_sandboxed = false;
std::function<int (string const&)> command_handler;

static int64_t g_clock_ns = 1700000000ll * 1000000000ll;
static bool g_clock_on = false;
static uint64_t g_simulated_ns = 0;
std::function<int64_t ()> clock_source;

static PRNG g_random(1), g_crypto_random(1);
void seed_random(uint64_t s)
{
	g_random = PRNG(s ^ 0xabcdef);
	g_crypto_random = PRNG(s ^ 0xfedcba);
}
static void draw_bytes(PRNG& from, void* p, size_t n)
{
	auto c = static_cast<unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) {
		c[i] = (unsigned char)(from.next() >> 13);
	}
}
void random_bytes(void* p, size_t n) { draw_bytes(g_random, p, n); }
void crypto_random_bytes(void* p, size_t n) { draw_bytes(g_crypto_random, p, n); }

int64_t clock_now() { return g_clock_ns; }
void start_clock(int64_t ns) { g_clock_ns = ns; }
void set_clock(int64_t ns)
{
	if (ns > g_clock_ns) {
		g_simulated_ns += uint64_t(ns - g_clock_ns);
	}
	g_clock_ns = ns;
}
void enable_clock(bool on) { g_clock_on = on; }
bool clock_enabled() { return g_clock_on; }
uint64_t simulated_ns() { return g_simulated_ns; }
// one reading of the clock by library code
int64_t clock_read()
{
	k::Quiet quiet;
	if (clock_source) {
		set_clock(clock_source());
	} else {
		set_clock(g_clock_ns + 1000000);
	}
	return g_clock_ns;
}

static uint64_t const ROOT = 1;

static Inode const* node(uint64_t ino)
{
	auto i = g_disk.inodes.find(ino);
	return i == g_disk.inodes.end() ? nullptr : i->second.get();
}

static Inode* edit(uint64_t ino)
{
	auto& p = g_disk.inodes[ino];
	auto q = make_shared<Inode>(*p);
	p = q;
	return q.get();
}

static uint64_t add_inode(Inode const& n)
{
	auto ino = g_disk.next_ino++;
	g_disk.inodes[ino] = make_shared<Inode>(n);
	return ino;
}

static void drop_if_unused(uint64_t ino)
{
	auto n = node(ino);
	if (!n || n->nlink > 0) {
		return;
	}
	for (auto const& f: g_fds) {
		if (f.second->ino == ino) {
			return;
		}
	}
	g_disk.inodes.erase(ino);
}

static int64_t const MTIME_BASE = 1600000000;
static int64_t stamp() { return g_clock_on ? g_clock_ns / 1000000000 : MTIME_BASE; }

Disk snapshot()
{
	return g_disk;
}

void restore(Disk const& d)
{
	g_disk = d;
	g_fds.clear();
	g_next_fd = k::FD_BASE;
	// orphans in the image
	vector<uint64_t> gone;
	for (auto const& i: g_disk.inodes) {
		if (i.second->nlink <= 0) gone.push_back(i.first);
	}
	for (auto i: gone) g_disk.inodes.erase(i);
}

void format()
{
	g_disk = Disk();
	Inode root;
	root.type = Type::DIR;
	root.nlink = 2;
	root.mode = 0755;
	root.mtime = MTIME_BASE;
	g_disk.inodes[ROOT] = make_shared<Inode>(root);
	g_fds.clear();
	g_next_fd = k::FD_BASE;
	g_window = nullptr;
	g_sticky.clear();
	g_dir_order = 0;
	g_deny.clear();
	g_bad_sector.clear();
	g_handle_limit = 0;
	g_link_policy = 0;
	g_max_transfer = 0;
	g_free = -1;
	g_cwd.clear();
	g_escapes.clear();
	command_handler = nullptr;
	clock_source = nullptr;
	g_clock_ns = 1700000000ll * 1000000000ll;
	seed_random(1);
}

void set_dir_order(uint64_t seed) { g_dir_order = seed; }
void deny(string const& path, int err) { g_deny[path] = err; }
void set_bad_sector(string const& path, uint64_t offset) { g_bad_sector[path] = offset; }
void clear_bad_sectors() { g_bad_sector.clear(); }
void set_handle_limit(int n) { g_handle_limit = n; }
void set_link_policy(int err) { g_link_policy = err; }
int64_t disk_free() { return g_free; }
void set_disk_free(int64_t b) { g_free = b; }
void set_max_transfer(size_t b) { g_max_transfer = b; }
string sim_cwd() { return g_cwd; }
void set_sim_cwd(string const& p) { g_cwd = p; }
vector<string> const& escapes() { return g_escapes; }
uint64_t total_opens() { return g_total_opens; }

vector<HandleInfo> open_handles()
{
	vector<HandleInfo> r;
	for (auto const& i: g_fds) {
		auto n = node(i.second->ino);
		r.push_back({i.first, i.second->path, n && n->type == Type::DIR, i.second->opened_at});
	}
	return r;
}

// ---------------------------------------------------------------- window

void begin_window(Window* w)
{
	g_window = w;
	g_sticky.clear();
	w->ops.clear();
	w->crashes.clear();
	w->fired.clear();
	w->mutations.clear();
	w->allocs = 0;
	w->alloc_failures = 0;
}

void end_window()
{
	g_window = nullptr;
	g_sticky.clear();
}

bool in_window() { return g_window; }

Pause::Pause() : w(g_window) { g_window = nullptr; }
Pause::~Pause() { g_window = w; }

namespace k {

bool sandboxed() { return g_sandboxed; }
void set_sandboxed(bool s) { g_sandboxed = s; }

void refuse(char const* what, char const* path)
{
	if (g_escapes.size() < 16) {
		g_escapes.push_back(string(what) + " " + (path ? path : "?"));
	}
}

int quiet_depth = 0;

void maybe_fail_alloc(bool& fail)
{
	fail = false;
	if (!g_window || quiet_depth) {
		return;
	}
	auto n = int(g_window->allocs++);
	if (g_window->alloc_fail_at >= 0 && n >= g_window->alloc_fail_at && n < g_window->alloc_fail_at + g_window->alloc_fail_n) {
		g_window->alloc_failures++;
		fail = true;
	}
}

struct GateResult {
	int err = 0;
	bool is_short = false;
	uint64_t arg = 0;
	bool lost = false;
	int index = -1;
};

static void shrink_file(string const& path, uint64_t arg);

// every operation passes here first
static GateResult gate(Op op, string const& path, uint64_t size = 0, bool creates = false, bool mutates = false)
{
	GateResult r;
	if (!g_window) {
		return r;
	}
	auto& w = *g_window;
	// each operation takes a little simulated time
	set_clock(g_clock_ns + 100000);
	r.index = int(w.ops.size());
	OpRec rec;
	rec.op = op;
	rec.creates = creates;
	rec.mutates = mutates;
	rec.path = path;
	rec.size = size;
	w.ops.push_back(rec);
	if (w.ops.size() > MAX_OPS && on_runaway) on_runaway();
	trace(uint64_t(op));
	trace(path);
	trace(size);
	if (verbose) {
		fprintf(stderr, "  [%d] %s %s %llu\n", r.index, op_name(op), path.c_str(), (unsigned long long)(size));
	}
	for (size_t i = 0; i < w.crash_at.size(); ++i) {
		if (w.crash_at[i] == r.index && !(op == Op::WRITE && i < w.crash_frac.size() && w.crash_frac[i])) {
			w.crashes.push_back({r.index, g_disk});
		}
	}
	auto apply = [&](Fault const& f) {
		bool hit = true;
		switch (f.kind) {
		case FaultKind::ERRNO:
			r.err = f.err;
			break;
		case FaultKind::SHORT:
			if (op == Op::READ || op == Op::WRITE) {
				r.is_short = true;
				r.arg = f.arg;
			} else {
				hit = false;
			}
			break;
		case FaultKind::FULL:
			g_free = int64_t(f.arg);
			break;
		case FaultKind::CLOSE_LOST:
			if (op == Op::CLOSE) {
				r.err = f.err;
				r.lost = true;
			} else {
				hit = false;
			}
			break;
		case FaultKind::SHRINK:
			shrink_file(path, f.arg);
			break;
		default:
			hit = false;
			break;
		}
		if (hit) {
			w.fired.push_back({r.index, f});
			trace(uint64_t(f.kind) * 1000 + f.err);
			if (verbose) {
				fprintf(stderr, "      !! %s errno=%d arg=%llu\n", fault_name(f.kind), f.err, (unsigned long long)(f.arg));
			}
		}
	};
	for (auto const& f: g_sticky) {
		if (f.at == int(op)) {
			apply(f);
		}
	}
	for (auto const& f: w.faults) {
		if (f.at == r.index) {
			apply(f);
			if (f.sticky) {
				Fault s = f;
				s.at = int(op);
				g_sticky.push_back(s);
			}
		}
	}
	return r;
}

static void mutated(GateResult const& g)
{
	if (!g_window) {
		return;
	}
	auto w = g_window;
	auto const rec = w->ops[size_t(g.index)];
	w->mutations.push_back(string(op_name(rec.op)) + " " + rec.path);
	if (w->after_mutation) {
		Pause p;
		w->after_mutation(rec, g.index);
	}
}

// ---------------------------------------------------------------- paths

bool is_fd(int fd) { return fd >= FD_BASE && g_fds.find(fd) != g_fds.end(); }

static bool sim_prefix(char const* p)
{
	return strncmp(p, "/sim", 4) == 0 && (p[4] == '\0' || p[4] == '/');
}

bool is_path(int dirfd, char const* path)
{
	if (!path) {
		return false;
	}
	if (path[0] == '/') {
		while (path[0] == '/' && path[1] == '/') {
			++path;
		}
		return sim_prefix(path);
	}
	if (dirfd != AT_FDCWD) {
		return is_fd(dirfd);
	}
	return !g_cwd.empty();
}

string absolute(int dirfd, char const* path)
{
	if (path[0] == '/') {
		return path;
	}
	string base = dirfd == AT_FDCWD ? g_cwd : g_fds[dirfd]->path;
	return base + "/" + path;
}

struct Res {
	int err = 0;
	uint64_t parent = 0;
	string name;        // last component; empty when the path is the root
	uint64_t ino = 0;   // 0 if it does not exist
	string full;        // normalised path
	bool must_be_dir = false;
};

static string clean(vector<string> const& parts)
{
	string r = "/sim";
	for (auto const& p: parts) {
		r += "/" + p;
	}
	return r;
}

static Res resolve(int dirfd, char const* path, bool follow_last, int depth = 0)
{
	Res r;
	if (!path || !*path) {
		r.err = ENOENT;
		return r;
	}
	if (depth > 40) {
		r.err = ELOOP;
		return r;
	}
	string const abs = absolute(dirfd, path);
	// split, dropping the /sim prefix
	vector<string> parts;
	{
		size_t i = 0;
		while (i < abs.size()) {
			while (i < abs.size() && abs[i] == '/') ++i;
			size_t j = abs.find('/', i);
			if (j == string::npos) j = abs.size();
			if (j > i) parts.push_back(abs.substr(i, j - i));
			i = j;
		}
	}
	if (parts.empty() || parts[0] != "sim") {
		r.err = EACCES;
		refuse("resolve", abs.c_str());
		return r;
	}
	parts.erase(parts.begin());
	bool const trailing = abs.back() == '/';
	r.must_be_dir = trailing;

	vector<uint64_t> stack = {ROOT};
	vector<string> names;
	for (size_t i = 0; i < parts.size(); ++i) {
		auto const& c = parts[i];
		bool const last = i + 1 == parts.size();
		auto dir = node(stack.back());
		if (!dir || dir->type != Type::DIR) {
			r.err = ENOTDIR;
			return r;
		}
		if (c == ".") {
			if (last) r.must_be_dir = true;
			continue;
		}
		if (c == "..") {
			if (stack.size() > 1) { stack.pop_back(); names.pop_back(); }
			if (last) r.must_be_dir = true;
			continue;
		}
		if (c.size() > 255) {
			r.err = ENAMETOOLONG;
			return r;
		}
		auto e = dir->entries.find(c);
		if (e == dir->entries.end()) {
			if (last) {
				r.parent = stack.back();
				r.name = c;
				names.push_back(c);
				r.full = clean(names);
				return r;
			}
			r.err = ENOENT;
			return r;
		}
		auto child = node(e->second);
		if (child->type == Type::LINK && (!last || follow_last || trailing)) {
			string rest;
			for (size_t j = i + 1; j < parts.size(); ++j) {
				rest += "/" + parts[j];
			}
			if (trailing) rest += "/";
			string target = *child->data;
			if (target.empty() || target[0] != '/') {
				target = clean(names) + "/" + target;
			}
			return resolve(AT_FDCWD, (target + rest).c_str(), follow_last, depth + 1);
		}
		if (last) {
			r.parent = stack.back();
			r.name = c;
			r.ino = e->second;
			names.push_back(c);
			r.full = clean(names);
			return r;
		}
		stack.push_back(e->second);
		names.push_back(c);
	}
	// path denotes a directory on the stack
	r.ino = stack.back();
	r.parent = stack.size() > 1 ? stack[stack.size() - 2] : ROOT;
	r.name = names.empty() ? "" : names.back();
	r.full = clean(names);
	return r;
}

static void shrink_file(string const& path, uint64_t arg)
{
	auto r = resolve(AT_FDCWD, path.c_str(), true);
	if (r.err || !r.ino) return;
	auto n = node(r.ino);
	if (n->type != Type::FILE || n->data->empty()) return;
	auto e = edit(r.ino);
	e->data = make_shared<string>(e->data->substr(0, size_t(arg % e->data->size())));
}

static string nice(int dirfd, char const* path)
{
	auto r = resolve(dirfd, path, false);
	return r.full.empty() ? absolute(dirfd, path) : r.full;
}

static int denied(string const& full)
{
	auto i = g_deny.find(full);
	return i == g_deny.end() ? 0 : i->second;
}

// ---------------------------------------------------------------- files

int open(int dirfd, char const* path, int flags, unsigned mode)
{
	Quiet quiet;
	bool const wr = (flags & O_ACCMODE) != O_RDONLY;
	bool const creates = (flags & O_CREAT) || (flags & O_TRUNC);
	auto g = gate(Op::OPEN, nice(dirfd, path), 0, creates, creates);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, !(flags & O_NOFOLLOW));
	if (r.err) return -r.err;
	if (auto e = denied(r.full)) return -e;
	if (g_handle_limit && int(g_fds.size()) >= g_handle_limit) return -EMFILE;
	if (r.ino) {
		auto n = node(r.ino);
		if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		if (n->type == Type::LINK) return -ELOOP;
		if (n->type == Type::DIR && (wr || (flags & O_CREAT))) return -EISDIR;
		if (n->type != Type::DIR && ((flags & O_DIRECTORY) || r.must_be_dir)) return -ENOTDIR;
		if ((flags & O_TRUNC) && n->type == Type::FILE && wr) {
			auto e = edit(r.ino);
			e->data = make_shared<string>();
			e->mtime = stamp();
			mutated(g);
		}
	} else {
		if (!(flags & O_CREAT)) return -ENOENT;
		if (r.must_be_dir) return -EISDIR;
		Inode n;
		n.data = make_shared<string>();
		n.mode = mode & 0777;
		n.mtime = stamp();
		r.ino = add_inode(n);
		edit(r.parent)->entries[r.name] = r.ino;
		mutated(g);
	}
	auto f = make_shared<OpenFile>();
	f->fd = g_next_fd++;
	f->ino = r.ino;
	f->flags = flags;
	f->path = r.full;
	f->opened_at = g.index;
	g_fds[f->fd] = f;
	++g_total_opens;
	return f->fd;
}

int close(int fd)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto f = i->second;
	auto g = gate(Op::CLOSE, f->path);
	if (g.lost && f->has_undo && node(f->ino)) {
		edit(f->ino)->data = f->undo;
	}
	g_fds.erase(fd);
	drop_if_unused(f->ino);
	return g.err ? -g.err : 0;
}

int dup(int fd)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto f = make_shared<OpenFile>(*i->second);
	f->fd = g_next_fd++;
	g_fds[f->fd] = f;
	return f->fd;
}

ssize_t read(int fd, void* buf, size_t n, int64_t at)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto f = i->second;
	auto g = gate(Op::READ, f->path, n);
	if (g.err) return -g.err;
	if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
	auto nd = node(f->ino);
	if (nd->type == Type::DIR) return -EISDIR;
	uint64_t const off = at >= 0 ? uint64_t(at) : f->offset;
	if (off >= nd->data->size()) return 0;
	size_t c = std::min<uint64_t>(n, nd->data->size() - off);
	if (g.is_short && c > 1) c = 1 + g.arg % (c - 1);
	if (g_max_transfer) c = std::min(c, g_max_transfer);
	auto bad = g_bad_sector.find(f->path);
	if (bad != g_bad_sector.end() && off + c > bad->second) {
		if (off >= bad->second) return -EIO;
		c = bad->second - off;
	}
	memcpy(buf, nd->data->data() + off, c);
	if (at < 0) f->offset += c;
	return ssize_t(c);
}

ssize_t write(int fd, void const* buf, size_t n, int64_t at)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto f = i->second;
	auto g = gate(Op::WRITE, f->path, n, false, true);
	if (g.err) return -g.err;
	if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
	auto nd = node(f->ino);
	if (n == 0) return 0;
	uint64_t off = at >= 0 ? uint64_t(at) : (f->flags & O_APPEND) ? nd->data->size() : f->offset;
	size_t c = n;
	if (g.is_short && c > 1) c = 1 + g.arg % (c - 1);
	if (g_max_transfer) c = std::min(c, g_max_transfer);
	if (g_free >= 0) {
		uint64_t const have = nd->data->size();
		uint64_t const growth = off + c > have ? off + c - have : 0;
		if (growth > uint64_t(g_free)) {
			uint64_t const excess = growth - uint64_t(g_free);
			if (excess >= c) return -ENOSPC;
			c -= excess;
		}
		uint64_t const growth2 = off + c > have ? off + c - have : 0;
		g_free -= int64_t(growth2);
	}
	auto put = [&](size_t count) {
		auto e = edit(f->ino);
		auto s = make_shared<string>(*e->data);
		if (s->size() < off + count) s->resize(off + count, '\0');
		memcpy(&(*s)[off], buf, count);
		e->data = s;
		e->mtime = stamp();
	};
	if (g_window) {
		auto& w = *g_window;
		for (size_t x = 0; x < w.crash_at.size(); ++x) {
			if (w.crash_at[x] == g.index && x < w.crash_frac.size() && w.crash_frac[x]) {
				auto keep = g_disk;
				put(std::max<size_t>(1, c * w.crash_frac[x] / 16));
				w.crashes.push_back({g.index, g_disk});
				g_disk = keep;
			}
		}
	}
	f->undo = node(f->ino)->data;
	f->has_undo = true;
	put(c);
	if (at < 0) f->offset = off + c;
	mutated(g);
	return ssize_t(c);
}

int64_t lseek(int fd, int64_t off, int whence)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto f = i->second;
	auto g = gate(Op::SEEK, f->path, uint64_t(off));
	if (g.err) return -g.err;
	int64_t base = 0;
	auto nd = node(f->ino);
	if (whence == SEEK_CUR) base = int64_t(f->offset);
	else if (whence == SEEK_END) base = nd->apparent ? int64_t(nd->apparent) : nd->data ? int64_t(nd->data->size()) : 0;
	else if (whence != SEEK_SET) return -EINVAL;
	if (base + off < 0) return -EINVAL;
	f->offset = uint64_t(base + off);
	return int64_t(f->offset);
}

static void fill(uint64_t ino, StatInfo& st)
{
	auto n = node(ino);
	st.type = n->type;
	st.size = n->type == Type::DIR ? 4096 : n->apparent ? n->apparent : n->data->size();
	st.nlink = n->nlink;
	st.mtime = n->mtime;
	st.ino = ino;
	st.mode = n->mode;
}

int stat(int dirfd, char const* path, bool follow, StatInfo& st)
{
	Quiet quiet;
	auto g = gate(Op::STAT, nice(dirfd, path));
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, follow);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	fill(r.ino, st);
	if (r.must_be_dir && st.type != Type::DIR) return -ENOTDIR;
	return 0;
}

int fstat(int fd, StatInfo& st)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto g = gate(Op::STAT, i->second->path);
	if (g.err) return -g.err;
	fill(i->second->ino, st);
	return 0;
}

int access(int dirfd, char const* path)
{
	Quiet quiet;
	StatInfo st;
	return stat(dirfd, path, true, st);
}

int mkdir(int dirfd, char const* path, unsigned mode)
{
	Quiet quiet;
	auto g = gate(Op::MKDIR, nice(dirfd, path), 0, true, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, false);
	if (r.err) return -r.err;
	if (r.ino) return -EEXIST;
	Inode n;
	n.type = Type::DIR;
	n.nlink = 2;
	n.mode = mode & 0777;
	n.mtime = stamp();
	auto ino = add_inode(n);
	auto p = edit(r.parent);
	p->entries[r.name] = ino;
	p->nlink++;
	mutated(g);
	return 0;
}

int rmdir(int dirfd, char const* path)
{
	Quiet quiet;
	auto g = gate(Op::RMDIR, nice(dirfd, path), 0, false, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, false);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	auto n = node(r.ino);
	if (n->type != Type::DIR) return -ENOTDIR;
	if (!n->entries.empty()) return -ENOTEMPTY;
	if (r.ino == ROOT) return -EBUSY;
	auto p = edit(r.parent);
	p->entries.erase(r.name);
	p->nlink--;
	edit(r.ino)->nlink = 0;
	drop_if_unused(r.ino);
	mutated(g);
	return 0;
}

int unlink(int dirfd, char const* path)
{
	Quiet quiet;
	auto g = gate(Op::UNLINK, nice(dirfd, path), 0, false, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, false);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	auto n = node(r.ino);
	if (n->type == Type::DIR) return -EISDIR;
	if (r.must_be_dir) return -ENOTDIR;
	edit(r.parent)->entries.erase(r.name);
	edit(r.ino)->nlink--;
	drop_if_unused(r.ino);
	mutated(g);
	return 0;
}

static bool inside(uint64_t dir, uint64_t what)
{
	if (dir == what) return true;
	auto n = node(what);
	if (!n || n->type != Type::DIR) return false;
	for (auto const& e: n->entries) {
		auto c = node(e.second);
		if (c->type == Type::DIR && inside(dir, e.second)) return true;
	}
	return false;
}

int rename(int fromdir, char const* from, int todir, char const* to, bool noreplace)
{
	Quiet quiet;
	auto g = gate(Op::RENAME, nice(fromdir, from), 0, false, true);
	if (g.err) return -g.err;
	auto a = resolve(fromdir, from, false);
	if (a.err) return -a.err;
	if (!a.ino) return -ENOENT;
	auto b = resolve(todir, to, false);
	if (b.err) return -b.err;
	if (a.ino == ROOT || b.ino == ROOT) return -EBUSY;
	auto an = node(a.ino);
	if (b.ino) {
		if (noreplace) return -EEXIST;
		auto bn = node(b.ino);
		if (an->type == Type::DIR && bn->type != Type::DIR) return -ENOTDIR;
		if (an->type != Type::DIR && bn->type == Type::DIR) return -EISDIR;
		if (a.ino == b.ino) return 0;
		if (bn->type == Type::DIR && !bn->entries.empty()) return -ENOTEMPTY;
	} else if (b.must_be_dir && an->type != Type::DIR) {
		return -ENOTDIR;
	}
	if (an->type == Type::DIR && inside(b.parent, a.ino)) return -EINVAL;
	uint64_t const replaced = b.ino;
	edit(a.parent)->entries.erase(a.name);
	edit(b.parent)->entries[b.name] = a.ino;
	if (an->type == Type::DIR) {
		edit(a.parent)->nlink--;
		edit(b.parent)->nlink++;
	}
	if (replaced) {
		auto e = edit(replaced);
		if (e->type == Type::DIR) {
			e->nlink = 0;
			edit(b.parent)->nlink--;
		} else {
			e->nlink--;
		}
		drop_if_unused(replaced);
	}
	mutated(g);
	return 0;
}

int link(int fromdir, char const* from, int todir, char const* to)
{
	Quiet quiet;
	auto g = gate(Op::LINK, nice(todir, to), 0, true, true);
	if (g.err) return -g.err;
	if (g_link_policy) return -g_link_policy;
	auto a = resolve(fromdir, from, false);
	if (a.err) return -a.err;
	if (!a.ino) return -ENOENT;
	auto b = resolve(todir, to, false);
	if (b.err) return -b.err;
	if (b.ino) return -EEXIST;
	if (node(a.ino)->type == Type::DIR) return -EPERM;
	edit(b.parent)->entries[b.name] = a.ino;
	edit(a.ino)->nlink++;
	mutated(g);
	return 0;
}

int symlink(char const* target, int dirfd, char const* path)
{
	Quiet quiet;
	auto g = gate(Op::SYMLINK, nice(dirfd, path), 0, true, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, false);
	if (r.err) return -r.err;
	if (r.ino) return -EEXIST;
	if (!*target) return -ENOENT;
	Inode n;
	n.type = Type::LINK;
	n.data = make_shared<string>(target);
	n.mode = 0777;
	n.mtime = stamp();
	auto ino = add_inode(n);
	edit(r.parent)->entries[r.name] = ino;
	mutated(g);
	return 0;
}

int readlink(int dirfd, char const* path, string& out)
{
	Quiet quiet;
	auto g = gate(Op::READLINK, nice(dirfd, path));
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, false);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	auto n = node(r.ino);
	if (n->type != Type::LINK) return -EINVAL;
	out = *n->data;
	return 0;
}

static int set_length(uint64_t ino, int64_t len)
{
	if (len < 0) return -EINVAL;
	auto e = edit(ino);
	auto s = make_shared<string>(*e->data);
	s->resize(size_t(len), '\0');
	e->data = s;
	e->mtime = stamp();
	return 0;
}

int truncate(char const* path, int64_t len)
{
	Quiet quiet;
	auto g = gate(Op::TRUNCATE, nice(AT_FDCWD, path), uint64_t(len), false, true);
	if (g.err) return -g.err;
	auto r = resolve(AT_FDCWD, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	if (node(r.ino)->type == Type::DIR) return -EISDIR;
	auto x = set_length(r.ino, len);
	if (!x) mutated(g);
	return x;
}

int ftruncate(int fd, int64_t len)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto g = gate(Op::TRUNCATE, i->second->path, uint64_t(len), false, true);
	if (g.err) return -g.err;
	auto x = set_length(i->second->ino, len);
	if (!x) mutated(g);
	return x;
}

int chmod(int dirfd, char const* path, unsigned mode)
{
	Quiet quiet;
	auto g = gate(Op::META, nice(dirfd, path), 0, false, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	edit(r.ino)->mode = mode & 07777;
	mutated(g);
	return 0;
}

int fchmod(int fd, unsigned mode)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto g = gate(Op::META, i->second->path, 0, false, true);
	if (g.err) return -g.err;
	edit(i->second->ino)->mode = mode & 07777;
	mutated(g);
	return 0;
}

int utime(int dirfd, char const* path, int64_t mtime)
{
	Quiet quiet;
	auto g = gate(Op::META, nice(dirfd, path), 0, false, true);
	if (g.err) return -g.err;
	auto r = resolve(dirfd, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	edit(r.ino)->mtime = mtime;
	mutated(g);
	return 0;
}

int sync(int fd)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto g = gate(Op::SYNC, i->second->path);
	return -g.err;
}

int statvfs(char const* path, uint64_t& total, uint64_t& avail)
{
	Quiet quiet;
	auto g = gate(Op::STATVFS, nice(AT_FDCWD, path));
	if (g.err) return -g.err;
	auto r = resolve(AT_FDCWD, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	total = 1ull << 30;
	avail = g_free < 0 ? (1ull << 29) : uint64_t(g_free);
	return 0;
}

int list(int fd, vector<DirEntry>& out)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	if (i == g_fds.end()) return -EBADF;
	auto n = node(i->second->ino);
	if (!n || n->type != Type::DIR) return -ENOTDIR;
	out.clear();
	out.push_back({".", i->second->ino, Type::DIR});
	out.push_back({"..", ROOT, Type::DIR});
	for (auto const& e: n->entries) {
		out.push_back({e.first, e.second, node(e.second)->type});
	}
	if (g_dir_order) {
		std::sort(out.begin(), out.end(), [](DirEntry const& a, DirEntry const& b) {
			return mix(g_dir_order, hash_str(a.name)) < mix(g_dir_order, hash_str(b.name));
		});
	}
	return 0;
}

int readdir_step(int fd)
{
	Quiet quiet;
	auto i = g_fds.find(fd);
	auto g = gate(Op::READDIR, i == g_fds.end() ? string("?") : i->second->path);
	return -g.err;
}

int chdir(char const* path)
{
	Quiet quiet;
	auto g = gate(Op::CHDIR, nice(AT_FDCWD, path));
	if (g.err) return -g.err;
	auto r = resolve(AT_FDCWD, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	if (node(r.ino)->type != Type::DIR) return -ENOTDIR;
	g_cwd = r.full;
	return 0;
}

int getcwd(string& out)
{
	Quiet quiet;
	auto g = gate(Op::GETCWD, g_cwd);
	if (g.err) return -g.err;
	auto r = resolve(AT_FDCWD, g_cwd.c_str(), true);
	if (r.err || !r.ino) return -ENOENT;
	out = g_cwd;
	return 0;
}

int realpath(char const* path, string& out)
{
	Quiet quiet;
	auto g = gate(Op::STAT, nice(AT_FDCWD, path));
	if (g.err) return -g.err;
	auto r = resolve(AT_FDCWD, path, true);
	if (r.err) return -r.err;
	if (!r.ino) return -ENOENT;
	out = r.full;
	return 0;
}

int command(char const* cmd)
{
	Quiet quiet;
	auto g = gate(Op::COMMAND, cmd, 0, false, true);
	if (g.err) return g.err << 8;
	if (command_handler) {
		Pause p;
		return command_handler(cmd);
	}
	return 127 << 8;
}

}

// ---------------------------------------------------------------- harness access

static uint64_t harness_parent(string const& path, string& name)
{
	auto slash = path.rfind('/');
	string dir = path.substr(0, slash);
	name = path.substr(slash + 1);
	put_dir(dir);
	auto r = k::resolve(AT_FDCWD, dir.c_str(), true);
	return r.ino;
}

void put_dir(string const& path)
{
	if (path == "/sim") return;
	auto r = k::resolve(AT_FDCWD, path.c_str(), true);
	if (!r.err && r.ino) return;
	string name;
	auto parent = harness_parent(path, name);
	Inode n;
	n.type = Type::DIR;
	n.nlink = 2;
	n.mode = 0755;
	n.mtime = MTIME_BASE;
	auto ino = add_inode(n);
	auto p = edit(parent);
	p->entries[name] = ino;
	p->nlink++;
}

void put_file(string const& path, string const& content)
{
	string name;
	auto parent = harness_parent(path, name);
	auto dir = node(parent);
	auto e = dir->entries.find(name);
	if (e != dir->entries.end() && node(e->second)->type == Type::FILE) {
		edit(e->second)->data = make_shared<string>(content);
		return;
	}
	Inode n;
	n.data = make_shared<string>(content);
	n.mtime = MTIME_BASE;
	auto ino = add_inode(n);
	edit(parent)->entries[name] = ino;
}

void put_facts(string const& path, uint64_t size, int64_t mtime, int nlink)
{
	string name;
	auto parent = harness_parent(path, name);
	auto n = edit(node(parent)->entries.at(name));
	n->apparent = size;
	n->mtime = mtime;
	n->nlink = nlink;
}

void put_symlink(string const& path, string const& target)
{
	string name;
	auto parent = harness_parent(path, name);
	Inode n;
	n.type = Type::LINK;
	n.data = make_shared<string>(target);
	n.mode = 0777;
	n.mtime = MTIME_BASE;
	auto ino = add_inode(n);
	edit(parent)->entries[name] = ino;
}

bool get_file(string const& path, string& content)
{
	return file_in(g_disk, path, content);
}

bool exists(string const& path)
{
	auto r = k::resolve(AT_FDCWD, path.c_str(), false);
	return !r.err && r.ino;
}

static Inode const* lookup(Disk const& d, string const& path, uint64_t* ino_out = nullptr)
{
	// plain lookup without following links
	uint64_t ino = ROOT;
	size_t i = 4;
	while (i < path.size()) {
		while (i < path.size() && path[i] == '/') ++i;
		if (i >= path.size()) break;
		size_t j = path.find('/', i);
		if (j == string::npos) j = path.size();
		auto n = d.inodes.find(ino);
		if (n == d.inodes.end() || n->second->type != Type::DIR) return nullptr;
		auto e = n->second->entries.find(path.substr(i, j - i));
		if (e == n->second->entries.end()) return nullptr;
		ino = e->second;
		i = j;
	}
	auto n = d.inodes.find(ino);
	if (ino_out) *ino_out = ino;
	return n == d.inodes.end() ? nullptr : n->second.get();
}

bool file_in(Disk const& d, string const& path, string& content)
{
	auto n = lookup(d, path);
	if (!n || n->type != Type::FILE) return false;
	content = *n->data;
	return true;
}

static void walk(Disk const& d, string const& path, Inode const* n, Tree& out)
{
	switch (n->type) {
	case Type::FILE: out[path] = "f:" + *n->data; break;
	case Type::LINK: out[path] = "l:" + *n->data; break;
	case Type::DIR:
		out[path] = "d";
		for (auto const& e: n->entries) {
			walk(d, path + "/" + e.first, d.inodes.at(e.second).get(), out);
		}
		break;
	}
}

Tree tree_of(Disk const& d, string const& root)
{
	Tree t;
	auto n = lookup(d, root);
	if (n) walk(d, root, n, t);
	return t;
}

Tree tree(string const& root) { return tree_of(g_disk, root); }

map<string, uint64_t> inode_numbers(string const& root)
{
	map<string, uint64_t> r;
	for (auto const& i: tree(root)) {
		uint64_t ino = 0;
		lookup(g_disk, i.first, &ino);
		r[i.first] = ino;
	}
	return r;
}

void remove_tree(string const& path)
{
	auto n = lookup(g_disk, path);
	if (!n) return;
	if (n->type == Type::DIR) {
		vector<string> names;
		for (auto const& e: n->entries) names.push_back(e.first);
		for (auto const& i: names) remove_tree(path + "/" + i);
	}
	if (path == "/sim") return;
	auto slash = path.rfind('/');
	uint64_t pino = 0, ino = 0;
	lookup(g_disk, path.substr(0, slash), &pino);
	auto m = lookup(g_disk, path, &ino);
	bool const dir = m->type == Type::DIR;
	auto p = edit(pino);
	p->entries.erase(path.substr(slash + 1));
	auto e = edit(ino);
	if (dir) { p->nlink--; e->nlink = 0; } else { e->nlink--; }
	drop_if_unused(ino);
}

}
