// libc entry points, defined in the executable so that every library in the
// process uses them.  Paths below /sim and handles from the simulated kernel go
// to the simulated disk; everything else goes to the real call, except that
// changing the real disk is refused once the sandbox is closed.
#include "kernel.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <new>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <malloc.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace sim;

namespace sim {
bool clock_enabled();
int64_t clock_read();
}

template <class F> static F real(char const* name)
{
	auto p = dlsym(RTLD_NEXT, name);
	if (!p) {
		static char const msg[] = "sim: missing symbol ";
		(void)!::syscall(SYS_write, 2, msg, sizeof(msg) - 1);
		(void)!::syscall(SYS_write, 2, name, strlen(name));
		abort();
	}
	return reinterpret_cast<F>(p);
}

#define REAL(ret, name, ...) static auto real_##name = real<ret (*)(__VA_ARGS__)>(#name)

template <class T> static T ret(T r)
{
	if (r < 0) {
		errno = int(-r);
		return -1;
	}
	return r;
}

static bool harmless(char const* path)
{
	return path && (strcmp(path, "/dev/null") == 0 || strncmp(path, "/dev/fd/", 8) == 0 || strncmp(path, "/dev/std", 8) == 0 || strcmp(path, "/dev/tty") == 0);
}

// true if a change to a real path must be refused
static bool blocked(char const* what, char const* path)
{
	if (!k::sandboxed() || harmless(path)) {
		return false;
	}
	k::refuse(what, path);
	errno = EACCES;
	return true;
}

static bool writes(int flags)
{
	return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
}

#define DEF(ret, cname, symbol, ...) \
	extern "C" ret cname(__VA_ARGS__) __asm__(symbol); \
	extern "C" __attribute__((visibility("default"))) ret cname(__VA_ARGS__)

// ---------------------------------------------------------------- stdio

struct Cookie { int fd; };
static std::unordered_map<FILE*, int>* g_streams;

static std::unordered_map<FILE*, int>& streams()
{
	if (!g_streams) g_streams = new std::unordered_map<FILE*, int>;
	return *g_streams;
}

static ssize_t cookie_read(void* c, char* buf, size_t n)
{
	auto r = k::read(static_cast<Cookie*>(c)->fd, buf, n);
	if (r < 0) {
		errno = int(-r);
		return -1;
	}
	return r;
}

// as glibc's own file write: carry on after a short write, stop at an error
static ssize_t cookie_write(void* c, char const* buf, size_t n)
{
	size_t done = 0;
	while (done < n) {
		auto r = k::write(static_cast<Cookie*>(c)->fd, buf + done, n - done);
		if (r < 0) {
			errno = int(-r);
			break;
		}
		done += size_t(r);
	}
	return ssize_t(done);
}

static int cookie_seek(void* c, off64_t* off, int whence)
{
	auto r = k::lseek(static_cast<Cookie*>(c)->fd, *off, whence);
	if (r < 0) {
		errno = int(-r);
		return -1;
	}
	*off = r;
	return 0;
}

static int cookie_close(void* c)
{
	auto cookie = static_cast<Cookie*>(c);
	int const fd = cookie->fd;
	delete cookie;
	for (auto i = streams().begin(); i != streams().end(); ++i) {
		if (i->second == fd) {
			streams().erase(i);
			break;
		}
	}
	return ret(k::close(fd));
}

static FILE* make_stream(int fd, char const* mode)
{
	k::Quiet quiet;
	cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
	auto c = new Cookie{fd};
	auto f = fopencookie(c, mode, io);
	if (!f) {
		delete c;
		return nullptr;
	}
	streams()[f] = fd;
	return f;
}

static int mode_flags(char const* mode)
{
	int f;
	bool const plus = strchr(mode, '+');
	switch (mode[0]) {
	case 'r': f = plus ? O_RDWR : O_RDONLY; break;
	case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
	case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
	default: return -1;
	}
	if (strchr(mode, 'x')) f |= O_EXCL;
	return f;
}

static FILE* do_fopen(char const* path, char const* mode, FILE* (*real_open)(char const*, char const*))
{
	int const flags = mode_flags(mode);
	if (k::is_path(AT_FDCWD, path)) {
		if (flags < 0) {
			errno = EINVAL;
			return nullptr;
		}
		auto fd = k::open(AT_FDCWD, path, flags, 0666);
		if (fd < 0) {
			errno = -fd;
			return nullptr;
		}
		return make_stream(fd, mode);
	}
	if (flags >= 0 && writes(flags) && blocked("fopen", path)) {
		return nullptr;
	}
	return real_open(path, mode);
}

DEF(FILE*, sim_fopen, "fopen", char const* path, char const* mode)
{
	REAL(FILE*, fopen, char const*, char const*);
	return do_fopen(path, mode, real_fopen);
}

DEF(FILE*, sim_fopen64, "fopen64", char const* path, char const* mode)
{
	REAL(FILE*, fopen64, char const*, char const*);
	return do_fopen(path, mode, real_fopen64);
}

DEF(FILE*, sim_fdopen, "fdopen", int fd, char const* mode)
{
	REAL(FILE*, fdopen, int, char const*);
	if (k::is_fd(fd)) return make_stream(fd, mode);
	return real_fdopen(fd, mode);
}

DEF(int, sim_fileno, "fileno", FILE* f)
{
	REAL(int, fileno, FILE*);
	auto i = streams().find(f);
	if (i != streams().end()) return i->second;
	return real_fileno(f);
}

DEF(int, sim_fileno_unlocked, "fileno_unlocked", FILE* f)
{
	return sim_fileno(f);
}

DEF(FILE*, sim_tmpfile, "tmpfile", void)
{
	blocked("tmpfile", "tmpfile");
	errno = EACCES;
	return nullptr;
}

// ---------------------------------------------------------------- descriptors

static int do_open(int dirfd, char const* path, int flags, unsigned mode)
{
	if (k::is_path(dirfd, path)) {
		return ret(k::open(dirfd, path, flags, mode));
	}
	if (writes(flags) && blocked("open", path)) return -1;
	return int(::syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode));
}

#define MODE_ARG \
	unsigned mode = 0; \
	if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }

DEF(int, sim_open, "open", char const* path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
DEF(int, sim_open64, "open64", char const* path, int flags, ...) { MODE_ARG return do_open(AT_FDCWD, path, flags, mode); }
DEF(int, sim_openat, "openat", int dirfd, char const* path, int flags, ...) { MODE_ARG return do_open(dirfd, path, flags, mode); }
DEF(int, sim_openat64, "openat64", int dirfd, char const* path, int flags, ...) { MODE_ARG return do_open(dirfd, path, flags, mode); }
DEF(int, sim_open_2, "__open_2", char const* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
DEF(int, sim_open64_2, "__open64_2", char const* path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
DEF(int, sim_openat_2, "__openat_2", int dirfd, char const* path, int flags) { return do_open(dirfd, path, flags, 0); }
DEF(int, sim_openat64_2, "__openat64_2", int dirfd, char const* path, int flags) { return do_open(dirfd, path, flags, 0); }
DEF(int, sim_creat, "creat", char const* path, unsigned mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
DEF(int, sim_creat64, "creat64", char const* path, unsigned mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

DEF(int, sim_close, "close", int fd)
{
	REAL(int, close, int);
	if (fd >= k::FD_BASE) return ret(k::close(fd));
	return real_close(fd);
}

DEF(int, sim_dup, "dup", int fd)
{
	REAL(int, dup, int);
	if (fd >= k::FD_BASE) return ret(k::dup(fd));
	return real_dup(fd);
}

DEF(ssize_t, sim_read, "read", int fd, void* buf, size_t n)
{
	REAL(ssize_t, read, int, void*, size_t);
	if (fd >= k::FD_BASE) return ret(k::read(fd, buf, n));
	return real_read(fd, buf, n);
}
DEF(ssize_t, sim_read_chk, "__read_chk", int fd, void* buf, size_t n, size_t) { return sim_read(fd, buf, n); }

DEF(ssize_t, sim_pread, "pread", int fd, void* buf, size_t n, off_t off)
{
	REAL(ssize_t, pread, int, void*, size_t, off_t);
	if (fd >= k::FD_BASE) return ret(k::read(fd, buf, n, off));
	return real_pread(fd, buf, n, off);
}
DEF(ssize_t, sim_pread64, "pread64", int fd, void* buf, size_t n, off_t off) { return sim_pread(fd, buf, n, off); }

DEF(ssize_t, sim_write, "write", int fd, void const* buf, size_t n)
{
	REAL(ssize_t, write, int, void const*, size_t);
	if (fd >= k::FD_BASE) return ret(k::write(fd, buf, n));
	return real_write(fd, buf, n);
}

DEF(ssize_t, sim_pwrite, "pwrite", int fd, void const* buf, size_t n, off_t off)
{
	REAL(ssize_t, pwrite, int, void const*, size_t, off_t);
	if (fd >= k::FD_BASE) return ret(k::write(fd, buf, n, off));
	return real_pwrite(fd, buf, n, off);
}
DEF(ssize_t, sim_pwrite64, "pwrite64", int fd, void const* buf, size_t n, off_t off) { return sim_pwrite(fd, buf, n, off); }

DEF(ssize_t, sim_writev, "writev", int fd, struct iovec const* v, int n)
{
	REAL(ssize_t, writev, int, struct iovec const*, int);
	if (fd < k::FD_BASE) return real_writev(fd, v, n);
	std::string all;
	for (int i = 0; i < n; ++i) all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
	return ret(k::write(fd, all.data(), all.size()));
}

DEF(ssize_t, sim_readv, "readv", int fd, struct iovec const* v, int n)
{
	REAL(ssize_t, readv, int, struct iovec const*, int);
	if (fd < k::FD_BASE) return real_readv(fd, v, n);
	ssize_t total = 0;
	for (int i = 0; i < n; ++i) {
		auto r = k::read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) {
			if (total) return total;
			errno = int(-r);
			return -1;
		}
		total += r;
		if (size_t(r) < v[i].iov_len) break;
	}
	return total;
}

DEF(off_t, sim_lseek, "lseek", int fd, off_t off, int whence)
{
	REAL(off_t, lseek, int, off_t, int);
	if (fd >= k::FD_BASE) return ret(k::lseek(fd, off, whence));
	return real_lseek(fd, off, whence);
}
DEF(off_t, sim_lseek64, "lseek64", int fd, off_t off, int whence) { return sim_lseek(fd, off, whence); }

DEF(int, sim_ftruncate, "ftruncate", int fd, off_t len)
{
	REAL(int, ftruncate, int, off_t);
	if (fd >= k::FD_BASE) return ret(k::ftruncate(fd, len));
	if (blocked("ftruncate", "fd")) return -1;
	return real_ftruncate(fd, len);
}
DEF(int, sim_ftruncate64, "ftruncate64", int fd, off_t len) { return sim_ftruncate(fd, len); }

DEF(int, sim_truncate, "truncate", char const* path, off_t len)
{
	REAL(int, truncate, char const*, off_t);
	if (k::is_path(AT_FDCWD, path)) return ret(k::truncate(path, len));
	if (blocked("truncate", path)) return -1;
	return real_truncate(path, len);
}
DEF(int, sim_truncate64, "truncate64", char const* path, off_t len) { return sim_truncate(path, len); }

DEF(int, sim_fsync, "fsync", int fd)
{
	REAL(int, fsync, int);
	if (fd >= k::FD_BASE) return ret(k::sync(fd));
	return real_fsync(fd);
}
DEF(int, sim_fdatasync, "fdatasync", int fd)
{
	REAL(int, fdatasync, int);
	if (fd >= k::FD_BASE) return ret(k::sync(fd));
	return real_fdatasync(fd);
}

DEF(int, sim_posix_fadvise, "posix_fadvise", int fd, off_t a, off_t b, int c)
{
	REAL(int, posix_fadvise, int, off_t, off_t, int);
	if (fd >= k::FD_BASE) return 0;
	return real_posix_fadvise(fd, a, b, c);
}
DEF(int, sim_posix_fadvise64, "posix_fadvise64", int fd, off_t a, off_t b, int c) { return sim_posix_fadvise(fd, a, b, c); }

// a mapping is a copy of the file at that moment
DEF(void*, sim_mmap, "mmap", void* at, size_t n, int prot, int flags, int fd, off_t off)
{
	if (fd < k::FD_BASE) return reinterpret_cast<void*>(::syscall(SYS_mmap, at, n, prot, flags, fd, off));
	if ((flags & MAP_SHARED) && (prot & PROT_WRITE)) {
		errno = ENODEV;
		return MAP_FAILED;
	}
	if (!k::is_fd(fd)) {
		errno = EBADF;
		return MAP_FAILED;
	}
	auto p = reinterpret_cast<char*>(::syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	if (p == MAP_FAILED) return p;
	Pause pause;
	for (size_t done = 0; done < n; ) {
		auto r = k::read(fd, p + done, n - done, int64_t(off) + int64_t(done));
		if (r <= 0) break;
		done += size_t(r);
	}
	return p;
}
DEF(void*, sim_mmap64, "mmap64", void* at, size_t n, int prot, int flags, int fd, off_t off) { return sim_mmap(at, n, prot, flags, fd, off); }

DEF(int, sim_posix_fallocate, "posix_fallocate", int fd, off_t off, off_t len)
{
	REAL(int, posix_fallocate, int, off_t, off_t);
	if (fd >= k::FD_BASE) {
		k::StatInfo st;
		auto r = k::fstat(fd, st);
		if (r < 0) return -r;
		return off + len > off_t(st.size) ? -k::ftruncate(fd, off + len) : 0;
	}
	if (blocked("posix_fallocate", "fd")) return EACCES;
	return real_posix_fallocate(fd, off, len);
}
DEF(int, sim_posix_fallocate64, "posix_fallocate64", int fd, off_t off, off_t len) { return sim_posix_fallocate(fd, off, len); }
DEF(int, sim_fallocate, "fallocate", int fd, int mode, off_t off, off_t len)
{
	REAL(int, fallocate, int, int, off_t, off_t);
	if (fd >= k::FD_BASE) {
		if (mode) { errno = EOPNOTSUPP; return -1; }
		return ret(-sim_posix_fallocate(fd, off, len));
	}
	if (blocked("fallocate", "fd")) return -1;
	return real_fallocate(fd, mode, off, len);
}
DEF(int, sim_fallocate64, "fallocate64", int fd, int mode, off_t off, off_t len) { return sim_fallocate(fd, mode, off, len); }

// the first name which is free
static int make_temporary(char* pattern, size_t suffix, int flags)
{
	auto const n = strlen(pattern);
	if (n < 6 + suffix || strncmp(pattern + n - suffix - 6, "XXXXXX", 6)) { errno = EINVAL; return -1; }
	for (int i = 0; i < 1000; ++i) {
		char name[16];
		snprintf(name, sizeof(name), "tmp%03d", i);
		memcpy(pattern + n - suffix - 6, name, 6);
		auto const fd = do_open(AT_FDCWD, pattern, flags | O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd >= 0 || errno != EEXIST) return fd;
	}
	errno = EEXIST;
	return -1;
}
DEF(int, sim_mkstemp, "mkstemp", char* p) { return make_temporary(p, 0, 0); }
DEF(int, sim_mkstemp64, "mkstemp64", char* p) { return make_temporary(p, 0, 0); }
DEF(int, sim_mkostemp, "mkostemp", char* p, int flags) { return make_temporary(p, 0, flags); }
DEF(int, sim_mkstemps, "mkstemps", char* p, int suffix) { return make_temporary(p, size_t(suffix), 0); }

static ssize_t copy_range(int in, off_t* in_off, int out, off_t* out_off, size_t n)
{
	char buf[65536];
	n = std::min(n, sizeof(buf));
	auto r = k::read(in, buf, n, in_off ? *in_off : -1);
	if (r <= 0) return ret(r);
	ssize_t w = k::write(out, buf, size_t(r), out_off ? *out_off : -1);
	if (w < 0) {
		if (!in_off) { Pause p; k::lseek(in, -r, SEEK_CUR); }
		return ret(w);
	}
	if (!in_off && w < r) { Pause p; k::lseek(in, w - r, SEEK_CUR); }
	if (in_off) *in_off += w;
	if (out_off) *out_off += w;
	return w;
}

DEF(ssize_t, sim_sendfile, "sendfile", int out, int in, off_t* off, size_t n)
{
	REAL(ssize_t, sendfile, int, int, off_t*, size_t);
	if (in >= k::FD_BASE && out >= k::FD_BASE) return copy_range(in, off, out, nullptr, n);
	if (in >= k::FD_BASE || out >= k::FD_BASE) { errno = EINVAL; return -1; }
	return real_sendfile(out, in, off, n);
}
DEF(ssize_t, sim_sendfile64, "sendfile64", int out, int in, off_t* off, size_t n) { return sim_sendfile(out, in, off, n); }

DEF(ssize_t, sim_copy_file_range, "copy_file_range", int in, off_t* in_off, int out, off_t* out_off, size_t n, unsigned flags)
{
	REAL(ssize_t, copy_file_range, int, off_t*, int, off_t*, size_t, unsigned);
	if (in >= k::FD_BASE && out >= k::FD_BASE) return copy_range(in, in_off, out, out_off, n);
	if (in >= k::FD_BASE || out >= k::FD_BASE) { errno = EXDEV; return -1; }
	return real_copy_file_range(in, in_off, out, out_off, n, flags);
}

DEF(int, sim_fcntl, "fcntl", int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (fd >= k::FD_BASE) {
		if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return ret(k::dup(fd));
		if (cmd == F_GETFL) return O_RDWR;
		return 0;
	}
	return int(::syscall(SYS_fcntl, fd, cmd, arg));
}
DEF(int, sim_fcntl64, "fcntl64", int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, arg);
}

DEF(int, sim_ioctl, "ioctl", int fd, unsigned long req, ...)
{
	va_list ap;
	va_start(ap, req);
	long arg = va_arg(ap, long);
	va_end(ap);
	if (fd >= k::FD_BASE) {
		errno = ENOTTY;
		return -1;
	}
	return int(::syscall(SYS_ioctl, fd, req, arg));
}

DEF(int, sim_flock, "flock", int fd, int op)
{
	REAL(int, flock, int, int);
	if (fd >= k::FD_BASE) return 0;
	return real_flock(fd, op);
}

DEF(int, sim_isatty, "isatty", int fd)
{
	REAL(int, isatty, int);
	if (fd >= k::FD_BASE) { errno = ENOTTY; return 0; }
	return real_isatty(fd);
}

// ---------------------------------------------------------------- stat family

static unsigned type_bits(Type t)
{
	return t == Type::DIR ? S_IFDIR : t == Type::LINK ? S_IFLNK : S_IFREG;
}

static void fill(struct stat* b, k::StatInfo const& s)
{
	memset(b, 0, sizeof(*b));
	b->st_dev = 77;
	b->st_ino = s.ino;
	b->st_mode = type_bits(s.type) | s.mode;
	b->st_nlink = nlink_t(s.nlink);
	b->st_size = off_t(s.size);
	b->st_blksize = 4096;
	b->st_blocks = blkcnt_t((s.size + 511) / 512);
	b->st_mtim.tv_sec = b->st_atim.tv_sec = b->st_ctim.tv_sec = s.mtime;
}

static int do_stat(int dirfd, char const* path, struct stat* b, int flags)
{
	if ((flags & AT_EMPTY_PATH) && path && !*path && dirfd >= k::FD_BASE) {
		k::StatInfo s;
		auto r = k::fstat(dirfd, s);
		if (r < 0) return ret(r);
		fill(b, s);
		return 0;
	}
	if (k::is_path(dirfd, path)) {
		k::StatInfo s;
		auto r = k::stat(dirfd, path, !(flags & AT_SYMLINK_NOFOLLOW), s);
		if (r < 0) return ret(r);
		fill(b, s);
		return 0;
	}
	return int(::syscall(SYS_newfstatat, dirfd, path, b, flags));
}

static int do_fstat(int fd, struct stat* b)
{
	if (fd >= k::FD_BASE) {
		k::StatInfo s;
		auto r = k::fstat(fd, s);
		if (r < 0) return ret(r);
		fill(b, s);
		return 0;
	}
	return int(::syscall(SYS_fstat, fd, b));
}

DEF(int, sim_stat, "stat", char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, 0); }
DEF(int, sim_stat64, "stat64", char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, 0); }
DEF(int, sim_lstat, "lstat", char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
DEF(int, sim_lstat64, "lstat64", char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
DEF(int, sim_fstat, "fstat", int fd, struct stat* b) { return do_fstat(fd, b); }
DEF(int, sim_fstat64, "fstat64", int fd, struct stat* b) { return do_fstat(fd, b); }
DEF(int, sim_fstatat, "fstatat", int d, char const* p, struct stat* b, int f) { return do_stat(d, p, b, f); }
DEF(int, sim_fstatat64, "fstatat64", int d, char const* p, struct stat* b, int f) { return do_stat(d, p, b, f); }
DEF(int, sim_xstat, "__xstat", int, char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, 0); }
DEF(int, sim_xstat64, "__xstat64", int, char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, 0); }
DEF(int, sim_lxstat, "__lxstat", int, char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
DEF(int, sim_lxstat64, "__lxstat64", int, char const* p, struct stat* b) { return do_stat(AT_FDCWD, p, b, AT_SYMLINK_NOFOLLOW); }
DEF(int, sim_fxstat, "__fxstat", int, int fd, struct stat* b) { return do_fstat(fd, b); }
DEF(int, sim_fxstat64, "__fxstat64", int, int fd, struct stat* b) { return do_fstat(fd, b); }

DEF(int, sim_statx, "statx", int dirfd, char const* path, int flags, unsigned mask, struct statx* x)
{
	bool const here = path && !*path && (flags & AT_EMPTY_PATH) && dirfd >= k::FD_BASE;
	if (!here && !k::is_path(dirfd, path)) {
		return int(::syscall(SYS_statx, dirfd, path, flags, mask, x));
	}
	struct stat b;
	int r = do_stat(dirfd, path, &b, flags);
	if (r < 0) return r;
	memset(x, 0, sizeof(*x));
	x->stx_mask = STATX_BASIC_STATS | STATX_BTIME;
	x->stx_blksize = 4096;
	x->stx_nlink = unsigned(b.st_nlink);
	x->stx_mode = (unsigned short)(b.st_mode);
	x->stx_ino = b.st_ino;
	x->stx_size = uint64_t(b.st_size);
	x->stx_blocks = uint64_t(b.st_blocks);
	x->stx_mtime.tv_sec = x->stx_atime.tv_sec = x->stx_ctime.tv_sec = x->stx_btime.tv_sec = b.st_mtim.tv_sec;
	x->stx_dev_major = 0;
	x->stx_dev_minor = 77;
	return 0;
}

DEF(int, sim_access, "access", char const* p, int m)
{
	REAL(int, access, char const*, int);
	if (k::is_path(AT_FDCWD, p)) return ret(k::access(AT_FDCWD, p));
	return real_access(p, m);
}
DEF(int, sim_faccessat, "faccessat", int d, char const* p, int m, int f)
{
	REAL(int, faccessat, int, char const*, int, int);
	if (k::is_path(d, p)) return ret(k::access(d, p));
	return real_faccessat(d, p, m, f);
}

static void fill_vfs(struct statvfs* b, uint64_t total, uint64_t avail)
{
	memset(b, 0, sizeof(*b));
	b->f_bsize = b->f_frsize = 1;
	b->f_blocks = total;
	b->f_bfree = b->f_bavail = avail;
	b->f_namemax = 255;
}

DEF(int, sim_statvfs, "statvfs", char const* p, struct statvfs* b)
{
	REAL(int, statvfs, char const*, struct statvfs*);
	if (!k::is_path(AT_FDCWD, p)) return real_statvfs(p, b);
	uint64_t t = 0, a = 0;
	auto r = k::statvfs(p, t, a);
	if (r < 0) return ret(r);
	fill_vfs(b, t, a);
	return 0;
}
DEF(int, sim_statvfs64, "statvfs64", char const* p, struct statvfs* b) { return sim_statvfs(p, b); }

DEF(int, sim_fstatfs, "fstatfs", int fd, struct statfs* b)
{
	REAL(int, fstatfs, int, struct statfs*);
	if (fd < k::FD_BASE) return real_fstatfs(fd, b);
	memset(b, 0, sizeof(*b));
	b->f_type = 0xEF53;
	b->f_bsize = 4096;
	return 0;
}
DEF(int, sim_fstatfs64, "fstatfs64", int fd, struct statfs* b) { return sim_fstatfs(fd, b); }

// ---------------------------------------------------------------- names

DEF(int, sim_mkdir, "mkdir", char const* p, mode_t m)
{
	REAL(int, mkdir, char const*, mode_t);
	if (k::is_path(AT_FDCWD, p)) return ret(k::mkdir(AT_FDCWD, p, m));
	if (blocked("mkdir", p)) return -1;
	return real_mkdir(p, m);
}
DEF(int, sim_mkdirat, "mkdirat", int d, char const* p, mode_t m)
{
	REAL(int, mkdirat, int, char const*, mode_t);
	if (k::is_path(d, p)) return ret(k::mkdir(d, p, m));
	if (blocked("mkdirat", p)) return -1;
	return real_mkdirat(d, p, m);
}
DEF(int, sim_rmdir, "rmdir", char const* p)
{
	REAL(int, rmdir, char const*);
	if (k::is_path(AT_FDCWD, p)) return ret(k::rmdir(AT_FDCWD, p));
	if (blocked("rmdir", p)) return -1;
	return real_rmdir(p);
}
DEF(int, sim_unlink, "unlink", char const* p)
{
	REAL(int, unlink, char const*);
	if (k::is_path(AT_FDCWD, p)) return ret(k::unlink(AT_FDCWD, p));
	if (blocked("unlink", p)) return -1;
	return real_unlink(p);
}
DEF(int, sim_unlinkat, "unlinkat", int d, char const* p, int f)
{
	REAL(int, unlinkat, int, char const*, int);
	if (k::is_path(d, p)) return ret((f & AT_REMOVEDIR) ? k::rmdir(d, p) : k::unlink(d, p));
	if (blocked("unlinkat", p)) return -1;
	return real_unlinkat(d, p, f);
}
DEF(int, sim_remove, "remove", char const* p)
{
	REAL(int, remove, char const*);
	if (k::is_path(AT_FDCWD, p)) {
		auto r = k::unlink(AT_FDCWD, p);
		if (r == -EISDIR) r = k::rmdir(AT_FDCWD, p);
		return ret(r);
	}
	if (blocked("remove", p)) return -1;
	return real_remove(p);
}
DEF(int, sim_rename, "rename", char const* a, char const* b)
{
	REAL(int, rename, char const*, char const*);
	bool const sa = k::is_path(AT_FDCWD, a), sb = k::is_path(AT_FDCWD, b);
	if (sa && sb) return ret(k::rename(AT_FDCWD, a, AT_FDCWD, b));
	if (sa || sb) { errno = EXDEV; return -1; }
	if (blocked("rename", a)) return -1;
	return real_rename(a, b);
}
DEF(int, sim_renameat2, "renameat2", int da, char const* a, int db, char const* b, unsigned flags)
{
	REAL(int, renameat2, int, char const*, int, char const*, unsigned);
	bool const sa = k::is_path(da, a), sb = k::is_path(db, b);
	if (sa && sb) return ret(k::rename(da, a, db, b, flags & 1));
	if (sa || sb) { errno = EXDEV; return -1; }
	if (blocked("rename", a)) return -1;
	return real_renameat2(da, a, db, b, flags);
}
DEF(int, sim_renameat, "renameat", int da, char const* a, int db, char const* b) { return sim_renameat2(da, a, db, b, 0); }
DEF(int, sim_link, "link", char const* a, char const* b)
{
	REAL(int, link, char const*, char const*);
	bool const sa = k::is_path(AT_FDCWD, a), sb = k::is_path(AT_FDCWD, b);
	if (sa && sb) return ret(k::link(AT_FDCWD, a, AT_FDCWD, b));
	if (sa || sb) { errno = EXDEV; return -1; }
	if (blocked("link", b)) return -1;
	return real_link(a, b);
}
DEF(int, sim_linkat, "linkat", int da, char const* a, int db, char const* b, int f)
{
	REAL(int, linkat, int, char const*, int, char const*, int);
	bool const sa = k::is_path(da, a), sb = k::is_path(db, b);
	if (sa && sb) return ret(k::link(da, a, db, b));
	if (sa || sb) { errno = EXDEV; return -1; }
	if (blocked("linkat", b)) return -1;
	return real_linkat(da, a, db, b, f);
}
DEF(int, sim_symlink, "symlink", char const* t, char const* p)
{
	REAL(int, symlink, char const*, char const*);
	if (k::is_path(AT_FDCWD, p)) return ret(k::symlink(t, AT_FDCWD, p));
	if (blocked("symlink", p)) return -1;
	return real_symlink(t, p);
}
DEF(int, sim_symlinkat, "symlinkat", char const* t, int d, char const* p)
{
	REAL(int, symlinkat, char const*, int, char const*);
	if (k::is_path(d, p)) return ret(k::symlink(t, d, p));
	if (blocked("symlinkat", p)) return -1;
	return real_symlinkat(t, d, p);
}

static ssize_t do_readlink(int d, char const* p, char* buf, size_t n)
{
	k::Quiet quiet;
	std::string s;
	auto r = k::readlink(d, p, s);
	if (r < 0) return ret(r);
	size_t c = std::min(n, s.size());
	memcpy(buf, s.data(), c);
	return ssize_t(c);
}
DEF(ssize_t, sim_readlink, "readlink", char const* p, char* buf, size_t n)
{
	REAL(ssize_t, readlink, char const*, char*, size_t);
	if (k::is_path(AT_FDCWD, p)) return do_readlink(AT_FDCWD, p, buf, n);
	return real_readlink(p, buf, n);
}
DEF(ssize_t, sim_readlink_chk, "__readlink_chk", char const* p, char* buf, size_t n, size_t) { return sim_readlink(p, buf, n); }
DEF(ssize_t, sim_readlinkat, "readlinkat", int d, char const* p, char* buf, size_t n)
{
	REAL(ssize_t, readlinkat, int, char const*, char*, size_t);
	if (k::is_path(d, p)) return do_readlink(d, p, buf, n);
	return real_readlinkat(d, p, buf, n);
}

DEF(int, sim_chmod, "chmod", char const* p, mode_t m)
{
	REAL(int, chmod, char const*, mode_t);
	if (k::is_path(AT_FDCWD, p)) return ret(k::chmod(AT_FDCWD, p, m));
	if (blocked("chmod", p)) return -1;
	return real_chmod(p, m);
}
DEF(int, sim_fchmod, "fchmod", int fd, mode_t m)
{
	REAL(int, fchmod, int, mode_t);
	if (fd >= k::FD_BASE) return ret(k::fchmod(fd, m));
	if (blocked("fchmod", "fd")) return -1;
	return real_fchmod(fd, m);
}
DEF(int, sim_fchmodat, "fchmodat", int d, char const* p, mode_t m, int f)
{
	REAL(int, fchmodat, int, char const*, mode_t, int);
	if (k::is_path(d, p)) return ret(k::chmod(d, p, m));
	if (blocked("fchmodat", p)) return -1;
	return real_fchmodat(d, p, m, f);
}
DEF(int, sim_chown, "chown", char const* p, uid_t u, gid_t g)
{
	REAL(int, chown, char const*, uid_t, gid_t);
	if (k::is_path(AT_FDCWD, p)) return 0;
	if (blocked("chown", p)) return -1;
	return real_chown(p, u, g);
}
DEF(int, sim_utimensat, "utimensat", int d, char const* p, struct timespec const t[2], int f)
{
	REAL(int, utimensat, int, char const*, struct timespec const*, int);
	if (p && k::is_path(d, p)) return ret(k::utime(d, p, t ? t[1].tv_sec : clock_now() / 1000000000));
	if (blocked("utimensat", p)) return -1;
	return real_utimensat(d, p, t, f);
}
DEF(int, sim_futimens, "futimens", int fd, struct timespec const t[2])
{
	REAL(int, futimens, int, struct timespec const*);
	if (fd >= k::FD_BASE) return 0;
	return real_futimens(fd, t);
}

// ---------------------------------------------------------------- directories

struct SimDir {
	int fd;
	std::vector<k::DirEntry> entries;
	size_t pos = 0;
	struct dirent64 buf;
};

static std::unordered_set<void*>* g_dirs;
static bool is_dir(void* d) { return g_dirs && g_dirs->count(d); }

static DIR* make_dir(int fd)
{
	k::Quiet quiet;
	auto s = new SimDir;
	s->fd = fd;
	auto r = k::list(fd, s->entries);
	if (r < 0) {
		delete s;
		errno = -r;
		return nullptr;
	}
	if (!g_dirs) g_dirs = new std::unordered_set<void*>;
	g_dirs->insert(s);
	return reinterpret_cast<DIR*>(s);
}

DEF(DIR*, sim_opendir, "opendir", char const* p)
{
	REAL(DIR*, opendir, char const*);
	if (!k::is_path(AT_FDCWD, p)) return real_opendir(p);
	auto fd = k::open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY, 0);
	if (fd < 0) {
		errno = -fd;
		return nullptr;
	}
	auto d = make_dir(fd);
	if (!d) {
		int e = errno;
		k::close(fd);
		errno = e;
	}
	return d;
}
DEF(DIR*, sim_fdopendir, "fdopendir", int fd)
{
	REAL(DIR*, fdopendir, int);
	if (fd < k::FD_BASE) return real_fdopendir(fd);
	return make_dir(fd);
}
DEF(struct dirent64*, sim_readdir64, "readdir64", DIR* d)
{
	REAL(struct dirent64*, readdir64, DIR*);
	if (!is_dir(d)) return real_readdir64(d);
	auto s = reinterpret_cast<SimDir*>(d);
	auto r = k::readdir_step(s->fd);
	if (r < 0) {
		errno = -r;
		return nullptr;
	}
	if (s->pos >= s->entries.size()) return nullptr;
	auto const& e = s->entries[s->pos++];
	memset(&s->buf, 0, sizeof(s->buf));
	s->buf.d_ino = e.ino;
	s->buf.d_off = off_t(s->pos);
	s->buf.d_type = e.type == Type::DIR ? DT_DIR : e.type == Type::LINK ? DT_LNK : DT_REG;
	s->buf.d_reclen = sizeof(s->buf);
	strncpy(s->buf.d_name, e.name.c_str(), sizeof(s->buf.d_name) - 1);
	return &s->buf;
}
DEF(struct dirent*, sim_readdir, "readdir", DIR* d)
{
	return reinterpret_cast<struct dirent*>(sim_readdir64(d));
}
DEF(int, sim_closedir, "closedir", DIR* d)
{
	REAL(int, closedir, DIR*);
	if (!is_dir(d)) return real_closedir(d);
	auto s = reinterpret_cast<SimDir*>(d);
	g_dirs->erase(d);
	int fd = s->fd;
	delete s;
	return ret(k::close(fd));
}
DEF(int, sim_dirfd, "dirfd", DIR* d)
{
	REAL(int, dirfd, DIR*);
	if (!is_dir(d)) return real_dirfd(d);
	return reinterpret_cast<SimDir*>(d)->fd;
}
DEF(void, sim_rewinddir, "rewinddir", DIR* d)
{
	REAL(void, rewinddir, DIR*);
	if (!is_dir(d)) { real_rewinddir(d); return; }
	auto s = reinterpret_cast<SimDir*>(d);
	s->pos = 0;
	k::list(s->fd, s->entries);
}

// ---------------------------------------------------------------- cwd

DEF(int, sim_chdir, "chdir", char const* p)
{
	REAL(int, chdir, char const*);
	if (k::is_path(AT_FDCWD, p)) return ret(k::chdir(p));
	auto r = real_chdir(p);
	if (r == 0) set_sim_cwd("");
	return r;
}
DEF(char*, sim_getcwd, "getcwd", char* buf, size_t n)
{
	k::Quiet quiet;
	REAL(char*, getcwd, char*, size_t);
	if (sim_cwd().empty()) return real_getcwd(buf, n);
	std::string s;
	auto r = k::getcwd(s);
	if (r < 0) {
		errno = -r;
		return nullptr;
	}
	if (buf && s.size() + 1 > n) {
		errno = ERANGE;
		return nullptr;
	}
	if (!buf) buf = static_cast<char*>(malloc(std::max(n, s.size() + 1)));
	strcpy(buf, s.c_str());
	return buf;
}
DEF(char*, sim_getcwd_chk, "__getcwd_chk", char* buf, size_t n, size_t) { return sim_getcwd(buf, n); }
DEF(char*, sim_get_current_dir_name, "get_current_dir_name", void) { return sim_getcwd(nullptr, 0); }

DEF(char*, sim_realpath, "realpath", char const* p, char* out)
{
	k::Quiet quiet;
	REAL(char*, realpath, char const*, char*);
	if (!k::is_path(AT_FDCWD, p)) return real_realpath(p, out);
	std::string s;
	auto r = k::realpath(p, s);
	if (r < 0) {
		errno = -r;
		return nullptr;
	}
	if (!out) out = static_cast<char*>(malloc(PATH_MAX));
	strcpy(out, s.c_str());
	return out;
}
DEF(char*, sim_realpath_chk, "__realpath_chk", char const* p, char* out, size_t) { return sim_realpath(p, out); }

// ---------------------------------------------------------------- processes

DEF(int, sim_system, "system", char const* cmd)
{
	if (!cmd) return 1;
	return k::command(cmd);
}
DEF(FILE*, sim_popen, "popen", char const* cmd, char const*)
{
	k::refuse("popen", cmd);
	errno = ENOMEM;
	return nullptr;
}

// raw system calls made by other libraries
extern "C" long sim_syscall(long n, long a, long b, long c, long d, long e, long f) __asm__("syscall");
extern "C" __attribute__((visibility("default"))) long sim_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	typedef long (*F)(long, long, long, long, long, long, long);
	static F const real_syscall = real<F>("syscall");
	switch (n) {
	case SYS_copy_file_range:
		if (int(a) >= k::FD_BASE || int(c) >= k::FD_BASE) {
			return sim_copy_file_range(int(a), reinterpret_cast<off_t*>(b), int(c), reinterpret_cast<off_t*>(d), size_t(e), unsigned(f));
		}
		break;
	case SYS_renameat2:
		if (k::is_path(int(a), reinterpret_cast<char const*>(b)) || k::is_path(int(c), reinterpret_cast<char const*>(d))) {
			return sim_renameat2(int(a), reinterpret_cast<char const*>(b), int(c), reinterpret_cast<char const*>(d), unsigned(e));
		}
		break;
	case SYS_statx:
		if (k::is_path(int(a), reinterpret_cast<char const*>(b))) {
			return sim_statx(int(a), reinterpret_cast<char const*>(b), int(c), unsigned(d), reinterpret_cast<struct statx*>(e));
		}
		break;
	default:
		break;
	}
	return real_syscall(n, a, b, c, d, e, f);
}

// ---------------------------------------------------------------- time

DEF(time_t, sim_time, "time", time_t* t)
{
	time_t r;
	if (clock_enabled()) {
		r = clock_read() / 1000000000;
	} else {
		struct timespec ts;
		::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		r = ts.tv_sec;
	}
	if (t) *t = r;
	return r;
}

DEF(int, sim_gettimeofday, "gettimeofday", struct timeval* tv, void*)
{
	if (clock_enabled()) {
		auto n = clock_read();
		tv->tv_sec = n / 1000000000;
		tv->tv_usec = (n % 1000000000) / 1000;
		return 0;
	}
	struct timespec ts;
	::syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

DEF(int, sim_clock_gettime, "clock_gettime", clockid_t id, struct timespec* ts)
{
	if (clock_enabled()) {
		auto n = clock_read();
		ts->tv_sec = n / 1000000000;
		ts->tv_nsec = n % 1000000000;
		return 0;
	}
	return int(::syscall(SYS_clock_gettime, id, ts));
}

DEF(int, sim_timespec_get, "timespec_get", struct timespec* ts, int base)
{
	return sim_clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}

// ---------------------------------------------------------------- randomness

DEF(ssize_t, sim_getrandom, "getrandom", void* p, size_t n, unsigned)
{
	sim::random_bytes(p, n);
	return ssize_t(n);
}

// ---------------------------------------------------------------- memory

namespace sim { void (*on_alloc)(void*, size_t) = nullptr; void (*on_free)(void*) = nullptr; unsigned long long overruns = 0; }

// What follows a block is filled with a pattern which must be there still when
// it is freed; the last eight bytes hold its length.  New and freed memory is
// filled too, so that what is read from it is never right by chance.
static uint64_t const GUARD = 0xa5f1c39b6e2d8047ull;

static void* guarded(size_t n)
{
	if (n > SIZE_MAX / 2) return nullptr;
	auto p = static_cast<unsigned char*>(malloc(n + 16));
	if (!p) return nullptr;
	size_t const u = malloc_usable_size(p);
	// or the compiler holds it to what was asked for
	asm volatile("" : "+r"(p));
	memset(p, 0xa5, n < 16384 ? n : 16384);
	memset(p + n, 0xfd, u - 8 - n);
	uint64_t const length = n ^ GUARD;
	memcpy(p + u - 8, &length, 8);
	return p;
}

static void unguarded(void* v)
{
	auto p = static_cast<unsigned char*>(v);
	size_t const u = malloc_usable_size(p);
	uint64_t n;
	memcpy(&n, p + u - 8, 8);
	n ^= GUARD;
	if (n > u - 16) {
		sim::overruns++;
		n = 0;
	} else {
		for (size_t i = n; i < u - 8; ++i) {
			if (p[i] != 0xfd) {
				sim::overruns++;
				break;
			}
		}
	}
	memset(p, 0xdd, n < 16384 ? n : 16384);
	free(p);
}

void* operator new(size_t n)
{
	bool fail;
	k::maybe_fail_alloc(fail);
	if (fail) throw std::bad_alloc();
	void* p = guarded(n);
	if (!p) throw std::bad_alloc();
	if (sim::on_alloc) sim::on_alloc(p, n);
	return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept
{
	bool fail;
	k::maybe_fail_alloc(fail);
	if (fail) return nullptr;
	void* p = guarded(n);
	if (p && sim::on_alloc) sim::on_alloc(p, n);
	return p;
}
void* operator new[](size_t n, std::nothrow_t const& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept
{
	if (!p) return;
	if (sim::on_free) sim::on_free(p);
	unguarded(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---------------------------------------------------------------- driver files

namespace sim {

bool real_write_file(std::string const& path, std::string const& content)
{
	// this process may be killed at any time, and then the file is there in full or not at all
	auto const temp = path + ".part";
	int fd = int(::syscall(SYS_openat, AT_FDCWD, temp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644));
	if (fd < 0) return false;
	size_t done = 0;
	while (done < content.size()) {
		auto r = ::syscall(SYS_write, fd, content.data() + done, content.size() - done);
		if (r <= 0) break;
		done += size_t(r);
	}
	::syscall(SYS_close, fd);
	return done == content.size() && ::syscall(SYS_renameat, AT_FDCWD, temp.c_str(), AT_FDCWD, path.c_str()) == 0;
}

std::string real_read_file(std::string const& path)
{
	std::string s;
	int fd = int(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0));
	if (fd < 0) return s;
	char buf[65536];
	long r;
	while ((r = ::syscall(SYS_read, fd, buf, sizeof(buf))) > 0) s.append(buf, size_t(r));
	::syscall(SYS_close, fd);
	return s;
}

}
