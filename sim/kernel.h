// Internal interface between the simulated kernel and the libc layer.
#pragma once
#include "sim.h"
#include <sys/types.h>

namespace sim {
namespace k {

static int const FD_BASE = 1 << 20;

struct OpenFile {
	int fd;
	uint64_t ino;
	uint64_t offset = 0;
	int flags = 0;
	std::string path;
	int opened_at = -1;
	int refs = 1;
	// state of the file before the last write, for a close which loses it
	Bytes undo;
	bool has_undo = false;
};

struct StatInfo { Type type; uint64_t size; int nlink; int64_t mtime; uint64_t ino; unsigned mode; };
struct DirEntry { std::string name; uint64_t ino; Type type; };

bool is_fd(int fd);
bool is_path(int dirfd, char const* path);
std::string absolute(int dirfd, char const* path);

// all return >= 0 or -errno
int open(int dirfd, char const* path, int flags, unsigned mode);
int close(int fd);
int dup(int fd);
ssize_t read(int fd, void* buf, size_t n, int64_t at = -1);
ssize_t write(int fd, void const* buf, size_t n, int64_t at = -1);
int64_t lseek(int fd, int64_t off, int whence);
int stat(int dirfd, char const* path, bool follow, StatInfo& st);
int fstat(int fd, StatInfo& st);
int access(int dirfd, char const* path);
int mkdir(int dirfd, char const* path, unsigned mode);
int rmdir(int dirfd, char const* path);
int unlink(int dirfd, char const* path);
int rename(int fromdir, char const* from, int todir, char const* to, bool noreplace = false);
int link(int fromdir, char const* from, int todir, char const* to);
int symlink(char const* target, int dirfd, char const* path);
int readlink(int dirfd, char const* path, std::string& out);
int truncate(char const* path, int64_t len);
int ftruncate(int fd, int64_t len);
int chmod(int dirfd, char const* path, unsigned mode);
int fchmod(int fd, unsigned mode);
int utime(int dirfd, char const* path, int64_t mtime);
int sync(int fd);
int statvfs(char const* path, uint64_t& total, uint64_t& avail);
int list(int fd, std::vector<DirEntry>& out);
int readdir_step(int fd);                              // counted as READDIR; 0 or -errno
int chdir(char const* path);
int getcwd(std::string& out);
int realpath(char const* path, std::string& out);
int command(char const* cmd);
void refuse(char const* what, char const* path);
bool sandboxed();
void maybe_fail_alloc(bool& fail);
// allocations made while one of these lives are the simulator's own
extern int quiet_depth;
struct Quiet { Quiet() { ++quiet_depth; } ~Quiet() { --quiet_depth; } };
void set_sandboxed(bool s);

}
}
