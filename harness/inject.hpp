// Fault injection at the libc boundary (linked with -Wl,--wrap=...). Only active while inj::on; never changes arguments except by shortening transfers.
#pragma once
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <dirent.h>
#include <unistd.h>
#include <atomic>
#include "common.hpp"
namespace inj {
static bool on; static vf::Rng g(1); static int pInt, pShort; // 1/p chances, 0 = never
static int failIn = -1, failErr = EIO; static uint64_t mask; // failIn counts down over calls whose kind is in mask
static uint64_t nInt, nShort, nFail; static std::atomic<uint64_t> badClose; enum { Read = 1, Write = 2, Open = 4, Close = 8, Stat = 16, Seek = 32, Sync = 64, Map = 128, Dir = 256 };
inline void arm(uint64_t seed, int pi, int ps) { g = vf::Rng(seed); pInt = pi; pShort = ps; failIn = -1; on = true; }
inline void fail(uint64_t m, int after, int e) { mask = m; failIn = after; failErr = e; }
inline void off() { on = false; failIn = -1; }
inline bool hit(uint64_t k) { if (!on || !(mask & k) || failIn < 0) return false; if (failIn-- > 0) return false; nFail++; errno = failErr; return true; }
inline bool intr() { if (!on || !pInt || !g.chance(1, pInt)) return false; nInt++; errno = EINTR; return true; }
inline size_t cut(size_t n) { if (!on || !pShort || n < 2 || !g.chance(1, pShort)) return n; nShort++; return 1 + g.below(n - 1); }
static int fdCount() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
} // inj
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_fdatasync(int); int __real_fsync(int); int __real_open64(const char *, int, ...); int __real_open(const char *, int, ...); int __real_fstat64(int, struct stat64 *); int __real_fstat(int, struct stat *); off64_t __real_lseek64(int, off64_t, int); off_t __real_lseek(int, off_t, int); void *__real_mmap64(void *, size_t, int, int, int, off64_t); void *__real_mmap(void *, size_t, int, int, int, off_t); struct dirent64 *__real_readdir64(DIR *); struct dirent *__real_readdir(DIR *);
ssize_t __wrap_read(int fd, void *p, size_t n) { if (inj::intr() || inj::hit(inj::Read)) return -1; return __real_read(fd, p, inj::cut(n)); }
ssize_t __wrap_write(int fd, const void *p, size_t n) { if (inj::intr() || inj::hit(inj::Write)) return -1; return __real_write(fd, p, inj::cut(n)); }
int __wrap_close(int fd) { bool f = inj::hit(inj::Close); int e = errno, r = __real_close(fd); if (r < 0 && errno == EBADF) inj::badClose++; if (f) { errno = e; return -1; } return r; }
int __wrap_fdatasync(int fd) { if (inj::hit(inj::Sync)) return -1; return inj::on ? 0 : __real_fdatasync(fd); }
int __wrap_fsync(int fd) { if (inj::hit(inj::Sync)) return -1; return inj::on ? 0 : __real_fsync(fd); }
int __wrap_open64(const char *n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (inj::hit(inj::Open)) return -1; return __real_open64(n, f, m); }
int __wrap_open(const char *n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (inj::hit(inj::Open)) return -1; return __real_open64(n, f, m); }
int __wrap_fstat64(int fd, struct stat64 *s) { if (inj::hit(inj::Stat)) { int e = errno; __real_fstat64(fd, s); errno = e; return -1; } return __real_fstat64(fd, s); }
int __wrap_fstat(int fd, struct stat *s) { if (inj::hit(inj::Stat)) { int e = errno; __real_fstat64(fd, (struct stat64 *)s); errno = e; return -1; } return __real_fstat64(fd, (struct stat64 *)s); }
off64_t __wrap_lseek64(int fd, off64_t o, int w) { if (inj::hit(inj::Seek)) return -1; return __real_lseek64(fd, o, w); }
off_t __wrap_lseek(int fd, off_t o, int w) { if (inj::hit(inj::Seek)) return -1; return __real_lseek64(fd, o, w); }
void *__wrap_mmap64(void *p, size_t n, int a, int b, int fd, off64_t o) { if (inj::hit(inj::Map)) return MAP_FAILED; return __real_mmap64(p, n, a, b, fd, o); }
void *__wrap_mmap(void *p, size_t n, int a, int b, int fd, off_t o) { if (inj::hit(inj::Map)) return MAP_FAILED; return __real_mmap64(p, n, a, b, fd, o); }
struct dirent64 *__wrap_readdir64(DIR *d) { if (inj::hit(inj::Dir)) return 0; return __real_readdir64(d); }
struct dirent *__wrap_readdir(DIR *d) { if (inj::hit(inj::Dir)) return 0; return (struct dirent *)__real_readdir64(d); }
}
