// Interposed OS layer: simulated clock, and file operations that pass through to a scratch
// directory under a fault plan. Only active while code under test is executing (rt::sut).
#include "rt.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace rt {
OsPlan os_plan; OsStats os_stats; std::vector<std::string> os_log; bool os_log_on = false;
static Rng orng(1); static bool oinit = false; static double clk_off = 0; static Rng crng(1); static uint64_t creads = 0;
static std::map<int, std::string>* fds;
static Rng& R(){ if (!oinit){ orng = Rng(os_plan.seed * 31 + 5); oinit = true; fds = new std::map<int, std::string>; } return orng; }

double sim_clock(){ // simulated wall clock: advances with executed accesses, jumps both ways
    stats.clock_reads++;
    double t = 1.7e9 + stats.steps * 1e-8 + (++creads) * 1e-6;
    if (params.clock_jump > 0){ Rng r(params.sched_seed * 104729 + creads); if (r.flip(params.clock_jump)){ double m[] = {1e-3, 1, 3600, 1e6}; clk_off += (r.flip(0.5) ? 1 : -1) * m[r.below(4)] * r.uni(); stats.clock_jumps++; } }
    return t + clk_off;
}
static void note(const char* op, const std::string& what, long n = -1){
    if (os_log_on) os_log.push_back(std::string(op) + " " + what + (n >= 0 ? " " + std::to_string(n) : ""));
}
static bool crash_here(int when){ return os_plan.crash_op == os_stats.ops && os_plan.crash_mode == when; }
std::function<void()> os_on_crash; std::string os_fault_path;
[[noreturn]] static void crash(){ if (os_on_crash) os_on_crash(); _exit(77); }
static void hard(const std::string& what){ if (os_fault_path.empty()) os_fault_path = what; }
static void before(){ os_stats.ops++; if (crash_here(0)) crash(); }
static void after(){ if (crash_here(1)) crash(); }
static const std::string& path_of(int fd){ static std::string none = "?"; R(); auto it = fds->find(fd); return it == fds->end() ? none : it->second; }
} // namespace rt
using namespace rt;
template <class F> static F real(F& cache, const char* name){ if (!cache) cache = (F)dlsym(RTLD_NEXT, name); return cache; }

extern "C" {
int gettimeofday(struct timeval* tv, void*) noexcept {
    if (!sut){ timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    HarnessScope h; double t = sim_clock(); tv->tv_sec = (long)t; tv->tv_usec = (long)((t - (long)t) * 1e6); return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
    if (!sut) return (int)syscall(SYS_clock_gettime, c, ts);
    HarnessScope h; double t = sim_clock(); ts->tv_sec = (long)t; ts->tv_nsec = (long)((t - (long)t) * 1e9); return 0;
}
time_t time(time_t* p) noexcept { time_t t; if (!sut){ timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; } else { HarnessScope h; t = (time_t)sim_clock(); } if (p) *p = t; return t; }

static bool open_fault(const char* path){
    R(); before(); os_stats.opens++; note("open", path);
    if (os_plan.fail_open == os_stats.opens){ os_stats.f_open++; hard(std::string("open ") + path); errno = os_plan.open_errno; return true; }
    return false;
}
typedef FILE* (*fopen_t)(const char*, const char*); static fopen_t r_fopen, r_fopen64; typedef int (*fclose_t)(FILE*); static fclose_t r_fclose;
FILE* fopen(const char* p, const char* m){
    if (!sut) return real(r_fopen, "fopen")(p, m);
    HarnessScope h; if (open_fault(p)) return nullptr;
    FILE* f = real(r_fopen, "fopen")(p, m); if (f) (*fds)[fileno(f)] = p; after(); return f;
}
FILE* fopen64(const char* p, const char* m){
    if (!sut) return real(r_fopen64, "fopen64")(p, m);
    HarnessScope h; if (open_fault(p)) return nullptr;
    FILE* f = real(r_fopen64, "fopen64")(p, m); if (f) (*fds)[fileno(f)] = p; after(); return f;
}
int fclose(FILE* f){
    if (!sut) return real(r_fclose, "fclose")(f);
    HarnessScope h; R(); before(); os_stats.closes++; int fd = fileno(f); std::string pth = path_of(fd); note("close", pth); fds->erase(fd);
    int r = real(r_fclose, "fclose")(f);
    if (os_plan.fail_close == os_stats.closes){ os_stats.f_close++; hard("close " + pth); errno = EIO; after(); return EOF; }
    after(); return r;
}
static int xopen(int dir, const char* p, int flags, mode_t mode){
    HarnessScope h; if (open_fault(p)) return -1;
    int fd = (int)syscall(SYS_openat, dir, p, flags, mode); if (fd >= 0) (*fds)[fd] = p; after(); return fd;
}
int open(const char* p, int flags, ...){ va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); if (!sut) return (int)syscall(SYS_openat, AT_FDCWD, p, flags, m); return xopen(AT_FDCWD, p, flags, m); }
int open64(const char* p, int flags, ...){ va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); if (!sut) return (int)syscall(SYS_openat, AT_FDCWD, p, flags, m); return xopen(AT_FDCWD, p, flags, m); }
int close(int fd){ if (!sut) return (int)syscall(SYS_close, fd); HarnessScope h; R(); before(); os_stats.closes++; std::string pth = path_of(fd); note("close", pth); fds->erase(fd); int r = (int)syscall(SYS_close, fd); if (os_plan.fail_close == os_stats.closes){ os_stats.f_close++; hard("close " + pth); errno = EIO; return -1; } after(); return r; }

static ssize_t do_write(int fd, const char* b, size_t n){ // with faults; n >= 1
    R(); before(); os_stats.writes++; note("write", path_of(fd), (long)n);
    if (crash_here(2)){ size_t k = (size_t)(n * os_plan.crash_frac); if (k) syscall(SYS_write, fd, b, k); crash(); }
    if (os_plan.eintr > 0 && orng.flip(os_plan.eintr)){ os_stats.f_eintr++; errno = EINTR; return -1; }
    if (os_plan.eio_write > 0 && (os_stats.writes == os_plan.eio_write || (os_plan.eio_persistent && os_stats.writes > os_plan.eio_write))){ os_stats.f_eio++; hard("write " + path_of(fd)); errno = os_plan.write_errno; return -1; }
    if (os_plan.enospc_bytes >= 0 && path_of(fd).find(os_plan.only) != std::string::npos){
        long left = os_plan.enospc_bytes - os_stats.bytes;
        if (left <= 0){ os_stats.f_enospc++; hard("write " + path_of(fd)); errno = ENOSPC; return -1; }
        if ((long)n > left) n = (size_t)left;
    }
    if (os_plan.short_write > 0 && n > 1 && orng.flip(os_plan.short_write)){ os_stats.f_short++; n = 1 + orng.below(n - 1); }
    ssize_t r = syscall(SYS_write, fd, b, n); if (r > 0 && path_of(fd).find(os_plan.only) != std::string::npos) os_stats.bytes += r;
    after(); return r;
}
ssize_t write(int fd, const void* b, size_t n){ if (!sut) return syscall(SYS_write, fd, b, n); HarnessScope h; if (!n) return 0; return do_write(fd, (const char*)b, n); }
ssize_t writev(int fd, const struct iovec* v, int c){
    if (!sut) return syscall(SYS_writev, fd, v, c);
    HarnessScope h; std::string s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    if (s.empty()) return 0;
    return do_write(fd, s.data(), s.size());
}
int mkdir(const char* p, mode_t m) noexcept {
    if (!sut) return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
    HarnessScope h; R(); before(); os_stats.mkdirs++; note("mkdir", p);
    if (os_plan.fail_mkdir == os_stats.mkdirs){ os_stats.f_mkdir++; hard(std::string("mkdir ") + p); errno = os_plan.mkdir_errno; return -1; }
    int r = (int)syscall(SYS_mkdirat, AT_FDCWD, p, m); after(); return r;
}
int rename(const char* a, const char* b) noexcept { if (!sut) return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); HarnessScope h; R(); before(); os_stats.renames++; note("rename", std::string(a) + " -> " + b); int r = (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b); after(); return r; }
int unlink(const char* a) noexcept { if (!sut) return (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0); HarnessScope h; R(); before(); os_stats.unlinks++; note("unlink", a); int r = (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0); after(); return r; }
int fsync(int fd){ if (!sut) return (int)syscall(SYS_fsync, fd); HarnessScope h; R(); before(); note("fsync", path_of(fd)); after(); return 0; }
} // extern C
