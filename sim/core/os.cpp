// Clock, randomness, process control and file system seams.
#include "core/sim.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <limits.h>
#include <cstdarg>
#include <mutex>

using namespace sim;

namespace sim {
double now(int rank)
{
    Rank &r = ranks[rank];
    uint64_t n = r.nclock++;
    if (uint32_t v = decide(K_CLOCK, rank, n, 8)) {
        static const double j[] = {0, 1e-3, 1, 3600, -1e-3, -1, -3600, 86400 * 400.};
        r.clockOff += j[v];
    }
    return cfg.clockBase + step * 1e-6 + r.clockOff;
}

bool pathAllowed(const char *path)
{
    char real[PATH_MAX]; std::string p(path);
    if (p[0] != '/') return p.find("..") == std::string::npos;
    if (p == "/dev/null") return true;
    return p.compare(0, cfg.rundir.size(), cfg.rundir) == 0 && p.find("..") == std::string::npos;
}

static bool faultable(const char *path)
{
    if (cfg.ioonly.empty()) return true;
    for (auto &s : cfg.ioonly) if (strstr(path, s.c_str())) return true;
    return false;
}
static std::vector<std::string> faultLog;
int ioFault(Kind k, const char *path, uint64_t &counter, int n)
{
    if (!cur || !path || !faultable(path)) return 0;
    uint64_t c = counter++;
    int v = decide(k, cur->rank, c, n);
    if (v) note("fault %s=%d rank %d op %llu path %s", kindName[k], v, cur->rank, (unsigned long long)c, path);
    return v;
}
int64_t quotaTake(int64_t bytes)
{
    if (cfg.quota < 0) return bytes;
    int64_t f = bytes < cfg.quota ? bytes : cfg.quota;
    cfg.quota -= f;
    if (f < bytes) { stats.probe["disk_full"]++; note("disk full: %lld of %lld bytes written", (long long)f, (long long)bytes); }
    return f;
}

// fds opened by the simulated program
struct FdI { std::string path; bool write; };
static std::map<int, FdI> fds;

struct Cookie { int fd; std::string path; bool write; int rank; };
}

template <typename F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

extern "C" {

// ---- clocks ----------------------------------------------------------------
time_t time(time_t *t)
{
    time_t v;
    v = cur ? (time_t)now(cur->rank) : 1600000000;
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!cur) { ts->tv_sec = 1600000000; ts->tv_nsec = 0; return 0; }
    double n = now(cur->rank); if (c != CLOCK_REALTIME) n = step * 1e-6; // monotonic clocks do not jump
    ts->tv_sec = (time_t)n; ts->tv_nsec = (long)((n - (time_t)n) * 1e9);
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    if (!cur) { tv->tv_sec = 1600000000; tv->tv_usec = 0; return 0; }
    double n = now(cur->rank); tv->tv_sec = (time_t)n; tv->tv_usec = (long)((n - (time_t)n) * 1e6);
    return 0;
}
static int sleepSteps(uint64_t n) { if (!cur) return 0; yieldPoint("sleep"); cur->wake = step + n; addEvent(cur->wake); switchAway(); return 0; }
int usleep(useconds_t u) { return sleepSteps(u < 1 ? 1 : u); }
unsigned sleep(unsigned s) { sleepSteps((uint64_t)s * 1000000); return 0; }
int nanosleep(const struct timespec *t, struct timespec *) { return sleepSteps(t->tv_sec * 1000000ull + t->tv_nsec / 1000 + 1); }
int sched_yield() { return sleepSteps(1); }

// ---- randomness ------------------------------------------------------------
int rand() { if (!cur) return 4; Rank &r = me(); r.rnd = r.rnd * 6364136223846793005ull + 1442695040888963407ull; return (int)((r.rnd >> 33) & 0x7fffffff); }
void srand(unsigned s) { if (cur) me().rnd = s * 2862933555777941757ull + 3037000493ull; }
long random() { return rand(); }
void srandom(unsigned s) { srand(s); }
}
// std::random_device
namespace std { class random_device_sim {}; }
extern "C" unsigned sim_rd() { static uint64_t n = 0; return (unsigned)prf(cfg.seed, 9001, cur ? cur->rank : 0, n++); }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void*) { return sim_rd(); }
extern "C" void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
extern "C" void _ZNSt13random_device7_M_finiEv(void*) {}

extern "C" {
// ---- process ---------------------------------------------------------------
void exit(int code)
{
    if (cur) dieRank(Rank::EXITED, code, "exit");
    fflush(stdout); fflush(stderr);
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void _exit(int code) { if (cur) dieRank(Rank::EXITED, code, "_exit"); syscall(SYS_exit_group, code); __builtin_unreachable(); }
void _Exit(int code) { if (cur) dieRank(Rank::EXITED, code, "_Exit"); syscall(SYS_exit_group, code); __builtin_unreachable(); }
void quick_exit(int code) { _exit(code); }
void abort() { if (cur) { dieRank(Rank::EXITED, 134, "abort"); } syscall(SYS_exit_group, 134); __builtin_unreachable(); }
sighandler_t signal(int s, sighandler_t h) { if (cur) return SIG_DFL; return next<sighandler_t (*)(int, sighandler_t)>("signal")(s, h); }
sighandler_t __sysv_signal(int s, sighandler_t h) { return SIG_DFL; }
int raise(int s) { if (cur) dieRank(Rank::EXITED, 128 + s, "raise"); return next<int (*)(int)>("raise")(s); }

// ---- files -----------------------------------------------------------------
static bool fromLibstdcxx(void *ra) { Dl_info i; return dladdr(ra, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++"); }

static ssize_t ckRead(void *c, char *b, size_t n)
{
    Cookie *k = (Cookie*)c;
    if (cur) yieldPoint("read");
    int v = n ? ioFault(K_READ, k->path.c_str(), me().nread, 3) : 0;
    if (v == 1) { errno = EIO; return -1; }
    if (v == 2 && n > 1) n = 1 + prf(cfg.seed, 3001, cur->rank, me().nread) % (n - 1);
    ssize_t r = syscall(SYS_read, k->fd, b, n);
    if (r < 0) { return -1; }
    return r;
}
static ssize_t doWrite(int fd, const std::string &path, const char *b, size_t n)
{
    int v = n ? ioFault(K_WRITE, path.c_str(), me().nwrite, 4) : 0;
    if (v == 1) { errno = EIO; return -1; }
    if (v == 2 && n > 1) n = 1 + prf(cfg.seed, 3002, cur->rank, me().nwrite) % (n - 1);
    if (v == 3) cfg.quota = 0;
    size_t fit = quotaTake(n);
    if (fit == 0 && n) { errno = ENOSPC; return -1; }
    ssize_t r = syscall(SYS_write, fd, b, fit);
    if (r < 0) return -1;
    return r;
}
static ssize_t ckWrite(void *c, const char *b, size_t n)
{
    Cookie *k = (Cookie*)c;
    if (!cur) { return syscall(SYS_write, k->fd, b, n); }
    yieldPoint("write");
    size_t off = 0;
    while (off < n) { // like write(2) below stdio: short writes are continued
        ssize_t r = doWrite(k->fd, k->path, b + off, n - off);
        if (r < 0) return off ? (ssize_t)off : 0;
        off += r;
    }
    return off;
}
static int ckSeek(void *c, off64_t *o, int w) { Cookie *k = (Cookie*)c; off64_t r = syscall(SYS_lseek, k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void *c) { Cookie *k = (Cookie*)c; int e = 0; if (cur) e = ioFault(K_CLOSE, k->path.c_str(), me().nclose, 2); syscall(SYS_close, k->fd); delete k; if (e) { errno = EIO; return -1; } return 0; }

static FILE* openCookie(const char *path, const char *mode)
{
    yieldPoint("fopen");
    int fl = 0; bool plus = strchr(mode, '+');
    bool w = mode[0] == 'w' || mode[0] == 'a' || plus;
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int v = ioFault(K_OPEN, path, me().nopen, 3);
    if (v) { errno = v == 1 ? EACCES : EMFILE; return nullptr; }
    if (w && !pathAllowed(path)) { fail("containment", "rank %d opens %s for writing", cur->rank, path); }
    int fd = syscall(SYS_open, path, fl, 0644);
    if (fd < 0) return nullptr;
    Cookie *k = new Cookie{fd, path, w, cur->rank};
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE *f = fopencookie(k, mode, io);
    mix(0xf0 + w);
    return f;
}
FILE* fopen(const char *path, const char *mode)
{
    static auto real = next<FILE* (*)(const char*, const char*)>("fopen");
    if (!cur) return real(path, mode);
    if (fromLibstdcxx(__builtin_return_address(0))) {
        yieldPoint("fopen");
        bool w = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
        int v = ioFault(K_OPEN, path, me().nopen, 3);
        if (v) { errno = v == 1 ? EACCES : EMFILE; return nullptr; }
        if (w && !pathAllowed(path)) { fail("containment", "rank %d opens %s for writing", cur->rank, path); }
        FILE *f = real(path, mode);
        if (f) fds[fileno(f)] = {path, w};
        return f;
    }
    return openCookie(path, mode);
}
FILE* fopen64(const char *path, const char *mode)
{
    static auto real = next<FILE* (*)(const char*, const char*)>("fopen64");
    if (!cur) return real(path, mode);
    if (fromLibstdcxx(__builtin_return_address(0))) {
        yieldPoint("fopen");
        bool w = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+');
        int v = ioFault(K_OPEN, path, me().nopen, 3);
        if (v) { errno = v == 1 ? EACCES : EMFILE; return nullptr; }
        if (w && !pathAllowed(path)) { fail("containment", "rank %d opens %s for writing", cur->rank, path); }
        FILE *f = real(path, mode);
        if (f) fds[fileno(f)] = {path, w};
        return f;
    }
    return openCookie(path, mode);
}
static FdI* known(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : &it->second; }
ssize_t read(int fd, void *b, size_t n)
{
    if (!cur) return syscall(SYS_read, fd, b, n);
    FdI *f = known(fd);
    if (f) {
        yieldPoint("read");
        int v = n ? ioFault(K_READ, f->path.c_str(), me().nread, 3) : 0;
        if (v == 1) { errno = EIO; return -1; }
        if (v == 2 && n > 1) n = 1 + prf(cfg.seed, 3001, cur->rank, me().nread) % (n - 1);
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!cur) return syscall(SYS_write, fd, b, n);
    FdI *f = known(fd);
    if (f) { yieldPoint("write"); return doWrite(fd, f->path, (const char*)b, n); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!cur) return syscall(SYS_writev, fd, v, n);
    FdI *f = known(fd);
    if (!f) return syscall(SYS_writev, fd, v, n);
    yieldPoint("writev");
    std::string all; for (int i = 0; i < n; ++i) all.append((char*)v[i].iov_base, v[i].iov_len);
    return doWrite(fd, f->path, all.data(), all.size());
}
int open(const char *path, int fl, ...)
{
    mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
    if (!cur) return syscall(SYS_open, path, fl, m);
    yieldPoint("open");
    bool w = (fl & O_ACCMODE) != O_RDONLY;
    if (ioFault(K_OPEN, path, me().nopen, 2)) { errno = EACCES; return -1; }
    if (w && !pathAllowed(path)) fail("containment", "rank %d opens %s for writing", cur->rank, path);
    int fd = syscall(SYS_open, path, fl, m);
    if (fd >= 0) fds[fd] = {path, w};
    return fd;
}
int close(int fd) { if (cur) fds.erase(fd); return syscall(SYS_close, fd); }

static int mkdirs(std::string p)
{
    for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { std::string s = p.substr(0, i); if (::mkdir(s.c_str(), 0755) && errno != EEXIST) return -1; }
    struct stat st; return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode) ? 0 : -1;
}
int system(const char *cmd)
{
    if (!cur) return -1;
    yieldPoint("system");
    if (!strncmp(cmd, "mkdir -p ", 9)) {
        const char *p = cmd + 9;
        if (ioFault(K_MKDIR, p, me().nmkdir, 2)) return 256;
        if (!pathAllowed(p)) fail("containment", "rank %d creates directory %s", cur->rank, p);
        return mkdirs(p) ? 256 : 0;
    }
    note("system(%s) refused", cmd);
    return 256;
}
FILE* popen(const char *cmd, const char *) { note("popen(%s) refused", cmd); return nullptr; }
int remove(const char *p) { if (cur) { yieldPoint("remove"); if (!pathAllowed(p)) fail("containment", "rank %d removes %s", cur->rank, p); } int r = syscall(SYS_unlink, p); return r; }
int unlink(const char *p) { if (cur) { yieldPoint("unlink"); if (!pathAllowed(p)) fail("containment", "rank %d removes %s", cur->rank, p); } return syscall(SYS_unlink, p); }
int symlink(const char *a, const char *b) { if (cur) { yieldPoint("symlink"); if (!pathAllowed(b)) fail("containment", "rank %d links %s", cur->rank, b); } return syscall(SYS_symlink, a, b); }
int rename(const char *a, const char *b) { if (cur) { yieldPoint("rename"); if (!pathAllowed(a) || !pathAllowed(b)) fail("containment", "rank %d renames %s", cur->rank, b); } return syscall(SYS_rename, a, b); }
int gethostname(char *n, size_t l) { snprintf(n, l, "simnode%d", cur && cfg.ppn > 0 ? cur->rank / cfg.ppn : 0); return 0; }
int get_nprocs() { return 8; }
}
