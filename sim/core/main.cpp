// simexe: loads one private copy of the system per rank, then serves runs.
//   simexe <image.so> <maxranks> <workdir>       reads one job per line on stdin
// Every job is run in a forked child, so runs are isolated from each other.
#include "core/sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <execinfo.h>
#include <ucontext.h>

using namespace sim;

static std::vector<void*> images;

static std::string slurp(const char *p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const std::string &p, const std::string &d) { std::ofstream f(p, std::ios::binary); f.write(d.data(), d.size()); }
static void rep(std::string &d, const std::string &a, const std::string &b)
{
    std::string A = std::string(1, 0) + a + std::string(1, 0), B = std::string(1, 0) + b + std::string(a.size() - b.size(), 0) + std::string(1, 0);
    for (size_t p = 0; (p = d.find(A, p)) != std::string::npos; ) d.replace(p, A.size(), B);
}

static void* loadImage(const char *so, int r, const std::string &dir)
{
    // private copies of METIS/ParMETIS as well: they keep per-process state
    char tag = 'A' + r;
    std::string met = slurp("/lib/x86_64-linux-gnu/libmetis.so.5"), par = slurp("/lib/libparmetis.so.4.0"), img = slurp(so);
    std::string nm = std::string("libmeti") + tag + ".so.5", np = std::string("libparmeti") + tag + ".so.4.0";
    rep(met, "libmetis.so.5", nm);
    rep(par, "libmetis.so.5", nm); rep(par, "libparmetis.so.4.0", np); rep(par, "libmpi.so.40", "libm.so.6");
    rep(img, "libmetis.so.5", nm); rep(img, "libparmetis.so.4.0", np);
    std::string a = dir + "/" + nm, b = dir + "/" + np, c = dir + "/image" + tag + ".so";
    spit(a, met); spit(b, par); spit(c, img);
    void *h = dlopen(a.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "sim: %s\n", dlerror()); exit(95); }
    h = dlopen(b.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "sim: %s\n", dlerror()); exit(95); }
    h = dlopen(c.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "sim: %s (retry lazily)\n", dlerror()); h = dlopen(c.c_str(), RTLD_LAZY | RTLD_LOCAL); }
    if (!h) { fprintf(stderr, "sim: %s\n", dlerror()); exit(95); }
    unlink(a.c_str()); unlink(b.c_str()); unlink(c.c_str());
    return h;
}

static void onSignal(int s, siginfo_t *si, void *uc)
{
    signal(s, SIG_DFL);
    char b[4096]; int n = 0;
    n += snprintf(b + n, sizeof b - n, "signal %d (%s) in rank %d task %s: ", s, strsignal(s), cur ? cur->rank : -1, cur ? cur->what : "-");
    void *bt[40]; int k = backtrace(bt, 40);
    for (int i = 2; i < k && n < 3500; ++i) { Dl_info d; if (dladdr(bt[i], &d) && d.dli_sname) n += snprintf(b + n, sizeof b - n, "%s < ", d.dli_sname); }
    cur = nullptr;
    if (s == SIGALRM || s == SIGVTALRM || s == SIGPROF) fail("cpu-hang", "%s", b); else fail("crash", "%s", b);
    finishRun();
}

static void die(const char *m) { fprintf(stderr, "sim: %s\n", m); syscall(231, 94); }

static void child(const std::vector<std::string> &job)
{
    std::string entry; std::vector<std::vector<std::string>> args(1); std::string stdoutf = "out.log";
    std::vector<std::string> env; double cpu = 120;
    for (auto &l : job) {
        std::istringstream is(l); std::string k; is >> k;
        std::string v; std::getline(is, v); if (v.size() && v[0] == ' ') v = v.substr(1);
        if (k == "seed") cfg.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "ranks") cfg.ranks = atoi(v.c_str());
        else if (k == "threads") cfg.threads = atoi(v.c_str());
        else if (k == "ppn") cfg.ppn = atoi(v.c_str());
        else if (k == "p") { std::istringstream q(v); std::string kn; double p; q >> kn >> p; for (int i = 0; i < K_COUNT; ++i) if (kn == kindName[i]) cfg.p[i] = p; }
        else if (k == "replay") cfg.replay = true;
        else if (k == "d") { std::istringstream q(v); Dec d; q >> d.kind >> d.a >> d.b >> d.v; cfg.script.push_back(d); }
        else if (k == "scriptfile") { std::ifstream f(v); Dec d; while (f >> d.kind >> d.a >> d.b >> d.v) cfg.script.push_back(d); }
        else if (k == "maxsteps") cfg.maxSteps = strtoull(v.c_str(), 0, 10);
        else if (k == "perturb") cfg.perturb = atoi(v.c_str());
        else if (k == "tagub") cfg.tagub = atoi(v.c_str());
        else if (k == "rundir") cfg.rundir = v;
        else if (k == "ioonly") cfg.ioonly.push_back(v);
        else if (k == "quota") cfg.quota = strtoll(v.c_str(), 0, 10);
        else if (k == "clock") cfg.clockBase = atof(v.c_str());
        else if (k == "skew") cfg.skew = atof(v.c_str());
        else if (k == "crashrank") cfg.crashRank = atoi(v.c_str());
        else if (k == "crashstep") cfg.crashStep = strtoull(v.c_str(), 0, 10);
        else if (k == "grace") cfg.launcherGrace = atoi(v.c_str());
        else if (k == "journal") cfg.journal = true;
        else if (k == "env") env.push_back(v);
        else if (k == "cpu") cpu = atof(v.c_str());
        else if (k == "entry") entry = v;
        else if (k == "arg") args[0].push_back(v);
    }
    if (cfg.ranks > (int)images.size()) die("too many ranks");
    if (chdir(cfg.rundir.c_str())) die("chdir");
    for (auto &e : env) { size_t p = e.find('='); setenv(e.substr(0, p).c_str(), e.substr(p + 1).c_str(), 1); }
    char tb[16]; snprintf(tb, sizeof tb, "%d", cfg.threads); setenv("OMP_NUM_THREADS", tb, 1);
    if (cfg.perturb) mallopt(M_PERTURB, cfg.perturb);
    int o = syscall(2, "out.log", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644), e = syscall(2, "err.log", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    dup2(o, 1); dup2(e, 2);
    int nul = syscall(2, "/dev/null", O_RDONLY, 0); dup2(nul, 0);
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
    struct itimerval it{}; it.it_value.tv_sec = (long)cpu; setitimer(ITIMER_PROF, &it, nullptr);
    ranks.resize(cfg.ranks);
    for (int r = 0; r < cfg.ranks; ++r) { ranks[r].id = r; ranks[r].handle = images[r]; ranks[r].threads = cfg.threads; ranks[r].rnd = 12345; ranks[r].clockOff = cfg.skew * ((prf(cfg.seed, 5, r, 0) % 2001) / 1000. - 1); }
    mpiReset();
    typedef int (*Main)(int, char**);
    std::vector<Main> mains;
    for (int r = 0; r < cfg.ranks; ++r) { Main m = (Main)dlsym(images[r], entry.c_str()); if (!m) die("no entry"); mains.push_back(m); }
    std::vector<std::vector<char*>> argvs(cfg.ranks);
    for (int r = 0; r < cfg.ranks; ++r) {
        for (auto &s : args[0]) argvs[r].push_back(strdup(s.c_str()));
        argvs[r].push_back(nullptr);
        Main m = mains[r]; char **av = argvs[r].data(); int ac = args[0].size();
        int *og = (int*)dlsym(images[r], "optind"); (void)og;
        ranks[r].main = spawn(r, "main", [m, ac, av, r] { int c = m(ac, av); ranks[r].code = c; ranks[r].state = Rank::RETURNED; });
    }
    run();
    finishRun();
}

int main(int argc, char **argv)
{
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("MKL_NUM_THREADS", "1", 1); setenv("MKL_CBWR", "COMPATIBLE", 0);
    setenv("MKL_DYNAMIC", "FALSE", 1);
    int n = atoi(argv[2]);
    std::string dir = argv[3];
    if (strstr(argv[1], "rank-espreso")) for (const char *l : {"libmkl_core.so", "libmkl_sequential.so", "libmkl_intel_lp64.so"})
        if (!dlopen(l, RTLD_LAZY | RTLD_GLOBAL)) { fprintf(stderr, "sim: %s\n", dlerror()); exit(95); }
    for (int r = 0; r < n; ++r) images.push_back(loadImage(argv[1], r, dir));
    printf("ready %d\n", n); fflush(stdout);
    std::vector<std::string> job; std::string l;
    while (std::getline(std::cin, l)) {
        if (l != "go") { job.push_back(l); continue; }
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { child(job); syscall(231, 93); }
        int st = 0; waitpid(p, &st, 0);
        printf("done %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st)); fflush(stdout);
        job.clear();
    }
    fflush(stdout);
    syscall(231, 0);
}
