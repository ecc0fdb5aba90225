// Deterministic simulator core: fibers, seeded decisions, scheduler.
#ifndef SIM_H_
#define SIM_H_
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <deque>
#include <set>

namespace sim {

// ---- decisions -------------------------------------------------------------
// Every nondeterministic choice is one decision, identified by (kind, a, b) and
// valued 0 (the default, nothing unusual) or 1..n-1.  In search mode the value
// is a pure function of (seed, kind, a, b); in replay mode it is read from the
// replay file and is 0 when the file does not mention it.
enum Kind : int {
    K_SCHED = 0,     // a=0, b=step: which other runnable task runs next
    K_STALL,         // a=task, b=task-local step: task sleeps for 4^v steps
    K_RDV,           // a=rank, b=send number: 1 = synchronous (rendezvous) send
    K_DELAY,         // a=rank, b=send number: message arrives 4^v steps later
    K_COLLSYNC,      // a=rank, b=collective number: 1 = synchronising collective
    K_REDORDER,      // a=comm, b=collective number: order of a reduction
    K_IPROBE,        // a=rank, b=iprobe number: 1 = not visible yet
    K_POISON,        // a=rank, b=recv number: 1 = buffer of a pending receive is garbage
    K_OMPORDER,      // a=rank, b=region number: order in which team members start
    K_PREEMPT,       // a=rank, b=access number: preempt a team member at a memory access
    K_CLOCK,         // a=rank, b=clock read number: jump
    K_OPEN,          // a=rank, b=open number: open fails (v = errno class)
    K_READ,          // a=rank, b=read number: 1 = EIO, 2 = short read
    K_WRITE,         // a=rank, b=write number: 1 = EIO, 2 = short write, 3 = ENOSPC from here on
    K_CLOSE,         // a=rank, b=close number: 1 = error reported at close
    K_MKDIR,         // a=rank, b=n: 1 = directory can not be created
    K_CRASH,         // a=rank, b=task-local step: the process dies here
    K_COUNT
};
extern const char *kindName[K_COUNT];

struct Dec { int kind; uint32_t a; uint64_t b; uint32_t v; };

struct Config {
    uint64_t seed = 1;
    int ranks = 1;
    int threads = 1;
    int ppn = 0;                  // ranks per simulated node (0: all)
    double p[K_COUNT] = {0};      // probability of a non-default value
    bool replay = false;
    std::vector<Dec> script;      // replay mode
    uint64_t maxSteps = 20000000;
    int perturb = 0;              // heap fill byte
    int tagub = 32767;
    std::string rundir;
    std::string iomatch;          // fault only files whose path contains this (empty: all)
    std::vector<std::string> ioonly;
    int64_t quota = -1;           // bytes until the disk is full
    double clockBase = 1.6e9;
    double skew = 0;              // max clock skew between ranks [s]
    int crashRank = -1;           // rank to crash
    uint64_t crashStep = 0;       // at this task-local step (0 = by K_CRASH)
    int launcherGrace = 0;        // steps other ranks go on after one died
    bool journal = false;
};
extern Config cfg;

uint32_t decide(Kind k, uint32_t a, uint64_t b, uint32_t n);
uint64_t prf(uint64_t seed, uint64_t k, uint64_t a, uint64_t b);

// ---- tasks -----------------------------------------------------------------
struct Team;
struct Task {
    int id, rank;
    const char *what;
    void *sp = nullptr;
    char *stack = nullptr; size_t stackSize = 0;
    std::function<void()> body;
    enum State { RUNNABLE, BLOCKED, DONE, DEAD } state = RUNNABLE;
    std::function<bool()> ready;
    const char *blockedOn = "";
    uint64_t wake = 0;        // stalled until this step
    uint64_t lsteps = 0;
    int err = 0;
    void *eh[2] = {nullptr, nullptr};
    // OpenMP
    Team *team = nullptr;
    int tnum = 0;
    int level = 0;
    bool idle = false;        // pooled worker
};
extern Task *cur;
extern uint64_t step;

struct Rank {
    int id;
    void *handle = nullptr;
    Task *main = nullptr;
    enum State { RUNNING, RETURNED, EXITED, CRASHED, KILLED } state = RUNNING;
    int code = 0;
    bool finalized = false, inited = false;
    int threads = 1;
    uint64_t nsend = 0, ncoll = 0, nrecv = 0, niprobe = 0, nclock = 0, nopen = 0, nread = 0, nwrite = 0, nclose = 0, nmkdir = 0, nregion = 0, naccess = 0;
    double clockOff = 0;
    uint64_t rnd = 1;
    std::vector<Task*> pool;
    std::string exitWhy;
};
extern std::vector<Rank> ranks;

Task* spawn(int rank, const char *what, std::function<void()> body, size_t stack = 64u << 20);
void yieldPoint(const char *what);
void block(const char *what, std::function<bool()> ready);
void switchAway();                       // current task is not runnable any more
void run();                              // scheduler loop (main context)
[[noreturn]] void dieRank(Rank::State st, int code, const std::string &why);
void addEvent(uint64_t atStep);          // something becomes visible at this step

// ---- verdicts --------------------------------------------------------------
void fail(const char *cls, const char *fmt, ...);   // first one wins; ends the run
void note(const char *fmt, ...);
extern bool failed;
struct Stats {
    uint64_t fired[K_COUNT] = {0}, asked[K_COUNT] = {0};
    uint64_t switches = 0, msgs = 0, bytes = 0, colls = 0, regions = 0, accesses = 0, wildcards = 0, wildchoice = 0;
    uint64_t hash = 1469598103934665603ull;
    std::map<std::string, uint64_t> probe;
};
extern Stats stats;
inline void mix(uint64_t x) { stats.hash = (stats.hash ^ x) * 1099511628211ull; stats.hash ^= stats.hash >> 29; }
inline Rank& me() { return ranks[cur->rank]; }
void hit(const char *probe);
[[noreturn]] void finishRun();           // write the result and end the process
double now(int rank);

void mpiReset();
std::string mpiLeftovers();
}
#endif
