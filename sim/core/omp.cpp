// Simulated OpenMP (libgomp ABI) and pthreads: team members and threads are
// tasks of the simulator, so the seeded scheduler decides who runs.
#include "core/sim.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <algorithm>
#include <pthread.h>
#include <array>
#include <memory>

using namespace sim;
namespace sim {
struct Team {
    int n = 1; int running = 0; int barrierCount = 0; uint64_t barrierGen = 0;
    Team *parent = nullptr; int parentNum = 0;
    std::map<int, std::array<long, 4>> dummy;
    // dynamic loops: per work-share sequence number
    struct Loop { long next, end, incr, chunk; };
    std::map<uint64_t, Loop> loops; std::vector<uint64_t> loopSeq;
    std::map<uint64_t, int> singles; std::vector<uint64_t> singleSeq;
};
int preemptRegion = 0;
}
static std::map<const void*, Task*> criticals; // by (rank, address)
struct CritKey { int rank; const void *p; bool operator<(const CritKey &o) const { return rank != o.rank ? rank < o.rank : p < o.p; } };
static std::map<CritKey, Task*> crit;

static void runParallel(void (*fn)(void*), void *data, int n)
{
    Rank &r = me();
    Task *self = cur;
    stats.regions++;
    Team team; team.n = n; team.parent = self->team; team.parentNum = self->tnum; team.loopSeq.assign(n, 0); team.singleSeq.assign(n, 0);
    Team *tp = &team;
    Team *oldTeam = self->team; int oldNum = self->tnum; int oldLevel = self->level;
    uint64_t reg = r.nregion++;
    if (n == 1) {
        self->team = tp; self->tnum = 0; self->level = oldLevel + 1;
        fn(data);
        self->team = oldTeam; self->tnum = oldNum; self->level = oldLevel;
        return;
    }
    yieldPoint("omp parallel");
    uint32_t ov = decide(K_OMPORDER, cur->rank, reg, 1024);
    team.running = n - 1;
    std::vector<int> nums; for (int i = 1; i < n; ++i) nums.push_back(i);
    // the start order decides which member the default schedule prefers
    if (ov) for (int i = (int)nums.size() - 1; i > 0; --i) std::swap(nums[i], nums[prf(cfg.seed, 4000 + ov, reg, i) % (i + 1)]);
    int rank = cur->rank;
    for (int num : nums) {
        Task *w = nullptr;
        for (auto *t : r.pool) if (t->idle) { w = t; break; }
        if (!w) {
            w = spawn(rank, "omp", nullptr, 16u << 20);
            Task *wp = w;
            w->body = [wp] {
                for (;;) {
                    auto job = wp->ready; // not used
                    (void)job;
                    extern void runJob(Task*);
                    runJob(wp);
                    wp->idle = true;
                    switchAway();
                }
            };
            r.pool.push_back(w);
        }
        w->idle = false; w->state = Task::RUNNABLE; w->team = tp; w->tnum = num; w->level = oldLevel + 1; w->wake = 0;
        extern void setJob(Task*, void (*)(void*), void*);
        setJob(w, fn, data);
    }
    self->team = tp; self->tnum = 0; self->level = oldLevel + 1;
    // bit of the order decision: does the master run first or last
    if (ov & 1) { Task *s = self; s->wake = step + 8; addEvent(s->wake); switchAway(); }
    fn(data);
    block("omp join", [tp] { return tp->running == 0; });
    self->team = oldTeam; self->tnum = oldNum; self->level = oldLevel;
}
struct Job { void (*fn)(void*); void *data; };
static std::map<Task*, Job> jobs;
void setJob(Task *t, void (*fn)(void*), void *d) { jobs[t] = {fn, d}; }
void runJob(Task *t) { Job j = jobs[t]; Team *tm = t->team; yieldPoint("omp start"); j.fn(j.data); tm->running--; t->team = nullptr; }

static int curThreads() { return cur ? me().threads : 1; }

extern "C" {
void GOMP_parallel(void (*fn)(void*), void *data, unsigned n, unsigned)
{
    if (!cur) { fn(data); return; }
    int t = n ? n : curThreads();
    if (cur->level > 0) t = 1; // nested parallelism is off by default
    runParallel(fn, data, t);
}
void GOMP_barrier()
{
    if (!cur || !cur->team || cur->team->n == 1) return;
    Team *t = cur->team; uint64_t g = t->barrierGen;
    yieldPoint("omp barrier");
    if (++t->barrierCount == t->n) { t->barrierCount = 0; t->barrierGen++; return; }
    block("omp barrier", [t, g] { return t->barrierGen != g; });
}
static void lockCrit(const void *p)
{
    if (!cur) return;
    yieldPoint("omp critical");
    CritKey k{cur->rank, p}; Task **slot = &crit[k];
    block("omp critical", [slot] { return *slot == nullptr; });
    *slot = cur;
}
static void unlockCrit(const void *p) { if (!cur) return; crit[{cur->rank, p}] = nullptr; yieldPoint("omp critical end"); }
static int dflt, atom;
void GOMP_critical_start() { lockCrit(&dflt); }
void GOMP_critical_end() { unlockCrit(&dflt); }
void GOMP_critical_name_start(void **p) { lockCrit(p); }
void GOMP_critical_name_end(void **p) { unlockCrit(p); }
void GOMP_atomic_start() { lockCrit(&atom); }
void GOMP_atomic_end() { unlockCrit(&atom); }

static bool loopNext(long *s, long *e)
{
    Team *t = cur->team; auto &l = t->loops[t->loopSeq[cur->tnum]];
    yieldPoint("omp loop");
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *s = l.next; long stop = l.next + l.chunk * l.incr;
    if (l.incr > 0 ? stop > l.end : stop < l.end) stop = l.end;
    *e = stop; l.next = stop;
    return true;
}
static bool loopStart(long start, long end, long incr, long chunk, long *s, long *e)
{
    if (!cur || !cur->team) { *s = start; *e = end; static bool d; return incr > 0 ? start < end : start > end; }
    Team *t = cur->team; uint64_t q = ++t->loopSeq[cur->tnum];
    if (!t->loops.count(q)) t->loops[q] = {start, end, incr, chunk ? chunk : 1};
    return loopNext(s, e);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return loopStart(a, b, i, c, s, e); }
bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long *s, long *e) { return loopStart(a, b, i, c, s, e); }
bool GOMP_loop_guided_start(long a, long b, long i, long c, long *s, long *e) { return loopStart(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long *s, long *e) { return loopStart(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return cur && cur->team ? loopNext(s, e) : false; }
bool GOMP_loop_dynamic_next(long *s, long *e) { return cur && cur->team ? loopNext(s, e) : false; }
bool GOMP_loop_guided_next(long *s, long *e) { return cur && cur->team ? loopNext(s, e) : false; }
bool GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return cur && cur->team ? loopNext(s, e) : false; }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
bool GOMP_single_start()
{
    if (!cur || !cur->team) return true;
    Team *t = cur->team; uint64_t q = ++t->singleSeq[cur->tnum];
    return t->singles[q]++ == 0;
}
static void parLoop(void (*fn)(void*), void *d, unsigned n, long a, long b, long i, long c)
{
    // combined parallel-loop: every member enters the loop through *_next after the team start
    if (!cur) { fn(d); return; }
    fprintf(stderr, "sim: combined parallel loop is not supported\n"); _Exit(96);
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void *d, unsigned n, long a, long b, long i, long c, unsigned) { parLoop(fn, d, n, a, b, i, c); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void *d, unsigned n, long a, long b, long i, long c, unsigned) { parLoop(fn, d, n, a, b, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void *d, unsigned n, long a, long b, long i, long c, unsigned) { parLoop(fn, d, n, a, b, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void *d, unsigned n, long a, long b, long i, long c, unsigned) { parLoop(fn, d, n, a, b, i, c); }

int omp_get_thread_num() { return cur && cur->team ? cur->tnum : 0; }
int omp_get_num_threads() { return cur && cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return curThreads(); }
int omp_get_num_procs() { return 8; }
void omp_set_num_threads(int n) { if (cur) me().threads = n > 0 ? n : 1; }
int omp_get_level() { return cur ? cur->level : 0; }
int omp_in_parallel() { return cur && cur->team && cur->team->n > 1; }
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_ancestor_thread_num(int l) { if (!cur) return 0; Team *t = cur->team; int n = cur->tnum; for (int k = cur->level; k > l && t; --k) { n = t->parentNum; t = t->parent; } return n; }
struct SimLock { Task *owner; };
void omp_init_lock(void **l) { *l = nullptr; }
void omp_destroy_lock(void **) {}
void omp_set_lock(void **l) { if (!cur) return; yieldPoint("omp lock"); block("omp lock", [l] { return *l == nullptr; }); *l = cur; }
void omp_unset_lock(void **l) { *l = nullptr; if (cur) yieldPoint("omp unlock"); }
double omp_get_wtime() { return cur ? now(cur->rank) : 0; }

// ---- pthreads --------------------------------------------------------------
int pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void*), void *arg)
{
    if (!cur) return EAGAIN;
    yieldPoint("pthread_create");
    Task *t = spawn(cur->rank, "thread", nullptr, 64u << 20);
    t->body = [fn, arg] { fn(arg); };
    *th = (pthread_t)t;
    hit("pthread_create");
    return 0;
}
int pthread_join(pthread_t th, void **ret)
{
    if (!cur) return 0;
    Task *t = (Task*)th;
    yieldPoint("pthread_join");
    block("pthread_join", [t] { return t->state == Task::DONE; });
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
// the first word of the (zero initialised) object holds the owner + 1
static int lockWord(volatile int *w, const char *what)
{
    if (!cur) { *w = 1; return 0; }
    yieldPoint(what);
    block(what, [w] { return *w == 0; });
    *w = cur->id + 2;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m)
{
    volatile int *w = (volatile int*)m;
    if (!cur) return 0;
    if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { // library-internal recursive mutexes: never contended
        return 0;
    }
    return lockWord(w, "pthread_mutex_lock");
}
int pthread_mutex_trylock(pthread_mutex_t *m) { volatile int *w = (volatile int*)m; if (!cur) return 0; yieldPoint("pthread_mutex_trylock"); if (*w) return EBUSY; *w = cur->id + 2; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur) return 0; *(volatile int*)m = 0; yieldPoint("pthread_mutex_unlock"); return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { return lockWord((volatile int*)l, "pthread_spin_lock"); }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (cur) yieldPoint("spin"); if (*l) return EBUSY; *l = 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { *l = 0; if (cur) yieldPoint("pthread_spin_unlock"); return 0; }
struct SimCond { unsigned gen; };
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!cur) return 0;
    volatile unsigned *g = (volatile unsigned*)c; unsigned old = *g;
    *(volatile int*)m = 0;
    // spurious wake-ups are legal
    block("pthread_cond_wait", [g, old] { return *g != old; });
    return lockWord((volatile int*)m, "pthread_cond_wait(relock)");
}
int pthread_cond_signal(pthread_cond_t *c) { ++*(volatile unsigned*)c; if (cur) yieldPoint("pthread_cond_signal"); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { ++*(volatile unsigned*)c; if (cur) yieldPoint("pthread_cond_broadcast"); return 0; }
}
