#include "core/sim.h"
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <algorithm>
#include <unordered_map>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {
const char *kindName[K_COUNT] = {"sched","stall","rdv","delay","collsync","redorder","iprobe","poison","omporder","preempt","clock","open","read","write","close","mkdir","crash"};
Config cfg;
Stats stats;
Task *cur = nullptr;
uint64_t step = 0;
std::vector<Rank> ranks;
bool failed = false;
static std::vector<Task*> tasks;
static void *mainSp;
static std::string failClass, failDetail;
static std::vector<Dec> journal;
static std::vector<std::string> notes;
static std::vector<uint64_t> events; // heap (min)

struct DecKey { int k; uint32_t a; uint64_t b; bool operator==(const DecKey &o) const { return k == o.k && a == o.a && b == o.b; } };
struct DecHash { size_t operator()(const DecKey &d) const { return (d.b * 1000003ull + d.a) * 131 + d.k; } };
static std::unordered_map<DecKey, uint32_t, DecHash> script;
static bool scriptLoaded = false;

static inline uint64_t sm(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
uint64_t prf(uint64_t seed, uint64_t k, uint64_t a, uint64_t b) { return sm(sm(sm(sm(seed) ^ k) ^ a * 0x9E3779B1ull) ^ b); }

uint32_t decide(Kind k, uint32_t a, uint64_t b, uint32_t n)
{
    stats.asked[k]++;
    if (n < 2) return 0;
    uint32_t v = 0;
    if (cfg.replay) {
        if (!scriptLoaded) { for (auto &d : cfg.script) script[{d.kind, d.a, d.b}] = d.v; scriptLoaded = true; }
        if (script.empty()) return 0;
        auto it = script.find({k, a, b});
        if (it == script.end()) return 0;
        v = it->second;
        if (v >= n) v = 1 + (v - 1) % (n - 1);
    } else {
        if (cfg.p[k] <= 0) return 0;
        uint64_t r = prf(cfg.seed, 1000 + k, a, b);
        if ((r >> 11) * (1.0 / 9007199254740992.0) >= cfg.p[k]) return 0;
        v = 1 + (prf(cfg.seed, 2000 + k, a, b) >> 7) % (n - 1);
    }
    if (v) {
        stats.fired[k]++;
        mix(((uint64_t)k << 56) ^ ((uint64_t)a << 40) ^ (b << 4) ^ v);
        if (cfg.journal) journal.push_back({k, a, b, v});
    }
    return v;
}

void hit(const char *p) { stats.probe[p]++; }

extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $16, %rsp
    stmxcsr (%rsp)
    fnstcw 8(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 8(%rsp)
    addq $16, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void toTask(Task *t)
{
    cur = t;
    void **g = (void**)__cxxabiv1::__cxa_get_globals();
    g[0] = t->eh[0]; g[1] = t->eh[1];
    errno = t->err;
    sim_switch(&mainSp, t->sp);
}
static void toMain()
{
    Task *t = cur;
    t->err = errno;
    void **g = (void**)__cxxabiv1::__cxa_get_globals();
    t->eh[0] = g[0]; t->eh[1] = g[1];
    sim_switch(&t->sp, mainSp);
}
void switchAway() { toMain(); }

static void entry()
{
    Task *t = cur;
    t->body();
    t->state = Task::DONE;
    toMain();
    abort();
}

Task* spawn(int rank, const char *what, std::function<void()> body, size_t stack)
{
    Task *t = new Task();
    t->id = tasks.size();
    t->rank = rank;
    t->what = what;
    t->body = std::move(body);
    t->stackSize = stack;
    t->stack = (char*)mmap(nullptr, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t->stack == MAP_FAILED) { fprintf(stderr, "sim: mmap stack\n"); _exit(97); }
    mprotect(t->stack, 4096, PROT_NONE);
    uint64_t *sp = (uint64_t*)(t->stack + stack - 64);
    sp = (uint64_t*)((uintptr_t)sp & ~15ull);
    *--sp = 0;                 // alignment: at entry rsp % 16 == 8
    *--sp = (uint64_t)entry;   // return address
    for (int i = 0; i < 6; ++i) *--sp = 0;
    sp -= 2;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    *(uint32_t*)sp = mx; *(uint16_t*)(sp + 1) = cw;
    t->sp = sp;
    tasks.push_back(t);
    return t;
}

void addEvent(uint64_t at)
{
    if (at <= step) return;
    events.push_back(at);
    std::push_heap(events.begin(), events.end(), std::greater<uint64_t>());
}

static const uint64_t stallLen[] = {0, 4, 16, 64, 256, 1024, 4096, 16384};

static const uint64_t stallCap = 3000;
static uint64_t executed = 0;

void yieldPoint(const char *what)
{
    if (!cur || failed) return;
    Task *t = cur;
    ++step; ++t->lsteps;
    // bounded liveness: stalls stop after a while and skipped (idle) time does not count
    if (++executed > cfg.maxSteps) { fail("no-progress", "step budget of %llu exhausted (last: rank %d %s)", (unsigned long long)cfg.maxSteps, t->rank, what); }
    if (cfg.crashRank == t->rank && cfg.crashStep && t == me().main && t->lsteps == cfg.crashStep) {
        stats.fired[K_CRASH]++;
        dieRank(Rank::CRASHED, 137, std::string("killed at ") + what);
    }
    if (cfg.p[K_CRASH] > 0 || cfg.replay) {
        if (decide(K_CRASH, t->id, t->lsteps, 2)) dieRank(Rank::CRASHED, 137, std::string("killed at ") + what);
    }
    if (uint32_t v = stats.fired[K_STALL] < stallCap ? decide(K_STALL, t->id, t->lsteps, 8) : 0) {
        t->wake = step + stallLen[v];
        addEvent(t->wake);
        toMain();
        return;
    }
    if (decide(K_SCHED, 0, step, 64)) { toMain(); }
}

void block(const char *what, std::function<bool()> ready)
{
    Task *t = cur;
    if (ready()) return;
    while (true) {
        t->state = Task::BLOCKED;
        t->ready = ready;
        t->blockedOn = what;
        toMain();
        t->state = Task::RUNNABLE;
        if (ready()) { t->ready = nullptr; return; }
    }
}

void dieRank(Rank::State st, int code, const std::string &why)
{
    Rank &r = me();
    r.state = st; r.code = code; r.exitWhy = why;
    mix(0xdead0000 + r.id * 256 + code);
    for (auto *t : tasks) if (t->rank == r.id) t->state = Task::DEAD;
    toMain();
    abort();
}

static bool alive(Task *t) { return t->state == Task::RUNNABLE || t->state == Task::BLOCKED; }

void run()
{
    std::vector<Task*> cand;
    uint64_t deathStep = 0; bool death = false;
    Task *last = nullptr;
    while (!failed) {
        // launcher semantics: one rank died abnormally -> the job is killed
        bool all = true;
        for (auto &r : ranks) {
            if (r.main && r.main->state == Task::DONE && r.state == Rank::RUNNING) r.state = Rank::RETURNED;
            if (r.state == Rank::RUNNING) all = false;
            if (!death && (r.state == Rank::CRASHED || (r.state == Rank::EXITED && !r.finalized))) { death = true; deathStep = step + cfg.launcherGrace; addEvent(deathStep); }
        }
        if (all) break;
        if (death && step >= deathStep) {
            for (auto &r : ranks) if (r.state == Rank::RUNNING) { r.state = Rank::KILLED; r.code = 143; for (auto *t : tasks) if (t->rank == r.id) t->state = Task::DEAD; }
            break;
        }
        cand.clear();
        bool stalled = false;
        for (auto *t : tasks) {
            if (t->idle) continue;
            if (t->state == Task::RUNNABLE || (t->state == Task::BLOCKED && t->ready && (cur = t, t->ready()))) {
                if (t->wake > step) { stalled = true; continue; }
                cand.push_back(t);
            }
        }
        while (!events.empty() && events.front() <= step) { std::pop_heap(events.begin(), events.end(), std::greater<uint64_t>()); events.pop_back(); }
        if (cand.empty()) {
            if (!events.empty()) { step = events.front(); continue; }
            if (death) { step = deathStep; continue; }
            std::string d;
            for (auto *t : tasks) if (t->state == Task::BLOCKED) { char b[256]; snprintf(b, sizeof b, "rank %d %s waits in %s; ", t->rank, t->what, t->blockedOn); d += b; }
            fail("deadlock", "%s", d.c_str());
            break;
        }
        size_t def = 0;
        for (size_t i = 0; i < cand.size(); ++i) if (cand[i] == last) { def = i; goto found; }
        if (last) for (size_t i = 0; i < cand.size(); ++i) if (cand[i]->id > last->id) { def = i; break; }
found:
        ++step;
        size_t pick = def;
        if (cand.size() > 1) {
            uint32_t v = decide(K_SCHED, 0, step, 64);
            pick = (def + v) % cand.size();
        }
        Task *t = cand[pick];
        if (t != last) { stats.switches++; mix(0x51ull << 32 | t->id); }
        last = t;
        t->state = Task::RUNNABLE;
        toTask(t);
    }
    cur = nullptr;
}

void fail(const char *cls, const char *fmt, ...)
{
    if (failed) { if (cur) toMain(); return; }
    char buf[4096];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    failed = true; failClass = cls; failDetail = buf;
    if (cur) { for (;;) toMain(); }
}
void note(const char *fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (notes.size() < 200) notes.push_back(buf);
}

static std::string esc(const std::string &s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

void finishRun()
{
    fflush(stdout); fflush(stderr);
    if (!failed) {
        bool clean = true;
        for (auto &r : ranks) if (r.state == Rank::CRASHED || r.state == Rank::KILLED || r.state == Rank::EXITED) clean = false;
        if (clean) {
            std::string l = mpiLeftovers();
            if (l.size()) { failed = true; failClass = "orphan"; failDetail = l; }
        }
    }
    std::string o = "{";
    char b[512];
    snprintf(b, sizeof b, "\"seed\":%llu,\"steps\":%llu,\"hash\":\"%016llx\",", (unsigned long long)cfg.seed, (unsigned long long)step, (unsigned long long)stats.hash); o += b;
    o += "\"fail\":"; if (failed) o += "{\"class\":\"" + esc(failClass) + "\",\"detail\":\"" + esc(failDetail) + "\"}"; else o += "null";
    o += ",\"ranks\":[";
    static const char *stn[] = {"running", "returned", "exited", "crashed", "killed"};
    for (size_t i = 0; i < ranks.size(); ++i) { snprintf(b, sizeof b, "%s{\"state\":\"%s\",\"code\":%d,\"finalized\":%d,\"lsteps\":%llu,\"why\":\"", i ? "," : "", stn[ranks[i].state], ranks[i].code, ranks[i].finalized, (unsigned long long)(ranks[i].main ? ranks[i].main->lsteps : 0)); o += b; o += esc(ranks[i].exitWhy) + "\"}"; }
    o += "],\"fired\":{";
    bool first = true;
    for (int k = 0; k < K_COUNT; ++k) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", kindName[k], (unsigned long long)stats.fired[k]); o += b; first = false; }
    o += "},\"asked\":{"; first = true;
    for (int k = 0; k < K_COUNT; ++k) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", kindName[k], (unsigned long long)stats.asked[k]); o += b; first = false; }
    snprintf(b, sizeof b, "},\"switches\":%llu,\"msgs\":%llu,\"bytes\":%llu,\"colls\":%llu,\"regions\":%llu,\"accesses\":%llu,\"wildcards\":%llu,\"wildchoice\":%llu,\"probe\":{",
        (unsigned long long)stats.switches, (unsigned long long)stats.msgs, (unsigned long long)stats.bytes, (unsigned long long)stats.colls, (unsigned long long)stats.regions, (unsigned long long)stats.accesses, (unsigned long long)stats.wildcards, (unsigned long long)stats.wildchoice);
    o += b; first = true;
    for (auto &p : stats.probe) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); o += b; first = false; }
    o += "},\"notes\":["; first = true;
    for (auto &n : notes) { o += (first ? "\"" : ",\"") + esc(n) + "\""; first = false; }
    o += "]";
    if (cfg.journal) {
        o += ",\"journal\":["; first = true;
        for (auto &d : journal) { snprintf(b, sizeof b, "%s[%d,%u,%llu,%u]", first ? "" : ",", d.kind, d.a, (unsigned long long)d.b, d.v); o += b; first = false; }
        o += "]";
    }
    o += "}\n";
    std::string f = cfg.rundir + "/.sim.result";
    int fd = (int)((long (*)(const char*, int, int))dlsym(RTLD_NEXT, "open"))(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    auto w = (ssize_t (*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
    size_t off = 0; while (off < o.size()) { ssize_t n = w(fd, o.data() + off, o.size() - off); if (n <= 0) break; off += n; }
    _Exit(0);
}
}

extern "C" {
// services for drivers inside a rank image
void sim_fail(const char *cls, const char *msg) { sim::fail(cls, "rank %d: %s", sim::cur ? sim::cur->rank : -1, msg); }
void sim_note(const char *msg) { sim::note("%s", msg); }
void sim_hit(const char *p) { sim::hit(p); }
uint64_t sim_rand(uint64_t a, uint64_t b) { return sim::prf(sim::cfg.seed, 77, a, b); }
int sim_rank() { return sim::cur ? sim::cur->rank : -1; }
void sim_yield() { sim::yieldPoint("driver"); }
}
