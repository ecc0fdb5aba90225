// Simulated MPI (the subset ESPRESO and ParMETIS use), OpenMPI ABI.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "core/sim.h"
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <algorithm>
#include <memory>
#include <complex>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <sys/syscall.h>

using namespace sim;

namespace {
struct TypeI { size_t size; int kind; }; // kind: 0 opaque
enum { T_OPAQUE, T_CHAR, T_INT, T_UINT, T_LONG, T_ULONG, T_LLONG, T_FLOAT, T_DOUBLE, T_DCPLX, T_2INT, T_DINT, T_SHORT, T_ULLONG, T_UCHAR, T_FCPLX };
}

// storage for the predefined handles
#define PRE(name) char name[512] __attribute__((aligned(64)));
extern "C" {
struct SimOpaque { char c[512]; };
#define P(x) SimOpaque x __attribute__((aligned(64), visibility("default")));
}
// mpi.h declares these with incomplete struct types; define them through asm aliases
#define DEF(sym) asm(".globl " #sym "\n.type " #sym ",@object\n.bss\n.balign 64\n" #sym ":\n.zero 1024\n.size " #sym ",1024\n.text\n");
DEF(ompi_mpi_comm_world) DEF(ompi_mpi_comm_self) DEF(ompi_mpi_comm_null) DEF(ompi_mpi_group_null) DEF(ompi_mpi_group_empty)
DEF(ompi_request_null) DEF(ompi_mpi_info_null) DEF(ompi_mpi_file_null) DEF(ompi_mpi_op_null) DEF(ompi_mpi_datatype_null)
DEF(ompi_mpi_byte) DEF(ompi_mpi_char) DEF(ompi_mpi_signed_char) DEF(ompi_mpi_unsigned_char) DEF(ompi_mpi_short) DEF(ompi_mpi_int) DEF(ompi_mpi_unsigned) DEF(ompi_mpi_long) DEF(ompi_mpi_unsigned_long)
DEF(ompi_mpi_long_long_int) DEF(ompi_mpi_unsigned_long_long) DEF(ompi_mpi_float) DEF(ompi_mpi_double) DEF(ompi_mpi_dblcplex) DEF(ompi_mpi_cplex) DEF(ompi_mpi_c_double_complex) DEF(ompi_mpi_2int) DEF(ompi_mpi_double_int) DEF(ompi_mpi_cxx_bool) DEF(ompi_mpi_c_bool)
DEF(ompi_mpi_int8_t) DEF(ompi_mpi_uint8_t) DEF(ompi_mpi_int32_t) DEF(ompi_mpi_uint32_t) DEF(ompi_mpi_int64_t) DEF(ompi_mpi_uint64_t)
DEF(ompi_mpi_op_sum) DEF(ompi_mpi_op_max) DEF(ompi_mpi_op_min) DEF(ompi_mpi_op_prod) DEF(ompi_mpi_op_bor) DEF(ompi_mpi_op_band) DEF(ompi_mpi_op_lor) DEF(ompi_mpi_op_land) DEF(ompi_mpi_op_minloc) DEF(ompi_mpi_op_maxloc)
DEF(ompi_mpi_errors_return) DEF(ompi_mpi_errors_are_fatal)

namespace {

// ---- types -----------------------------------------------------------------
struct UType { size_t size; };
std::map<const void*, TypeI> types;
TypeI typeOf(MPI_Datatype t)
{
    auto it = types.find(t);
    if (it == types.end()) { fail("mpi-misuse", "rank %d uses an unknown or freed datatype", cur->rank); }
    return it->second;
}
size_t tsize(MPI_Datatype t) { return typeOf(t).size; }

void initTypes()
{
    auto a = [] (void *p, size_t s, int k) { types[p] = {s, k}; };
    a(MPI_BYTE, 1, T_UCHAR); a(MPI_CHAR, 1, T_CHAR); a(MPI_SIGNED_CHAR, 1, T_CHAR); a(MPI_UNSIGNED_CHAR, 1, T_UCHAR); a(MPI_SHORT, 2, T_SHORT); a(MPI_INT, 4, T_INT); a(MPI_UNSIGNED, 4, T_UINT);
    a(MPI_LONG, 8, T_LONG); a(MPI_UNSIGNED_LONG, 8, T_ULONG); a(MPI_LONG_LONG, 8, T_LLONG); a(MPI_UNSIGNED_LONG_LONG, 8, T_ULLONG);
    a(MPI_FLOAT, 4, T_FLOAT); a(MPI_DOUBLE, 8, T_DOUBLE); a(&ompi_mpi_dblcplex, 16, T_DCPLX); a(&ompi_mpi_cplex, 8, T_FCPLX); a(MPI_C_DOUBLE_COMPLEX, 16, T_DCPLX); a(MPI_2INT, 8, T_2INT); a(MPI_DOUBLE_INT, 16, T_DINT);
    a(MPI_CXX_BOOL, 1, T_UCHAR); a(MPI_C_BOOL, 1, T_UCHAR); a(MPI_INT8_T, 1, T_CHAR); a(MPI_UINT8_T, 1, T_UCHAR); a(MPI_INT32_T, 4, T_INT); a(MPI_UINT32_T, 4, T_UINT); a(MPI_INT64_T, 8, T_LONG); a(MPI_UINT64_T, 8, T_ULONG);
}

// ---- communicators ---------------------------------------------------------
struct Req;
struct Msg {
    int src; int tag; uint64_t seq; uint64_t arrive;
    size_t bytes;
    std::vector<char> data; // eager copy
    Req *sreq = nullptr;    // rendezvous: live sender buffer
    const void *live = nullptr;
};
struct Req {
    int rank; bool send; bool done = false; bool freed = false; bool persistent = false;
    void *buf = nullptr; size_t cap = 0; int src = 0, tag = 0; struct Comm *comm = nullptr;
    int stSrc = MPI_ANY_SOURCE, stTag = MPI_ANY_TAG; size_t stBytes = 0;
    std::vector<char> saved; bool poisoned = false; bool trunc = false;
    const char *what = "";
};
struct Coll {
    std::string sig; int firstRank;
    std::vector<std::vector<char>> in; std::vector<char> arrived; int narr = 0, nleft = 0;
    std::vector<std::vector<int>> meta;
    std::vector<char> result; bool hasResult = false;
    std::vector<struct Comm*> newcomm; // per member
    std::map<int, struct Comm*> bycolor;
};
struct Comm {
    int id; std::vector<int> members; // comm rank -> world rank
    std::vector<int> index;           // world rank -> comm rank or -1
    std::vector<uint64_t> collseq;
    std::map<uint64_t, std::unique_ptr<Coll>> colls;
    std::vector<std::deque<Msg*>> inq;   // per comm rank: in channel order of sending
    std::vector<std::deque<Req*>> posted;
    std::vector<std::vector<uint64_t>> lastArr; // [src][dst] channel FIFO
    std::vector<char> freed;
};
std::vector<Comm*> comms;
Comm *world = nullptr; std::vector<Comm*> self;
std::set<Comm*> live;
uint64_t msgseq = 0;

Comm* newComm(const std::vector<int> &members)
{
    Comm *c = new Comm();
    c->id = comms.size(); c->members = members; c->index.assign(ranks.size(), -1);
    for (size_t i = 0; i < members.size(); ++i) c->index[members[i]] = i;
    size_t n = members.size();
    c->collseq.assign(n, 0); c->inq.resize(n); c->posted.resize(n); c->lastArr.assign(n, std::vector<uint64_t>(n, 0)); c->freed.assign(n, 0);
    comms.push_back(c); live.insert(c);
    return c;
}

Comm* get(MPI_Comm h, const char *fn)
{
    if (h == MPI_COMM_WORLD) return world;
    if (h == MPI_COMM_SELF) return self[cur->rank];
    Comm *c = (Comm*)h;
    if (h == MPI_COMM_NULL || !live.count(c)) { fail("mpi-misuse", "rank %d: %s on an invalid communicator", cur->rank, fn); }
    int r = c->index[cur->rank];
    if (r < 0) fail("mpi-misuse", "rank %d: %s on a communicator it is not a member of", cur->rank, fn);
    if (c->freed[r]) fail("mpi-misuse", "rank %d: %s on a freed communicator", cur->rank, fn);
    return c;
}
MPI_Comm handle(Comm *c) { if (c == nullptr) return MPI_COMM_NULL; return (MPI_Comm)c; }
int myrank(Comm *c) { return c->index[cur->rank]; }

struct Group { std::vector<int> world; };

void enter(const char *fn)
{
    if (!cur) { fprintf(stderr, "sim: %s outside of the simulation\n", fn); _Exit(98); }
    if (!me().inited) fail("mpi-misuse", "rank %d: %s before MPI_Init", cur->rank, fn);
    if (me().finalized) fail("mpi-misuse", "rank %d: %s after MPI_Finalize", cur->rank, fn);
    yieldPoint(fn);
}

// ---- point to point --------------------------------------------------------
bool matches(Req *r, Msg *m) { return (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }

void complete(Req *r, Msg *m)
{
    if (r->poisoned) { memcpy(r->buf, r->saved.data(), r->cap); r->poisoned = false; r->saved.clear(); r->saved.shrink_to_fit(); }
    size_t n = std::min(r->cap, m->bytes);
    if (m->bytes > r->cap) { r->trunc = true; }
    const void *from = m->sreq ? m->live : m->data.data();
    if (n) memcpy(r->buf, from, n);
    r->stSrc = m->src; r->stTag = m->tag; r->stBytes = m->bytes; r->done = true;
    if (m->sreq) m->sreq->done = true;
    mix(0x77ull << 40 | (uint64_t)r->rank << 32 | (uint64_t)(m->src & 0xff) << 24 | (m->bytes & 0xffffff));
}

// order in which visible messages of one receiver are considered
void visible(Comm *c, int dst, std::vector<Msg*> &out)
{
    out.clear();
    for (auto *m : c->inq[dst]) if (m->arrive <= step) out.push_back(m);
    std::stable_sort(out.begin(), out.end(), [] (Msg *a, Msg *b) { return a->arrive != b->arrive ? a->arrive < b->arrive : a->seq < b->seq; });
}

void progress(Comm *c, int dst)
{
    if (c->posted[dst].empty() || c->inq[dst].empty()) return;
    static std::vector<Msg*> vis;
    visible(c, dst, vis);
    std::vector<Msg*> v(vis);
    for (auto *m : v) {
        for (auto it = c->posted[dst].begin(); it != c->posted[dst].end(); ++it) {
            if (matches(*it, m)) {
                Req *r = *it;
                if (r->src == MPI_ANY_SOURCE) { stats.wildcards++; std::set<int> s; for (auto *x : v) if (matches(r, x)) s.insert(x->src); if (s.size() > 1) stats.wildchoice++; }
                c->posted[dst].erase(it);
                complete(r, m);
                auto &q = c->inq[dst];
                q.erase(std::find(q.begin(), q.end(), m));
                delete m;
                break;
            }
        }
        if (c->posted[dst].empty()) break;
    }
}

Req* doSend(const void *buf, int count, MPI_Datatype t, int dest, int tag, Comm *c, bool sync, const char *fn)
{
    Rank &r = me();
    size_t bytes = (size_t)count * tsize(t);
    if (count < 0) fail("mpi-misuse", "rank %d: %s with negative count %d", cur->rank, fn, count);
    if (tag < 0 || tag > cfg.tagub) fail("mpi-misuse", "rank %d: %s with tag %d (MPI_TAG_UB is %d)", cur->rank, fn, tag, cfg.tagub);
    if (dest < 0 || dest >= (int)c->members.size()) fail("mpi-misuse", "rank %d: %s to rank %d of %zu", cur->rank, fn, dest, c->members.size());
    uint64_t n = r.nsend++;
    Req *q = new Req(); q->rank = cur->rank; q->send = true; q->comm = c; q->what = fn;
    Msg *m = new Msg(); m->src = myrank(c); m->tag = tag; m->seq = msgseq++; m->bytes = bytes;
    bool rdv = sync || decide(K_RDV, cur->rank, n, 2);
    if (rdv) { m->sreq = q; m->live = buf; }
    else { m->data.assign((const char*)buf, (const char*)buf + bytes); q->done = true; }
    static const uint64_t dl[] = {0, 1, 4, 16, 64, 256, 1024, 4096};
    m->arrive = step + dl[decide(K_DELAY, cur->rank, n, 8)];
    uint64_t &last = c->lastArr[m->src][dest];
    if (m->arrive < last) m->arrive = last;
    last = m->arrive;
    addEvent(m->arrive);
    c->inq[dest].push_back(m);
    stats.msgs++; stats.bytes += bytes;
    mix(0x5eull << 40 | (uint64_t)cur->rank << 32 | (uint64_t)dest << 24 | (bytes & 0xffffff));
    return q;
}

Req* doRecv(void *buf, int count, MPI_Datatype t, int src, int tag, Comm *c, const char *fn, bool nonblocking)
{
    Rank &r = me();
    if (count < 0) fail("mpi-misuse", "rank %d: %s with negative count %d", cur->rank, fn, count);
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)c->members.size())) fail("mpi-misuse", "rank %d: %s from rank %d of %zu", cur->rank, fn, src, c->members.size());
    Req *q = new Req(); q->rank = cur->rank; q->send = false; q->comm = c; q->buf = buf; q->cap = (size_t)count * tsize(t); q->src = src; q->tag = tag; q->what = fn;
    uint64_t n = r.nrecv++;
    if (nonblocking && q->cap && decide(K_POISON, cur->rank, n, 2)) {
        q->saved.assign((char*)buf, (char*)buf + q->cap); q->poisoned = true;
        memset(buf, 0xA5, q->cap);
    }
    c->posted[myrank(c)].push_back(q);
    progress(c, myrank(c));
    return q;
}

bool reqReady(Req *q) { if (!q->done && !q->send) progress(q->comm, q->comm->index[q->rank]); return q->done; }

void finishReq(Req *q, MPI_Status *st, const char *fn)
{
    if (q->trunc) fail("truncation", "rank %d: %s: message of %zu bytes from %d (tag %d) does not fit into a buffer of %zu bytes", cur->rank, q->what, q->stBytes, q->stSrc, q->stTag, q->cap);
    if (st && st != MPI_STATUS_IGNORE && !q->send) { memset(st, 0, sizeof *st); st->MPI_SOURCE = q->stSrc; st->MPI_TAG = q->stTag; st->_ucount = q->stBytes; st->MPI_ERROR = MPI_SUCCESS; }
    delete q;
}

std::set<Req*> liveReqs;

void waitReq(Req *q, const char *fn)
{
    if (!reqReady(q)) {
        static char buf[64];
        block(fn, [q] { return reqReady(q); });
    }
}

// ---- collectives -----------------------------------------------------------
uint64_t pendingColl = 0;
struct Ctx { Comm *c; Coll *k; uint64_t n; int r; bool sync; };

Ctx beginColl(MPI_Comm h, const std::string &sig, const char *fn)
{
    enter(fn);
    Comm *c = get(h, fn);
    int r = myrank(c);
    uint64_t n = c->collseq[r]++;
    auto &k = c->colls[n];
    if (!k) { k.reset(new Coll()); k->sig = sig; k->firstRank = cur->rank; size_t s = c->members.size(); k->in.resize(s); k->arrived.assign(s, 0); k->meta.resize(s); k->newcomm.resize(s, nullptr); stats.colls++; }
    if (k->sig != sig) fail("collective-mismatch", "collective %llu of communicator %d (%zu ranks): rank %d calls %s, rank %d called %s", (unsigned long long)n, c->id, c->members.size(), cur->rank, sig.c_str(), k->firstRank, k->sig.c_str());
    bool sync = decide(K_COLLSYNC, cur->rank, me().ncoll++, 2);
    mix(0xc0ull << 40 | (uint64_t)cur->rank << 32 | n);
    return {c, k.get(), n, r, sync};
}
void arrive(Ctx &x) { x.k->arrived[x.r] = 1; x.k->narr++; }
void waitAll(Ctx &x, const char *fn) { Coll *k = x.k; int s = x.c->members.size(); block(fn, [k, s] { return k->narr == s; }); }
void waitRank(Ctx &x, int r, const char *fn) { Coll *k = x.k; block(fn, [k, r] { return (bool)k->arrived[r]; }); }
void leave(Ctx &x) { if (++x.k->nleft == (int)x.c->members.size()) x.c->colls.erase(x.n); }
void put(Ctx &x, const void *b, size_t n) { x.k->in[x.r].assign((const char*)b, (const char*)b + n); }

std::string sg(const char *n) { return n; }
std::string sg(const char *n, size_t a) { char b[128]; snprintf(b, sizeof b, "%s(bytes=%zu)", n, a); return b; }
std::string sg(const char *n, size_t a, int root) { char b[128]; snprintf(b, sizeof b, "%s(bytes=%zu,root=%d)", n, a, root); return b; }
std::string sgr(const char *n, int root) { char b[128]; snprintf(b, sizeof b, "%s(root=%d)", n, root); return b; }

struct OpI { int kind; MPI_User_function *fn; bool commute; };
enum { O_SUM, O_MAX, O_MIN, O_PROD, O_BOR, O_BAND, O_LOR, O_LAND, O_MINLOC, O_MAXLOC, O_USER };
std::map<const void*, OpI> ops;
void initOps()
{
    auto a = [] (void *p, int k) { ops[p] = {k, nullptr, true}; };
    a(MPI_SUM, O_SUM); a(MPI_MAX, O_MAX); a(MPI_MIN, O_MIN); a(MPI_PROD, O_PROD); a(MPI_BOR, O_BOR); a(MPI_BAND, O_BAND); a(MPI_LOR, O_LOR); a(MPI_LAND, O_LAND); a(MPI_MINLOC, O_MINLOC); a(MPI_MAXLOC, O_MAXLOC);
}

template <typename T> void applyN(int k, const T *in, T *io, size_t n)
{
    for (size_t i = 0; i < n; ++i) switch (k) {
    case O_SUM: io[i] = in[i] + io[i]; break;
    case O_PROD: io[i] = in[i] * io[i]; break;
    case O_MAX: if (io[i] < in[i]) io[i] = in[i]; break;
    case O_MIN: if (in[i] < io[i]) io[i] = in[i]; break;
    default: break;
    }
}
template <typename T> void applyI(int k, const T *in, T *io, size_t n)
{
    if (k <= O_PROD) { applyN(k, in, io, n); return; }
    for (size_t i = 0; i < n; ++i) switch (k) {
    case O_BOR: io[i] = in[i] | io[i]; break;
    case O_BAND: io[i] = in[i] & io[i]; break;
    case O_LOR: io[i] = in[i] || io[i]; break;
    case O_LAND: io[i] = in[i] && io[i]; break;
    default: break;
    }
}
void apply(MPI_Op op, MPI_Datatype t, const void *in, void *io, int count)
{
    auto it = ops.find(op);
    if (it == ops.end()) { fail("mpi-misuse", "rank %d: reduction with an unknown or freed operation", cur->rank); return; }
    OpI o = it->second;
    if (o.kind == O_USER) { int n = count; MPI_Datatype tt = t; o.fn(const_cast<void*>(in), io, &n, &tt); return; }
    TypeI ty = typeOf(t);
    switch (ty.kind) {
    case T_CHAR: applyI(o.kind, (const signed char*)in, (signed char*)io, count); break;
    case T_UCHAR: applyI(o.kind, (const unsigned char*)in, (unsigned char*)io, count); break;
    case T_SHORT: applyI(o.kind, (const short*)in, (short*)io, count); break;
    case T_INT: applyI(o.kind, (const int*)in, (int*)io, count); break;
    case T_UINT: applyI(o.kind, (const unsigned*)in, (unsigned*)io, count); break;
    case T_LONG: case T_LLONG: applyI(o.kind, (const long*)in, (long*)io, count); break;
    case T_ULONG: case T_ULLONG: applyI(o.kind, (const unsigned long*)in, (unsigned long*)io, count); break;
    case T_FLOAT: applyN(o.kind, (const float*)in, (float*)io, count); break;
    case T_DOUBLE: applyN(o.kind, (const double*)in, (double*)io, count); break;
    case T_DCPLX: for (int i = 0; i < count; ++i) ((std::complex<double>*)io)[i] += ((const std::complex<double>*)in)[i]; break;
    case T_FCPLX: for (int i = 0; i < count; ++i) ((std::complex<float>*)io)[i] += ((const std::complex<float>*)in)[i]; break;
    case T_2INT: for (int i = 0; i < count; ++i) { const int *a = (const int*)in + 2 * i; int *b = (int*)io + 2 * i; bool tk = o.kind == O_MINLOC ? (a[0] < b[0] || (a[0] == b[0] && a[1] < b[1])) : (a[0] > b[0] || (a[0] == b[0] && a[1] < b[1])); if (tk) { b[0] = a[0]; b[1] = a[1]; } } break;
    case T_DINT: { struct DI { double d; int i; }; for (int i = 0; i < count; ++i) { const DI *a = (const DI*)in + i; DI *b = (DI*)io + i; bool tk = o.kind == O_MINLOC ? (a->d < b->d || (a->d == b->d && a->i < b->i)) : (a->d > b->d || (a->d == b->d && a->i < b->i)); if (tk) *b = *a; } break; }
    default: fail("mpi-misuse", "rank %d: builtin reduction on a derived type", cur->rank);
    }
}

// reduce contributions [0, upto) of the collective in the order chosen for this collective
void reduceInto(Ctx &x, int upto, MPI_Op op, MPI_Datatype t, int count, std::vector<char> &out)
{
    size_t bytes = tsize(t) * count;
    std::vector<int> ord(upto);
    for (int i = 0; i < upto; ++i) ord[i] = i;
    bool commute = ops.count(op) ? ops[op].commute : true;
    // one decision per collective so that every member sees the same order
    uint32_t v = commute ? decide(K_REDORDER, x.c->id, x.n, 1024) : 0;
    if (v) for (int i = upto - 1; i > 0; --i) std::swap(ord[i], ord[prf(cfg.seed, v, x.n, i) % (i + 1)]);
    out.assign(x.k->in[ord[upto - 1]].begin(), x.k->in[ord[upto - 1]].end());
    out.resize(bytes);
    // out = in[0] op (in[1] op (... in[n-1]))
    std::vector<char> tmp;
    for (int i = upto - 2; i >= 0; --i) { tmp = x.k->in[ord[i]]; apply(op, t, tmp.data(), out.data(), count); }
}

// ---- files -----------------------------------------------------------------
struct FileI { int fd; Comm *comm; std::string path; int rank; };

int realOpen(const char *p, int fl, int mode) { return (int)syscall(SYS_open, p, fl, mode); }

} // namespace

namespace sim {
int ioFault(Kind k, const char *path, uint64_t &counter, int n);   // os.cpp
int64_t quotaTake(int64_t bytes);                                   // os.cpp: how many of the bytes fit
bool pathAllowed(const char *path);

void mpiReset()
{
    initTypes(); initOps();
    std::vector<int> all;
    for (auto &r : ranks) all.push_back(r.id);
    world = newComm(all);
    for (auto &r : ranks) self.push_back(newComm({r.id}));
}

std::string mpiLeftovers()
{
    std::string s; char b[256];
    for (auto *c : comms) for (size_t d = 0; d < c->inq.size(); ++d) {
        for (auto *m : c->inq[d]) { snprintf(b, sizeof b, "message %d->%zu tag %d (%zu bytes) on communicator %d was never received; ", c->members[m->src], (size_t)c->members[d], m->tag, m->bytes, c->id); if (s.size() < 2000) s += b; }
        for (auto *r : c->posted[d]) { snprintf(b, sizeof b, "receive posted by rank %d (source %d, tag %d) was never completed; ", r->rank, r->src, r->tag); if (s.size() < 2000) s += b; }
    }
    return s;
}
}

extern "C" {

int MPI_Init_thread(int *, char ***, int required, int *provided) { if (me().inited) fail("mpi-misuse", "MPI_Init called twice"); yieldPoint("MPI_Init"); me().inited = true; if (provided) *provided = required; return MPI_SUCCESS; }
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int *f) { *f = cur ? me().inited : 0; return MPI_SUCCESS; }
int MPI_Finalized(int *f) { *f = cur ? me().finalized : 0; return MPI_SUCCESS; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
int MPI_Finalize()
{
    Ctx x = beginColl(MPI_COMM_WORLD, "MPI_Finalize", "MPI_Finalize");
    arrive(x); waitAll(x, "MPI_Finalize"); leave(x);
    me().finalized = true;
    return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) { dieRank(Rank::EXITED, code ? code : 1, "MPI_Abort"); }

int MPI_Comm_rank(MPI_Comm h, int *r) { if (!cur) { *r = 0; return 0; } Comm *c = get(h, "MPI_Comm_rank"); *r = myrank(c); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm h, int *s) { if (!cur) { *s = 1; return 0; } Comm *c = get(h, "MPI_Comm_size"); *s = c->members.size(); return MPI_SUCCESS; }
int MPI_Comm_get_attr(MPI_Comm, int key, void *val, int *flag) { if (key == MPI_TAG_UB) { *(void**)val = &cfg.tagub; *flag = 1; } else *flag = 0; return MPI_SUCCESS; }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return MPI_COMM_WORLD; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simnode"); *l = 7; return MPI_SUCCESS; }

int MPI_Comm_dup(MPI_Comm h, MPI_Comm *out)
{
    Ctx x = beginColl(h, "MPI_Comm_dup", "MPI_Comm_dup");
    arrive(x); waitAll(x, "MPI_Comm_dup");
    if (!x.k->bycolor.count(0)) x.k->bycolor[0] = newComm(x.c->members);
    *out = handle(x.k->bycolor[0]); leave(x);
    return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm *out)
{
    Ctx x = beginColl(h, "MPI_Comm_split", "MPI_Comm_split");
    x.k->meta[x.r] = {color, key};
    arrive(x); waitAll(x, "MPI_Comm_split");
    if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; leave(x); return MPI_SUCCESS; }
    if (!x.k->bycolor.count(color)) {
        std::vector<std::pair<int, int>> m;
        for (size_t i = 0; i < x.c->members.size(); ++i) if (x.k->meta[i][0] == color) m.push_back({x.k->meta[i][1], (int)i});
        std::stable_sort(m.begin(), m.end());
        std::vector<int> w; for (auto &p : m) w.push_back(x.c->members[p.second]);
        x.k->bycolor[color] = newComm(w);
    }
    *out = handle(x.k->bycolor[color]); leave(x);
    return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm h, int type, int key, MPI_Info, MPI_Comm *out) { Comm *c = get(h, "MPI_Comm_split_type"); (void)c; return MPI_Comm_split(h, cfg.ppn > 0 ? cur->rank / cfg.ppn : 0, key, out); }
int MPI_Comm_group(MPI_Comm h, MPI_Group *g) { Comm *c = get(h, "MPI_Comm_group"); Group *q = new Group(); q->world = c->members; *g = (MPI_Group)q; return MPI_SUCCESS; }
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *out) { Group *q = new Group(); for (int i = 0; i < n; ++i) { if (r[i] < 0 || r[i] >= (int)((Group*)g)->world.size()) fail("mpi-misuse", "rank %d: MPI_Group_incl: invalid rank %d", cur->rank, r[i]); q->world.push_back(((Group*)g)->world[r[i]]); } *out = (MPI_Group)q; return MPI_SUCCESS; }
int MPI_Group_free(MPI_Group *g) { delete (Group*)*g; *g = MPI_GROUP_NULL; return MPI_SUCCESS; }
int MPI_Group_size(MPI_Group g, int *n) { *n = ((Group*)g)->world.size(); return MPI_SUCCESS; }
int MPI_Group_rank(MPI_Group g, int *n) { auto &w = ((Group*)g)->world; auto it = std::find(w.begin(), w.end(), cur->rank); *n = it == w.end() ? MPI_UNDEFINED : it - w.begin(); return MPI_SUCCESS; }
int MPI_Comm_create(MPI_Comm h, MPI_Group g, MPI_Comm *out)
{
    Ctx x = beginColl(h, "MPI_Comm_create", "MPI_Comm_create");
    x.k->meta[x.r] = ((Group*)g)->world;
    arrive(x); waitAll(x, "MPI_Comm_create");
    auto &w = x.k->meta[x.r];
    if (std::find(w.begin(), w.end(), cur->rank) == w.end()) { *out = MPI_COMM_NULL; leave(x); return MPI_SUCCESS; }
    int key = w[0];
    if (!x.k->bycolor.count(key)) x.k->bycolor[key] = newComm(w);
    *out = handle(x.k->bycolor[key]); leave(x);
    return MPI_SUCCESS;
}
struct GKey { int parent; std::vector<int> w; int tag; uint64_t n; bool operator<(const GKey &o) const { return std::tie(parent, w, tag, n) < std::tie(o.parent, o.w, o.tag, o.n); } };
static std::map<GKey, std::pair<int, Comm*>> gcreate;
static std::map<std::pair<int, std::vector<int>>, std::map<int, uint64_t>> gcount;
int MPI_Comm_create_group(MPI_Comm h, MPI_Group g, int tag, MPI_Comm *out)
{
    enter("MPI_Comm_create_group");
    Comm *c = get(h, "MPI_Comm_create_group");
    auto &w = ((Group*)g)->world;
    GKey k{c->id, w, tag, gcount[{c->id, w}][cur->rank]++};
    auto &e = gcreate[k];
    e.first++;
    auto *pe = &e; size_t n = w.size();
    block("MPI_Comm_create_group", [pe, n] { return pe->first >= (int)n; });
    if (!e.second) e.second = newComm(w);
    *out = handle(e.second);
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *h)
{
    if (*h == MPI_COMM_NULL) { fail("mpi-misuse", "rank %d: MPI_Comm_free(MPI_COMM_NULL)", cur->rank); }
    Comm *c = get(*h, "MPI_Comm_free"); c->freed[myrank(c)] = 1; *h = MPI_COMM_NULL;
    return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }

int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { UType *u = new UType{n * tsize(o)}; types[u] = {u->size, T_OPAQUE}; *t = (MPI_Datatype)u; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { types.erase(*t); *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return MPI_SUCCESS; }
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op) { char *p = new char[8]; ops[p] = {O_USER, f, (bool)commute}; *op = (MPI_Op)p; return MPI_SUCCESS; }
int MPI_Op_free(MPI_Op *op) { ops.erase(*op); *op = MPI_OP_NULL; return MPI_SUCCESS; }

int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h)
{
    enter("MPI_Send"); Comm *c = get(h, "MPI_Send");
    Req *q = doSend(b, n, t, d, tag, c, false, "MPI_Send");
    waitReq(q, "MPI_Send"); finishReq(q, nullptr, "MPI_Send");
    return MPI_SUCCESS;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h)
{
    enter("MPI_Ssend"); Comm *c = get(h, "MPI_Ssend");
    Req *q = doSend(b, n, t, d, tag, c, true, "MPI_Ssend");
    waitReq(q, "MPI_Ssend"); finishReq(q, nullptr, "MPI_Ssend");
    return MPI_SUCCESS;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Status *st)
{
    enter("MPI_Recv"); Comm *c = get(h, "MPI_Recv");
    Req *q = doRecv(b, n, t, s, tag, c, "MPI_Recv", false);
    waitReq(q, "MPI_Recv"); finishReq(q, st, "MPI_Recv");
    return MPI_SUCCESS;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *r)
{
    enter("MPI_Isend"); Comm *c = get(h, "MPI_Isend");
    Req *q = doSend(b, n, t, d, tag, c, false, "MPI_Isend"); liveReqs.insert(q);
    *r = (MPI_Request)q; return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request *r)
{
    enter("MPI_Irecv"); Comm *c = get(h, "MPI_Irecv");
    Req *q = doRecv(b, n, t, s, tag, c, "MPI_Irecv", true); liveReqs.insert(q);
    *r = (MPI_Request)q; return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stype, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm h, MPI_Status *st)
{
    enter("MPI_Sendrecv"); Comm *c = get(h, "MPI_Sendrecv");
    Req *q = doSend(sb, sn, stype, d, stag, c, false, "MPI_Sendrecv");
    Req *p = doRecv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv", false);
    waitReq(q, "MPI_Sendrecv"); waitReq(p, "MPI_Sendrecv"); finishReq(q, nullptr, ""); finishReq(p, st, "");
    return MPI_SUCCESS;
}
static void checkReq(Req *q, const char *fn) { if (!liveReqs.count(q)) fail("mpi-misuse", "rank %d: %s on an invalid request", cur->rank, fn); }
int MPI_Wait(MPI_Request *r, MPI_Status *st)
{
    enter("MPI_Wait");
    if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS;
    Req *q = (Req*)*r; checkReq(q, "MPI_Wait");
    waitReq(q, "MPI_Wait"); liveReqs.erase(q); finishReq(q, st, "MPI_Wait"); *r = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *st)
{
    enter("MPI_Test");
    if (*r == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; }
    Req *q = (Req*)*r; checkReq(q, "MPI_Test");
    *flag = reqReady(q);
    if (*flag) { liveReqs.erase(q); finishReq(q, st, "MPI_Test"); *r = MPI_REQUEST_NULL; }
    else { step += 16; cur->wake = step + 1; addEvent(step + 1); switchAway(); }
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status st[])
{
    enter("MPI_Waitall");
    std::vector<Req*> q;
    for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { checkReq((Req*)r[i], "MPI_Waitall"); q.push_back((Req*)r[i]); }
    block("MPI_Waitall", [&q] { bool all = true; for (auto *x : q) if (!reqReady(x)) all = false; return all; });
    for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { liveReqs.erase((Req*)r[i]); finishReq((Req*)r[i], st == MPI_STATUSES_IGNORE ? nullptr : st + i, "MPI_Waitall"); r[i] = MPI_REQUEST_NULL; }
    return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *st)
{
    enter("MPI_Waitany");
    std::vector<int> act; for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { checkReq((Req*)r[i], "MPI_Waitany"); act.push_back(i); }
    if (act.empty()) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
    block("MPI_Waitany", [&] { for (int i : act) if (reqReady((Req*)r[i])) return true; return false; });
    std::vector<int> rdy; for (int i : act) if (reqReady((Req*)r[i])) rdy.push_back(i);
    int i = rdy[decide(K_IPROBE, cur->rank, me().niprobe++, rdy.size())];
    Req *q = (Req*)r[i]; liveReqs.erase(q); finishReq(q, st, "MPI_Waitany"); r[i] = MPI_REQUEST_NULL; *idx = i;
    return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request *r) { liveReqs.erase((Req*)*r); *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
static Msg* findVisible(Comm *c, int src, int tag)
{
    Req q; q.src = src; q.tag = tag; q.rank = cur->rank;
    std::vector<Msg*> v; visible(c, c->index[cur->rank], v);
    std::vector<Msg*> m; for (auto *x : v) if (matches(&q, x)) m.push_back(x);
    if (m.empty()) return nullptr;
    return m[0];
}
static void fillProbe(Comm *c, int src, int tag, Msg *m, MPI_Status *st)
{
    if (src == MPI_ANY_SOURCE) { stats.wildcards++; Req q; q.src = src; q.tag = tag; std::set<int> s; std::vector<Msg*> v; visible(c, c->index[cur->rank], v); for (auto *x : v) if (matches(&q, x)) s.insert(x->src); if (s.size() > 1) stats.wildchoice++; }
    if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_ucount = m->bytes; }
}
int MPI_Probe(int src, int tag, MPI_Comm h, MPI_Status *st)
{
    enter("MPI_Probe"); Comm *c = get(h, "MPI_Probe");
    block("MPI_Probe", [=] { return findVisible(c, src, tag) != nullptr; });
    fillProbe(c, src, tag, findVisible(c, src, tag), st);
    return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm h, int *flag, MPI_Status *st)
{
    enter("MPI_Iprobe"); Comm *c = get(h, "MPI_Iprobe");
    Msg *m = findVisible(c, src, tag);
    uint64_t n = me().niprobe++;
    if (m && decide(K_IPROBE, cur->rank, n, 2)) m = nullptr;
    *flag = m != nullptr;
    if (m) fillProbe(c, src, tag, m, st);
    else { cur->wake = step + 8; addEvent(cur->wake); switchAway(); } // polling must not starve the others
    return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { size_t s = tsize(t); *n = s == 0 ? 0 : (st->_ucount % s ? MPI_UNDEFINED : (int)(st->_ucount / s)); return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm h) { Ctx x = beginColl(h, "MPI_Barrier", "MPI_Barrier"); arrive(x); waitAll(x, "MPI_Barrier"); leave(x); return MPI_SUCCESS; }

int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm h)
{
    size_t bytes = n * tsize(t);
    Ctx x = beginColl(h, sg("MPI_Bcast", bytes, root), "MPI_Bcast");
    if (x.r == root) put(x, b, bytes);
    arrive(x);
    if (x.sync) waitAll(x, "MPI_Bcast");
    if (x.r != root) { waitRank(x, root, "MPI_Bcast"); memcpy(b, x.k->in[root].data(), bytes); }
    leave(x); return MPI_SUCCESS;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h)
{
    size_t bytes = n * tsize(t);
    Ctx x = beginColl(h, sg("MPI_Reduce", bytes, root), "MPI_Reduce");
    if (s == MPI_IN_PLACE && x.r != root) fail("mpi-misuse", "rank %d: MPI_Reduce with MPI_IN_PLACE on a non-root", cur->rank);
    if (s != MPI_IN_PLACE && x.r == root && s == r && bytes) fail("mpi-misuse", "rank %d: MPI_Reduce with aliased buffers", cur->rank);
    put(x, s == MPI_IN_PLACE ? r : s, bytes);
    arrive(x);
    if (x.r == root || x.sync) waitAll(x, "MPI_Reduce");
    if (x.r == root) { std::vector<char> o; reduceInto(x, x.c->members.size(), op, t, n, o); memcpy(r, o.data(), bytes); }
    leave(x); return MPI_SUCCESS;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h)
{
    size_t bytes = n * tsize(t);
    Ctx x = beginColl(h, sg("MPI_Allreduce", bytes), "MPI_Allreduce");
    if (s != MPI_IN_PLACE && s == r && bytes) fail("mpi-misuse", "rank %d: MPI_Allreduce with aliased buffers", cur->rank);
    put(x, s == MPI_IN_PLACE ? r : s, bytes);
    arrive(x); waitAll(x, "MPI_Allreduce");
    std::vector<char> o; reduceInto(x, x.c->members.size(), op, t, n, o); memcpy(r, o.data(), bytes);
    leave(x); return MPI_SUCCESS;
}
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h, MPI_Request *q) { *q = MPI_REQUEST_NULL; return MPI_Allreduce(s, r, n, t, op, h); }
static int scanImpl(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h, bool incl, const char *fn)
{
    size_t bytes = n * tsize(t);
    Ctx x = beginColl(h, sg(fn, bytes), fn);
    if (s != MPI_IN_PLACE && s == r && bytes) fail("mpi-misuse", "rank %d: %s with aliased buffers", cur->rank, fn);
    put(x, s == MPI_IN_PLACE ? r : s, bytes);
    arrive(x);
    if (x.sync) waitAll(x, fn);
    int up = x.r + (incl ? 1 : 0);
    for (int i = 0; i < up; ++i) waitRank(x, i, fn);
    // exscan: rank order (prefix sums must be consistent between ranks)
    if (up) {
        std::vector<char> o(x.k->in[up - 1]);
        for (int i = up - 2; i >= 0; --i) { std::vector<char> tmp(x.k->in[i]); apply(op, t, tmp.data(), o.data(), n); }
        memcpy(r, o.data(), bytes);
    } else if (bytes && s != MPI_IN_PLACE) memset(r, 0xA5, bytes); // undefined on rank 0
    leave(x); return MPI_SUCCESS;
}
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return scanImpl(s, r, n, t, op, h, false, "MPI_Exscan"); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) { return scanImpl(s, r, n, t, op, h, true, "MPI_Scan"); }

int MPI_Gatherv(const void *s, int sn, MPI_Datatype stp, void *r, const int rc[], const int dp[], MPI_Datatype rt, int root, MPI_Comm h)
{
    Ctx x = beginColl(h, sgr("MPI_Gatherv", root), "MPI_Gatherv");
    size_t rs = x.r == root ? tsize(rt) : 0;
    if (s == MPI_IN_PLACE) put(x, (char*)r + dp[x.r] * rs, rc[x.r] * rs); else put(x, s, sn * tsize(stp));
    arrive(x);
    if (x.r == root || x.sync) waitAll(x, "MPI_Gatherv");
    if (x.r == root) for (size_t i = 0; i < x.c->members.size(); ++i) {
        if (x.k->in[i].size() != rc[i] * rs) fail("truncation", "MPI_Gatherv: rank %d of the communicator sends %zu bytes, root %d expects %zu", (int)i, x.k->in[i].size(), root, rc[i] * rs);
        if (x.k->in[i].size()) memcpy((char*)r + dp[i] * rs, x.k->in[i].data(), x.k->in[i].size());
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Gather(const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
    Ctx x = beginColl(h, sgr("MPI_Gather", root), "MPI_Gather");
    size_t rs = x.r == root ? tsize(rt) * rn : 0;
    if (s == MPI_IN_PLACE) put(x, (char*)r + x.r * rs, rs); else put(x, s, sn * tsize(stp));
    arrive(x);
    if (x.r == root || x.sync) waitAll(x, "MPI_Gather");
    if (x.r == root) for (size_t i = 0; i < x.c->members.size(); ++i) {
        if (x.k->in[i].size() != rs) fail("truncation", "MPI_Gather: rank %d of the communicator sends %zu bytes, root expects %zu", (int)i, x.k->in[i].size(), rs);
        if (rs) memcpy((char*)r + i * rs, x.k->in[i].data(), rs);
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, MPI_Comm h)
{
    size_t rs = tsize(rt) * rn;
    Ctx x = beginColl(h, sg("MPI_Allgather", rs), "MPI_Allgather");
    if (s == MPI_IN_PLACE) put(x, (char*)r + x.r * rs, rs); else put(x, s, sn * tsize(stp));
    arrive(x); waitAll(x, "MPI_Allgather");
    for (size_t i = 0; i < x.c->members.size(); ++i) {
        if (x.k->in[i].size() != rs) fail("truncation", "MPI_Allgather: size mismatch %zu %zu", x.k->in[i].size(), rs);
        if (rs) memcpy((char*)r + i * rs, x.k->in[i].data(), rs);
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype stp, void *r, const int rc[], const int dp[], MPI_Datatype rt, MPI_Comm h)
{
    size_t rs = tsize(rt);
    Ctx x = beginColl(h, "MPI_Allgatherv", "MPI_Allgatherv");
    if (s == MPI_IN_PLACE) put(x, (char*)r + dp[x.r] * rs, rc[x.r] * rs); else put(x, s, sn * tsize(stp));
    arrive(x); waitAll(x, "MPI_Allgatherv");
    for (size_t i = 0; i < x.c->members.size(); ++i) {
        if (x.k->in[i].size() != rc[i] * rs) fail("truncation", "MPI_Allgatherv: rank %d sends %zu bytes, %d expects %zu", (int)i, x.k->in[i].size(), x.r, rc[i] * rs);
        if (x.k->in[i].size()) memcpy((char*)r + dp[i] * rs, x.k->in[i].data(), x.k->in[i].size());
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
    Ctx x = beginColl(h, sgr("MPI_Scatter", root), "MPI_Scatter");
    size_t n = x.c->members.size();
    if (x.r == root) put(x, s, n * sn * tsize(stp));
    arrive(x);
    if (x.sync) waitAll(x, "MPI_Scatter");
    waitRank(x, root, "MPI_Scatter");
    size_t each = x.k->in[root].size() / n;
    if (r != MPI_IN_PLACE) {
        if (each != rn * tsize(rt)) fail("truncation", "MPI_Scatter: root sends %zu bytes, %d expects %zu", each, x.r, rn * tsize(rt));
        if (each) memcpy(r, x.k->in[root].data() + x.r * each, each);
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Scatterv(const void *s, const int sc[], const int dp[], MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm h)
{
    Ctx x = beginColl(h, sgr("MPI_Scatterv", root), "MPI_Scatterv");
    size_t n = x.c->members.size();
    if (x.r == root) {
        size_t ss = tsize(stp); std::vector<int> off; std::vector<char> buf;
        for (size_t i = 0; i < n; ++i) { off.push_back(buf.size()); buf.insert(buf.end(), (const char*)s + dp[i] * ss, (const char*)s + (dp[i] + sc[i]) * ss); }
        off.push_back(buf.size());
        x.k->in[x.r] = buf; x.k->meta[x.r] = off;
    }
    arrive(x);
    if (x.sync) waitAll(x, "MPI_Scatterv");
    waitRank(x, root, "MPI_Scatterv");
    auto &off = x.k->meta[root];
    size_t b = off[x.r + 1] - off[x.r];
    if (r != MPI_IN_PLACE) {
        if (b != rn * tsize(rt)) fail("truncation", "MPI_Scatterv: root sends %zu bytes, %d expects %zu", b, x.r, rn * tsize(rt));
        if (b) memcpy(r, x.k->in[root].data() + off[x.r], b);
    }
    leave(x); return MPI_SUCCESS;
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, MPI_Comm h)
{
    size_t ss = tsize(stp) * sn, rs = tsize(rt) * rn;
    Ctx x = beginColl(h, sg("MPI_Alltoall", rs), "MPI_Alltoall");
    size_t n = x.c->members.size();
    put(x, s == MPI_IN_PLACE ? r : s, n * (s == MPI_IN_PLACE ? rs : ss));
    arrive(x); waitAll(x, "MPI_Alltoall");
    for (size_t i = 0; i < n; ++i) if (rs) memcpy((char*)r + i * rs, x.k->in[i].data() + x.r * rs, rs);
    leave(x); return MPI_SUCCESS;
}
int MPI_Alltoallv(const void *s, const int sc[], const int sd[], MPI_Datatype stp, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm h)
{
    Ctx x = beginColl(h, "MPI_Alltoallv", "MPI_Alltoallv");
    size_t n = x.c->members.size(), ss = tsize(stp), rs = tsize(rt);
    std::vector<int> off; std::vector<char> buf;
    for (size_t i = 0; i < n; ++i) { off.push_back(buf.size()); buf.insert(buf.end(), (const char*)s + sd[i] * ss, (const char*)s + (sd[i] + sc[i]) * ss); }
    off.push_back(buf.size());
    x.k->in[x.r] = buf; x.k->meta[x.r] = off;
    arrive(x); waitAll(x, "MPI_Alltoallv");
    for (size_t i = 0; i < n; ++i) {
        auto &o = x.k->meta[i]; size_t b = o[x.r + 1] - o[x.r];
        if (b != rc[i] * rs) fail("truncation", "MPI_Alltoallv: %d sends %zu bytes to %d which expects %zu", (int)i, b, x.r, rc[i] * rs);
        if (b) memcpy((char*)r + rd[i] * rs, x.k->in[i].data() + o[x.r], b);
    }
    leave(x); return MPI_SUCCESS;
}
double MPI_Wtime() { return cur ? now(cur->rank) : 0; }

// ---- MPI-IO ----------------------------------------------------------------
int MPI_File_open(MPI_Comm h, const char *name, int amode, MPI_Info, MPI_File *out)
{
    Ctx x = beginColl(h, sg("MPI_File_open"), "MPI_File_open");
    int fl = (amode & MPI_MODE_RDONLY) ? O_RDONLY : (amode & MPI_MODE_WRONLY) ? O_WRONLY : O_RDWR;
    if (amode & MPI_MODE_CREATE) fl |= O_CREAT;
    if (amode & MPI_MODE_EXCL) fl |= O_EXCL;
    int err = ioFault(K_OPEN, name, me().nopen, 2) ? EIO : 0;
    int fd = -1;
    if (!err) { if (fl != O_RDONLY && !pathAllowed(name)) err = EACCES; else { fd = realOpen(name, fl, 0644); if (fd < 0) err = errno; } }
    x.k->meta[x.r] = {err};
    arrive(x); waitAll(x, "MPI_File_open");
    int any = 0; for (auto &m : x.k->meta) if (m[0]) any = m[0];
    leave(x);
    if (any) { if (fd >= 0) syscall(SYS_close, fd); *out = MPI_FILE_NULL; return any == ENOENT ? MPI_ERR_NO_SUCH_FILE : MPI_ERR_IO; }
    FileI *f = new FileI{fd, x.c, name, cur->rank};
    *out = (MPI_File)f;
    return MPI_SUCCESS;
}
int MPI_File_close(MPI_File *fh)
{
    FileI *f = (FileI*)*fh;
    Ctx x = beginColl(f->comm == world ? MPI_COMM_WORLD : handle(f->comm), sg("MPI_File_close"), "MPI_File_close");
    arrive(x); if (x.sync) waitAll(x, "MPI_File_close");
    leave(x);
    int e = ioFault(K_CLOSE, f->path.c_str(), me().nclose, 2);
    syscall(SYS_close, f->fd); delete f; *fh = MPI_FILE_NULL;
    return e ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_get_size(MPI_File fh, MPI_Offset *s) { enter("MPI_File_get_size"); struct stat st; fstat(((FileI*)fh)->fd, &st); *s = st.st_size; return MPI_SUCCESS; }
int MPI_File_set_size(MPI_File fh, MPI_Offset s) { enter("MPI_File_set_size"); return ftruncate(((FileI*)fh)->fd, s) ? MPI_ERR_IO : MPI_SUCCESS; }
static void stCount(MPI_Status *st, size_t n) { if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->_ucount = n; } }
static int fread_(FileI *f, MPI_Offset off, void *b, size_t bytes, MPI_Status *st)
{
    int v = bytes ? ioFault(K_READ, f->path.c_str(), me().nread, 3) : 0;
    size_t want = bytes;
    if (v == 1) { stCount(st, 0); return MPI_ERR_IO; }
    if (v == 2) { want = prf(cfg.seed, 3001, cur->rank, me().nread) % bytes; }
    size_t got = 0;
    while (got < want) { ssize_t n = syscall(SYS_pread64, f->fd, (char*)b + got, want - got, off + got); if (n <= 0) break; got += n; }
    stCount(st, got);
    return v == 2 ? MPI_ERR_IO : MPI_SUCCESS; // an interrupted transfer is an error to the caller
}
static int fwrite_(FileI *f, MPI_Offset off, const void *b, size_t bytes, MPI_Status *st)
{
    int v = bytes ? ioFault(K_WRITE, f->path.c_str(), me().nwrite, 4) : 0;
    size_t want = bytes; int rc = MPI_SUCCESS;
    if (v == 1) { stCount(st, 0); return MPI_ERR_IO; }
    if (v == 2) { want = prf(cfg.seed, 3002, cur->rank, me().nwrite) % bytes; rc = MPI_ERR_IO; }
    if (v == 3) { cfg.quota = 0; }
    size_t fit = quotaTake(want); if (fit < want) { want = fit; rc = MPI_ERR_NO_SPACE; }
    size_t put = 0;
    while (put < want) { ssize_t n = syscall(SYS_pwrite64, f->fd, (const char*)b + put, want - put, off + put); if (n <= 0) break; put += n; }
    stCount(st, put);
    return rc;
}
int MPI_File_read_at(MPI_File fh, MPI_Offset off, void *b, int n, MPI_Datatype t, MPI_Status *st) { enter("MPI_File_read_at"); return fread_((FileI*)fh, off, b, n * tsize(t), st); }
int MPI_File_read_at_all(MPI_File fh, MPI_Offset off, void *b, int n, MPI_Datatype t, MPI_Status *st)
{
    FileI *f = (FileI*)fh;
    Ctx x = beginColl(f->comm == world ? MPI_COMM_WORLD : handle(f->comm), "MPI_File_read_at_all", "MPI_File_read_at_all");
    arrive(x); if (x.sync) waitAll(x, "MPI_File_read_at_all"); leave(x);
    return fread_(f, off, b, n * tsize(t), st);
}
int MPI_File_write_at(MPI_File fh, MPI_Offset off, const void *b, int n, MPI_Datatype t, MPI_Status *st) { enter("MPI_File_write_at"); return fwrite_((FileI*)fh, off, b, n * tsize(t), st); }
int MPI_File_write_at_all(MPI_File fh, MPI_Offset off, const void *b, int n, MPI_Datatype t, MPI_Status *st)
{
    FileI *f = (FileI*)fh;
    Ctx x = beginColl(f->comm == world ? MPI_COMM_WORLD : handle(f->comm), "MPI_File_write_at_all", "MPI_File_write_at_all");
    arrive(x); if (x.sync) waitAll(x, "MPI_File_write_at_all"); leave(x);
    return fwrite_(f, off, b, n * tsize(t), st);
}
int MPI_Error_string(int, char *s, int *l) { strcpy(s, "simulated MPI error"); *l = strlen(s); return MPI_SUCCESS; }
}
