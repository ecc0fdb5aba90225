// Driver of the data exchange layer (C01): executes a random program of collective operations.
// The inputs of every process are pure functions of (seed, operation, process), hence each process
// evaluates the reference model (a few lines over all inputs) by itself and compares.
// usage: comm <seed> <number of operations> <subset size> <mask of operations, hex>

#include "esinfo/eslog.hpp"
#include "esinfo/envinfo.h"
#include "esinfo/mpiinfo.h"
#include "esinfo/systeminfo.h"
#include "basis/containers/tarray.h"
#include "basis/logging/logger.h"
#include "basis/logging/progresslogger.h"
#include "basis/logging/timelogger.h"
#include "wrappers/mpi/communication.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <numeric>
#include <set>
#include <fcntl.h>
#include <unistd.h>

using namespace espreso;

namespace {

struct Pair { int a; double b; bool operator==(const Pair &o) const { return a == o.a && b == o.b; } };

uint64_t seed;
uint64_t rnd(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0)
{
    uint64_t x = seed;
    for (uint64_t v : { a, b, c, d }) {
        x += 0x9e3779b97f4a7c15ULL + v * 0xd1342543de82ef95ULL;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        x ^= x >> 31;
    }
    return x;
}

template <typename T> T value(uint64_t x) { return (T)(x % 1000); }
template <> char value<char>(uint64_t x) { return (char)(x % 251); }
template <> Pair value<Pair>(uint64_t x) { Pair p; memset(&p, 0, sizeof p); p.a = x % 1000; p.b = x % 777; return p; }

int failures = 0;
const char *opname = "";
int opindex = 0;
void wrong(MPIGroup *g, const char *what, long at = -1)
{
    if (failures++ < 3) { printf("COMM-WRONG op=%d %s group=%d/%d: %s at %ld\n", opindex, opname, g->rank, g->size, what, at); fflush(stdout); }
}

// sizes are skewed: empty, small, and larger messages
size_t len(uint64_t op, uint64_t r, uint64_t n = 0)
{
    uint64_t x = rnd(op, 11, r, n);
    switch (rnd(op, 12) % 4) {
    case 0: return x % 3;
    case 1: return x % 5 == 0 ? 40 + x % 200 : 0;
    case 2: return x % 20;
    default: return 1 + x % 60;
    }
}

template <typename T> std::vector<T> data(uint64_t op, uint64_t r, uint64_t n, size_t size)
{
    std::vector<T> v(size);
    for (size_t i = 0; i < size; ++i) { v[i] = value<T>(rnd(op, 100 + r, n, i)); }
    return v;
}

template <typename T> void same(MPIGroup *g, const std::vector<T> &a, const std::vector<T> &b, const char *what)
{
    if (a.size() != b.size()) { wrong(g, what, -(long)a.size() - 1); return; }
    for (size_t i = 0; i < a.size(); ++i) { if (!(a[i] == b[i])) { wrong(g, what, i); return; } }
}

// a symmetric relation of neighbours
bool near(uint64_t op, int a, int b)
{
    if (a == b) { return false; }
    if (a > b) { std::swap(a, b); }
    return rnd(op, 13, a, b) % 4 >= rnd(op, 14) % 4;
}
std::vector<int> neigh(uint64_t op, int r, int size)
{
    std::vector<int> n;
    for (int i = 0; i < size; ++i) { if (near(op, r, i)) { n.push_back(i); } }
    return n;
}

enum { EX_KNOWN, EX_KNOWN_SAME, EX_INPLACE, EX_UNKNOWN, EX_UNKNOWN_SAME, LOWER, LOWER_KNOWN, LOWER_UNKNOWN, UPPER, UPPER_KNOWN, UPPER_UNKNOWN, GATHER_UNIFORM,
    GATHER, ALLGATHER, ALLGATHER_INPLACE, UNIQUE, BCAST_UNKNOWN, BALANCE, ALLTOALLV, EXSCAN, EXSCANV, DISTRIBUTION, VARIOUS, ALLREDUCE_RH, BASIC, SCATTERV, SCATTER,
    ALLTOALL_OPT, SPLITTERS, SERIALIZE, OPS };
const char *names[] = { "exchangeKnownSize", "exchangeKnownSize(one buffer)", "exchangeKnownSizeInPlace", "exchangeUnknownSize", "exchangeUnknownSize(one buffer)", "receiveLower", "receiveLowerKnownSize",
    "receiveLowerUnknownSize", "receiveUpper", "receiveUpperKnownSize", "receiveUpperUnknownSize", "gatherUniformNeighbors", "gatherUnknownSize", "allGatherUnknownSize", "allGatherInplace",
    "uniqueAllGatherUnknownSize", "broadcastUnknownSize", "balance", "allToAllV", "exscan", "exscan(vector)", "getDistribution", "sendVariousTargets", "allReduce(vector)", "broadcast/reduce/allReduce/allGather",
    "scatterv", "scatter", "allToAllWithDataSizeAndTarget", "computeSplitters", "serialize" };

template <typename T>
void neighbours(int op, uint64_t k, MPIGroup *g)
{
    int me = g->rank, size = g->size;
    std::vector<int> n = neigh(k, me, size);
    std::vector<std::vector<T> > s(n.size()), r(n.size()), want(n.size());
    bool known = op == EX_KNOWN || op == EX_KNOWN_SAME || op == LOWER_KNOWN || op == UPPER_KNOWN;
    bool one = op == EX_KNOWN_SAME || op == EX_UNKNOWN_SAME;
    bool low = op == LOWER_KNOWN || op == LOWER_UNKNOWN, up = op == UPPER_KNOWN || op == UPPER_UNKNOWN;
    for (size_t i = 0; i < n.size(); ++i) {
        bool sends = !low && !up ? true : low ? n[i] > me : n[i] < me;
        bool recvs = !low && !up ? true : !sends;
        if (sends) { s[i] = one ? data<T>(k, me, 0, len(k, me)) : data<T>(k, me, n[i], len(k, me, n[i])); }
        if (recvs) { want[i] = one ? data<T>(k, n[i], 0, len(k, n[i])) : data<T>(k, n[i], me, len(k, n[i], me)); }
        if (known && recvs) { r[i].resize(want[i].size()); }
    }
    bool ok = true;
    switch (op) {
    case EX_KNOWN: ok = Communication::exchangeKnownSize(s, r, n, g); break;
    case EX_KNOWN_SAME: ok = Communication::exchangeKnownSize(data<T>(k, me, 0, len(k, me)), r, n, g); break;
    case EX_UNKNOWN: ok = Communication::exchangeUnknownSize(s, r, n, g); break;
    case EX_UNKNOWN_SAME: ok = Communication::exchangeUnknownSize(data<T>(k, me, 0, len(k, me)), r, n, g); break;
    case LOWER_KNOWN: ok = Communication::receiveLowerKnownSize(s, r, n, g); break;
    case LOWER_UNKNOWN: ok = Communication::receiveLowerUnknownSize(s, r, n, g); break;
    case UPPER_KNOWN: ok = Communication::receiveUpperKnownSize(s, r, n, g); break;
    case UPPER_UNKNOWN: ok = Communication::receiveUpperUnknownSize(s, r, n, g); break;
    }
    if (!ok) { wrong(g, "refused"); }
    for (size_t i = 0; i < n.size(); ++i) { same(g, r[i], want[i], "received data"); }
}

template <typename T>
void general(int op, uint64_t k, MPIGroup *g)
{
    int me = g->rank, size = g->size;
    size_t uniform = len(k, 0);
    switch (op) {
    case EX_INPLACE: {
        std::vector<int> n = neigh(k, me, size);
        std::vector<esint> dist(1, 0);
        for (int x : n) { dist.push_back(dist.back() + len(k, std::min(x, me), std::max(x, me))); }
        std::vector<T> s(dist.back()), r(dist.back()), want(dist.back());
        for (size_t i = 0; i < n.size(); ++i) {
            auto a = data<T>(k, me, n[i], dist[i + 1] - dist[i]), b = data<T>(k, n[i], me, dist[i + 1] - dist[i]);
            std::copy(a.begin(), a.end(), s.begin() + dist[i]);
            std::copy(b.begin(), b.end(), want.begin() + dist[i]);
        }
        if (!Communication::exchangeKnownSizeInPlace(s.data(), r.data(), dist, n, g)) { wrong(g, "refused"); }
        same(g, r, want, "received data");
    } break;
    case LOWER: case UPPER: {
        std::vector<T> s = data<T>(k, me, 0, uniform), r;
        if (!(op == LOWER ? Communication::receiveLower(s, r, g) : Communication::receiveUpper(s, r, g))) { wrong(g, "refused"); }
        int from = op == LOWER ? me - 1 : me + 1;
        if (from >= 0 && from < size) { same(g, r, data<T>(k, from, 0, uniform), "received data"); }
    } break;
    case GATHER_UNIFORM: {
        std::vector<int> n = neigh(k, me, size);
        std::vector<T> s = data<T>(k, me, 0, uniform), r(n.size() * uniform), want;
        for (int x : n) { auto d = data<T>(k, x, 0, uniform); want.insert(want.end(), d.begin(), d.end()); }
        if (!Communication::gatherUniformNeighbors(s, r, n, g)) { wrong(g, "refused"); }
        same(g, r, want, "gathered data");
    } break;
    case GATHER: case ALLGATHER: {
        std::vector<T> s = data<T>(k, me, 0, len(k, me)), r, want;
        std::vector<size_t> off, woff(1, 0);
        for (int x = 0; x < size; ++x) { auto d = data<T>(k, x, 0, len(k, x)); want.insert(want.end(), d.begin(), d.end()); woff.push_back(want.size()); }
        if (op == GATHER) {
            bool o = rnd(k, 15) % 2;
            if (!(o ? Communication::gatherUnknownSize(s, r, off, g) : Communication::gatherUnknownSize(s, r, g))) { wrong(g, "refused"); }
            if (me == 0) { same(g, r, want, "gathered data"); if (o) { same(g, off, woff, "offsets"); } }
        } else {
            if (!Communication::allGatherUnknownSize(s, g)) { wrong(g, "refused"); }
            same(g, s, want, "gathered data");
        }
    } break;
    case BCAST_UNKNOWN: {
        std::vector<T> b = data<T>(k, me, 0, len(k, me));
        if (!Communication::broadcastUnknownSize(b, g)) { wrong(g, "refused"); }
        same(g, b, data<T>(k, 0, 0, len(k, 0)), "broadcast data");
    } break;
    case BALANCE: {
        std::vector<size_t> cur(1, 0), tgt(1, 0);
        for (int x = 0; x < size; ++x) { cur.push_back(cur.back() + len(k, x)); }
        if (rnd(k, 16) % 2) {
            for (int x = 1; x < size; ++x) { tgt.push_back(cur.back() ? rnd(k, 17, x) % (cur.back() + 1) : 0); }
            tgt.push_back(cur.back());
            std::sort(tgt.begin(), tgt.end());
        } else {
            tgt = tarray<size_t>::distribute(size, cur.back());
        }
        std::vector<T> all;
        for (int x = 0; x < size; ++x) { auto d = data<T>(k, x, 0, len(k, x)); all.insert(all.end(), d.begin(), d.end()); }
        std::vector<T> b = data<T>(k, me, 0, len(k, me));
        if (!Communication::balance(b, cur, tgt, g)) { wrong(g, "refused"); }
        same(g, b, std::vector<T>(all.begin() + tgt[me], all.begin() + tgt[me + 1]), "balanced data");
    } break;
    case ALLTOALLV: {
        std::vector<int> ss(size), rs(size);
        std::vector<T> s, want;
        for (int x = 0; x < size; ++x) {
            auto a = data<T>(k, me, x, len(k, me, x)), b = data<T>(k, x, me, len(k, x, me));
            ss[x] = a.size(); rs[x] = b.size();
            s.insert(s.end(), a.begin(), a.end()); want.insert(want.end(), b.begin(), b.end());
        }
        std::vector<T> r(want.size());
        if (!Communication::allToAllV(s, r, ss, rs, g)) { wrong(g, "refused"); }
        same(g, r, want, "received data");
    } break;
    case VARIOUS: {
        auto sends = [&] (int a, int b) { return rnd(k, 18, a, b) % 3 == 0; };
        std::vector<int> t, src, wsrc;
        std::vector<std::vector<T> > s, r, want;
        for (int x = 0; x < size; ++x) {
            if (sends(me, x)) { t.push_back(x); s.push_back(data<T>(k, me, x, len(k, me, x))); }
            if (sends(x, me)) { wsrc.push_back(x); want.push_back(data<T>(k, x, me, len(k, x, me))); }
        }
        if (!Communication::sendVariousTargets(s, r, t, src, g)) { wrong(g, "refused"); }
        same(g, src, wsrc, "sources");
        if (r.size() != want.size()) { wrong(g, "number of messages", r.size()); break; }
        for (size_t i = 0; i < r.size(); ++i) { same(g, r[i], want[i], "received data"); }
    } break;
    case SCATTERV: {
        std::vector<size_t> disp(1, 0);
        std::vector<T> all, r;
        for (int x = 0; x < size; ++x) { auto d = data<T>(k, 0, x, len(k, x)); all.insert(all.end(), d.begin(), d.end()); disp.push_back(all.size()); }
        std::vector<T> s; if (me == 0) { s = all; }
        Communication::scatterv(s, r, disp, g);
        same(g, r, std::vector<T>(all.begin() + disp[me], all.begin() + disp[me + 1]), "scattered data");
    } break;
    case SCATTER: {
        std::vector<T> s, r;
        if (me == 0) { s = data<T>(k, 0, 0, uniform * size); }
        if (!Communication::scatter(s, r, uniform, g)) { wrong(g, "refused"); }
        auto all = data<T>(k, 0, 0, uniform * size);
        same(g, r, std::vector<T>(all.begin() + uniform * me, all.begin() + uniform * (me + 1)), "scattered data");
    } break;
    }
}

template <typename T>
void numeric(int op, uint64_t k, MPIGroup *g)
{
    int me = g->rank, size = g->size;
    size_t uniform = len(k, 0);
    switch (op) {
    case ALLGATHER_INPLACE: {
        std::vector<T> want; size_t off = 0;
        for (int x = 0; x < size; ++x) { if (x == me) { off = want.size(); } auto d = data<T>(k, x, 0, len(k, x)); want.insert(want.end(), d.begin(), d.end()); }
        std::vector<T> v(want.size(), (T)77);
        std::copy(want.begin() + off, want.begin() + off + len(k, me), v.begin() + off);
        if (!Communication::allGatherInplace(v.data(), (esint)off, (esint)len(k, me), g)) { wrong(g, "refused"); }
        same(g, v, want, "gathered data");
    } break;
    case UNIQUE: {
        std::set<T> all; std::vector<T> mine;
        for (int x = 0; x < size; ++x) {
            auto d = data<T>(k, x, 0, len(k, x));
            std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end());
            if (x == me) { mine = d; }
            all.insert(d.begin(), d.end());
        }
        if (!Communication::uniqueAllGatherUnknownSize(mine, g)) { wrong(g, "refused"); }
        same(g, mine, std::vector<T>(all.begin(), all.end()), "gathered data");
    } break;
    case EXSCAN: {
        T v = value<T>(rnd(k, 100 + me)), sum = 0, off = 0;
        for (int x = 0; x < size; ++x) { if (x == me) { off = sum; } sum += value<T>(rnd(k, 100 + x)); }
        T r = Communication::exscan(v, g);
        if (!(r == sum)) { wrong(g, "sum"); }
        if (!(v == off)) { wrong(g, "offset"); }
    } break;
    case EXSCANV: {
        std::vector<T> sum, v = data<T>(k, me, 0, uniform), ws(uniform), wo(uniform);
        for (int x = 0; x < size; ++x) { auto d = data<T>(k, x, 0, uniform); if (x == me) { wo = ws; } for (size_t i = 0; i < uniform; ++i) { ws[i] += d[i]; } }
        if (!Communication::exscan(sum, v, g)) { wrong(g, "refused"); }
        same(g, sum, ws, "sum"); same(g, v, wo, "offset");
    } break;
    case DISTRIBUTION: {
        std::vector<T> want(1, 0);
        for (int x = 0; x < size; ++x) { want.push_back(want.back() + value<T>(rnd(k, 100 + x))); }
        same(g, Communication::getDistribution<T>(value<T>(rnd(k, 100 + me)), g), want, "distribution");
    } break;
    case ALLREDUCE_RH: {
        int cut = 1 + rnd(k, 19) % size; // two independent ranges of processes
        int left = me < cut ? 0 : cut, right = me < cut ? cut : size;
        auto o = (Communication::OP)(rnd(k, 20) % 3);
        std::vector<T> v = data<T>(k, me, 0, uniform), w = data<T>(k, left, 0, uniform);
        for (int x = left + 1; x < right; ++x) {
            auto d = data<T>(k, x, 0, uniform);
            for (size_t i = 0; i < uniform; ++i) { w[i] = o == Communication::OP::SUM ? w[i] + d[i] : o == Communication::OP::MAX ? std::max(w[i], d[i]) : std::min(w[i], d[i]); }
        }
        Communication::allReduce(v, o, left, right, g);
        same(g, v, w, "reduced data");
    } break;
    case BASIC: {
        MPI_Datatype type = MPITools::getType<T>().mpitype;
        int root = rnd(k, 21) % size;
        uniform += 1; // NULL pointers have a special meaning
        std::vector<T> v = data<T>(k, me, 0, uniform), r(uniform), sum(uniform), mx = data<T>(k, 0, 0, uniform), all;
        for (int x = 0; x < size; ++x) { auto d = data<T>(k, x, 0, uniform); all.insert(all.end(), d.begin(), d.end()); for (size_t i = 0; i < uniform; ++i) { sum[i] += d[i]; mx[i] = std::max(mx[i], d[i]); } }
        switch (rnd(k, 22) % 7) {
        case 0: Communication::broadcast(v.data(), uniform, type, root, g); same(g, v, data<T>(k, root, 0, uniform), "broadcast"); break;
        case 1: Communication::reduce(v.data(), r.data(), uniform, type, MPI_SUM, root, g); if (me == root) { same(g, r, sum, "reduce"); } break;
        case 2: Communication::allReduce(v.data(), r.data(), uniform, type, MPI_MAX, g); same(g, r, mx, "allreduce"); break;
        case 3: Communication::allReduce(v.data(), NULL, uniform, type, MPI_SUM, g); same(g, v, sum, "allreduce in place"); break;
        case 4: r.resize(size * uniform); Communication::allGather(v.data(), r.data(), uniform, type, g); same(g, r, all, "allgather"); break;
        case 5: Communication::barrier(g); break;
        case 6: Communication::reduce(v.data(), NULL, uniform, type, MPI_SUM, root, g); if (me == root) { same(g, v, sum, "reduce in place"); } break;
        }
    } break;
    }
}

void alltoall(uint64_t k, MPIGroup *g)
{
    int me = g->rank, size = g->size;
    typedef std::vector<esint> M;
    auto messages = [&] (int a, int b) {
        std::vector<M> m;
        int n = rnd(k, 23) % 3 == 0 ? 1 : rnd(k, 24, a, b) % 3;
        for (int i = 0; i < n; ++i) {
            M x = { 0, b, a, i };
            for (int j = 0, e = rnd(k, 25, 64 * a + b, i) % 9; j < e; ++j) { x.push_back(rnd(k, 26, 4096 * a + 64 * b + i, j) % 10000); }
            x[0] = x.size();
            m.push_back(x);
        }
        return m;
    };
    std::vector<esint> s, r;
    std::vector<M> want, got;
    for (int x = 0; x < size; ++x) {
        for (auto &m : messages(me, x)) { s.insert(s.end(), m.begin(), m.end()); }
        for (auto &m : messages(x, me)) { want.push_back(m); }
    }
    if (!Communication::allToAllWithDataSizeAndTarget(s, r, 0, size, g)) { wrong(g, "refused"); }
    for (size_t i = 0; i < r.size(); ) {
        if (r[i] < 2 || i + r[i] > r.size()) { wrong(g, "malformed message", i); return; }
        got.push_back(M(r.begin() + i, r.begin() + i + r[i]));
        i += r[i];
    }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    same(g, got, want, "messages");
}

void splitters(uint64_t k)
{
    MPIGroup *g = MPITools::procs;
    int me = g->rank, size = g->size;
    std::vector<esint> all;
    esint range = (rnd(k, 27) % 2) ? 1000000 : 1 + rnd(k, 28) % 500;
    bool ordered = rnd(k, 29) % 3 == 0; // keys of processes form disjoint intervals
    auto keys = [&] (int r) {
        std::vector<esint> v(len(k, r) * (1 + rnd(k, 30) % 4));
        for (size_t i = 0; i < v.size(); ++i) { v[i] = ordered ? r * range + rnd(k, 100 + r, 0, i) % range : rnd(k, 100 + r, 0, i) % range; }
        return v;
    };
    for (int x = 0; x < size; ++x) { auto v = keys(x); all.insert(all.end(), v.begin(), v.end()); }
    std::sort(all.begin(), all.end());
    std::vector<esint> v = keys(me), p(v.size()), s;
    std::iota(p.begin(), p.end(), 0);
    std::sort(p.begin(), p.end(), [&] (esint i, esint j) { return v[i] < v[j]; });
    if (!Communication::computeSplitters(v, p, s)) { wrong(g, "refused"); return; }
    if ((int)s.size() != size + 1) { wrong(g, "size", s.size()); return; }
    esint max = all.size() ? all.back() : 0;
    if (s.front() != 0 || (size > 0 && s.back() != max + 1)) { wrong(g, "range of splitters", s.back()); }
    std::vector<esint> target = tarray<esint>::distribute(size, all.size());
    for (int r = 1; r < size; ++r) {
        if (s[r] < s[r - 1] || s[r] > max + 1) { wrong(g, "splitters are not sorted", r); }
        esint less = std::lower_bound(all.begin(), all.end(), s[r]) - all.begin(), upto = std::upper_bound(all.begin(), all.end(), s[r]) - all.begin();
        bool zero = target[r] < (esint)all.size() && all[target[r]] == 0; // keys of the first process only
        if (!zero && (target[r] < less || upto < target[r])) { wrong(g, "splitter is not a quantile", r); }
    }
    std::vector<esint> c = s;
    Communication::broadcast(c.data(), c.size(), MPI_INT, 0, g);
    same(g, s, c, "splitters of processes");
}

void serial(uint64_t k)
{
    MPIGroup *g = MPITools::procs;
    char name[64]; snprintf(name, sizeof name, "serialize.%lu", (unsigned long)k);
    Communication::serialize([&] () {
        int f = open(name, O_CREAT | O_WRONLY | O_APPEND, 0644);
        char c = 'a' + g->rank;
        if (f < 0 || write(f, &c, 1) != 1) { wrong(g, "file"); }
        close(f);
    });
    char b[64] = { 0 };
    int f = open(name, O_RDONLY);
    int n = f < 0 ? -1 : read(f, b, sizeof b);
    close(f);
    if (n != g->size) { wrong(g, "not executed by all processes", n); }
    for (int i = 0; i < n; ++i) { if (b[i] != 'a' + i) { wrong(g, "not executed in the order of processes", i); break; } }
}

void subset(int limit)
{
    int rank = info::mpi::rank, size = info::mpi::size;
    MPISubset &s = *MPITools::subset;
    MPIGroup *g = MPITools::procs;
    opname = "MPISubset";
    int groups = (size + s.withinsize - 1) / s.withinsize;
    if (groups > limit) { wrong(g, "more readers than requested", groups); }
    if (s.within.rank != rank % s.withinsize || s.across.rank != rank / s.withinsize) { wrong(g, "rank in the subset", s.within.rank); }
    if (s.within.size != std::min(s.withinsize, size - rank / s.withinsize * s.withinsize)) { wrong(g, "size of the subset", s.within.size); }
    int roots = 0, mine = s.within.rank == 0;
    Communication::allReduce(&mine, &roots, 1, MPI_INT, MPI_SUM, g);
    if (roots != groups) { wrong(g, "number of roots", roots); }
}

}

extern "C" int sim_comm(int argc, char **argv)
{
    info::system::setSignals();
    info::env::set();
    info::mpi::init(&argc, &argv);
    MPITools::init();
    eslog::init(new Logger<TimeLogger, ProgressTerminalLogger, ProgressFileLogger>);

    seed = strtoull(argv[1], 0, 10);
    int n = atoi(argv[2]), limit = atoi(argv[3]);
    uint64_t mask = strtoull(argv[4], 0, 16);
    MPITools::setSubset(limit);
    subset(limit);

    std::vector<int> enabled;
    for (int i = 0; i < OPS; ++i) { if (mask >> i & 1) { enabled.push_back(i); } }
    for (opindex = 0; opindex < n && !failures; ++opindex) {
        uint64_t k = opindex;
        int op = enabled[rnd(k, 1) % enabled.size()];
        MPIGroup *g = MPITools::procs;
        switch (rnd(k, 2) % 8) {
        case 0: g = &MPITools::subset->within; break;
        case 1: g = &MPITools::subset->across; break;
        case 2: g = MPITools::asynchronous; break;
        case 3: g = MPITools::node; break;
        case 4: g = MPITools::global; break;
        }
        opname = names[op];
        if (op == SPLITTERS) { splitters(k); continue; }
        if (op == SERIALIZE) { serial(k); continue; }
        if (op == ALLTOALL_OPT) { alltoall(k, g); continue; }
        int t = rnd(k, 3) % 4;
        switch (op) {
        case EX_KNOWN: case EX_KNOWN_SAME: case EX_UNKNOWN: case EX_UNKNOWN_SAME: case LOWER_KNOWN: case LOWER_UNKNOWN: case UPPER_KNOWN: case UPPER_UNKNOWN:
            switch (t) { case 0: neighbours<int>(op, k, g); break; case 1: neighbours<double>(op, k, g); break; case 2: neighbours<Pair>(op, k, g); break; case 3: neighbours<size_t>(op, k, g); break; }
            break;
        case ALLGATHER_INPLACE: case UNIQUE: case EXSCAN: case EXSCANV: case DISTRIBUTION: case ALLREDUCE_RH: case BASIC:
            switch (t) { case 0: numeric<int>(op, k, g); break; case 1: numeric<double>(op, k, g); break; case 2: numeric<long>(op, k, g); break; case 3: numeric<size_t>(op, k, g); break; }
            break;
        default:
            switch (t) { case 0: general<int>(op, k, g); break; case 1: general<double>(op, k, g); break; case 2: general<Pair>(op, k, g); break; case 3: general<char>(op, k, g); break; }
        }
    }
    printf("COMM-DONE %d ops %d\n", info::mpi::rank, opindex); fflush(stdout);
    MPITools::finish();
    info::mpi::finish();
    return failures ? 3 : 0;
}
