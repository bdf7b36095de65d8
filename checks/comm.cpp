// C01 / C02: the communication layer of espreso, run by the model-checking MPI runtime.
#include "mcmpi.h"
#include "check.h"
#include "esinfo/mpiinfo.h"
#include "wrappers/mpi/communication.h"
#include "basis/containers/tarray.h"
#include <numeric>
#include <algorithm>
#include <array>

using namespace espreso;

struct Odd { char c[3]; int v; char pad; bool operator==(const Odd &o) const { return v == o.v && c[0] == o.c[0]; } };
template <typename T> T mk(long v) { return (T)v; }
template <> Odd mk<Odd>(long v) { Odd o; memset(&o, 0, sizeof o); o.v = v; o.c[0] = v % 7; return o; }
template <> char mk<char>(long v) { return (char)(v % 97 + 1); }

static void setupRank() {
    int argc = 0; char **argv = nullptr;
    info::mpi::init(&argc, &argv);
    MPITools::init();
}

static void bad(const std::string &s) { mc::violation(s); }
#define REQUIRE(c, text) do { if (!(c)) bad(std::string(text) + " [" #c "] on rank " + std::to_string(mc::myrank())); } while (0)

// ------------------------------------------------------------------------------------------------ C01
enum Op { KNOWN, KNOWN1, INPLACE, UNKNOWN, UNKNOWN1, LOWK, LOWU, UPK, UPU, GATHU, VARIOUS, RLOW, RUP, NOPS };
static const char *opname[] = { "exchangeKnownSize", "exchangeKnownSize(shared)", "exchangeKnownSizeInPlace", "exchangeUnknownSize", "exchangeUnknownSize(shared)", "receiveLowerKnownSize", "receiveLowerUnknownSize", "receiveUpperKnownSize", "receiveUpperUnknownSize", "gatherUniformNeighbors", "sendVariousTargets", "receiveLower", "receiveUpper" };
static bool wild(int op) { return op == UNKNOWN || op == UNKNOWN1 || op == LOWU || op == UPU || op == VARIOUS; }

struct Prog { int n; unsigned graph; int pattern; std::vector<int> ops; int grp; bool rendezvous; int type; };

static bool edge(const Prog &p, int i, int j) { // undirected neighbour graph
    if (i == j) return false; if (i > j) std::swap(i, j);
    int k = 0; for (int a = 0; a < p.n; a++) for (int b = a + 1; b < p.n; b++, k++) if (a == i && b == j) return p.graph >> k & 1;
    return false;
}
static int dsize(const Prog &p, int i, int j, int call) {
    switch (p.pattern) {
    case 0: return 0;
    case 1: return 1 + (i + j + call) % 2;
    case 2: return (i * p.n + j + call) % 3;
    case 3: return (i + 2 * j + call) % 4 == 0 ? 700 : (j + call) % 2;
    default: return ((p.pattern >> 2) / (1 << ((i * p.n + j) % 12)) + call) % 3; // enumerated
    }
}
static int ssize(const Prog &p, int i, int call) { return dsize(p, i, (i + 1) % 3, call); }
static long val(int i, int j, int call, int k) { return 1000003L * (call + 1) + 10007L * i + 101L * j + k; }

template <typename T> static std::vector<T> payload(const Prog &p, int i, int j, int call, int size) { std::vector<T> v(size); for (int k = 0; k < size; k++) v[k] = mk<T>(val(i, j, call, k)); return v; }

template <typename T>
static void callOp(const Prog &p, int op, int call, MPIGroup *g) {
    int me = g->rank, n = g->size;
    std::vector<int> nb; for (int j = 0; j < n; j++) if (edge(p, me, j)) nb.push_back(j);
    std::vector<std::vector<T>> s(nb.size()), r(nb.size()), expect(nb.size());
    std::string what = std::string(opname[op]) + " (call " + std::to_string(call) + ")";
    auto cmp = [&](const std::vector<std::vector<T>> &a, const std::vector<std::vector<T>> &b) { REQUIRE(a.size() == b.size(), what + ": wrong number of receive buffers"); for (size_t i = 0; i < a.size(); i++) { REQUIRE(a[i].size() == b[i].size(), what + ": wrong amount of data received"); REQUIRE(a[i] == b[i], what + ": wrong data received"); } };
    switch (op) {
    case KNOWN: case UNKNOWN: case LOWK: case LOWU: case UPK: case UPU:
        for (size_t i = 0; i < nb.size(); i++) {
            s[i] = payload<T>(p, me, nb[i], call, dsize(p, me, nb[i], call));
            expect[i] = payload<T>(p, nb[i], me, call, dsize(p, nb[i], me, call));
            bool in = true;
            if (op == LOWK || op == LOWU) in = nb[i] < me;
            if (op == UPK || op == UPU) in = nb[i] > me;
            if (!in) { expect[i].clear(); }
            else if (op == KNOWN || op == LOWK || op == UPK) r[i].resize(expect[i].size());
            else if (call % 2) r[i].resize(5); // stale content must be replaced
            if (in && op != KNOWN && op != UNKNOWN) s[i].clear();
        }
        switch (op) {
        case KNOWN: REQUIRE(Communication::exchangeKnownSize(s, r, nb, g), what); break;
        case UNKNOWN: REQUIRE(Communication::exchangeUnknownSize(s, r, nb, g), what); break;
        case LOWK: REQUIRE(Communication::receiveLowerKnownSize(s, r, nb, g), what); break;
        case LOWU: REQUIRE(Communication::receiveLowerUnknownSize(s, r, nb, g), what); break;
        case UPK: REQUIRE(Communication::receiveUpperKnownSize(s, r, nb, g), what); break;
        case UPU: REQUIRE(Communication::receiveUpperUnknownSize(s, r, nb, g), what); break;
        }
        cmp(r, expect); break;
    case KNOWN1: case UNKNOWN1: {
        std::vector<T> one = payload<T>(p, me, 99, call, ssize(p, me, call));
        for (size_t i = 0; i < nb.size(); i++) { expect[i] = payload<T>(p, nb[i], 99, call, ssize(p, nb[i], call)); if (op == KNOWN1) r[i].resize(expect[i].size()); }
        if (op == KNOWN1) REQUIRE(Communication::exchangeKnownSize(one, r, nb, g), what); else REQUIRE(Communication::exchangeUnknownSize(one, r, nb, g), what);
        cmp(r, expect); break; }
    case INPLACE: {
        std::vector<esint> dist(1, 0); std::vector<T> sb, eb;
        for (size_t i = 0; i < nb.size(); i++) { int sz = dsize(p, std::min(me, nb[i]), std::max(me, nb[i]), call); auto a = payload<T>(p, me, nb[i], call, sz), b = payload<T>(p, nb[i], me, call, sz); sb.insert(sb.end(), a.begin(), a.end()); eb.insert(eb.end(), b.begin(), b.end()); dist.push_back(sb.size()); }
        std::vector<T> rb(sb.size()); REQUIRE(Communication::exchangeKnownSizeInPlace(sb.data(), rb.data(), dist, nb, g), what); REQUIRE(rb == eb, what + ": wrong data received"); break; }
    case GATHU: {
        int sz = dsize(p, 0, 1, call); auto sb = payload<T>(p, me, 5, call, sz); std::vector<T> rb(nb.size() * sz), eb;
        for (int x : nb) { auto b = payload<T>(p, x, 5, call, sz); eb.insert(eb.end(), b.begin(), b.end()); }
        REQUIRE(Communication::gatherUniformNeighbors(sb, rb, nb, g), what); REQUIRE(rb == eb, what + ": wrong data received"); break; }
    case VARIOUS: {
        // directed target graph: undirected edges kept in one direction depending on parity, plus a possible self message
        auto to = [&](int i, int j) { if (i == j) return (p.pattern + call + i) % 3 == 0; if (!edge(p, i, j)) return false; return (p.pattern % 2) ? true : ((i < j) == ((i + j + call) % 2 == 0)); };
        std::vector<int> targets, sources, esrc; std::vector<std::vector<T>> sb, rb, eb;
        for (int j = 0; j < n; j++) if (to(me, j)) { targets.push_back(j); sb.push_back(payload<T>(p, me, j, call, dsize(p, me, j, call))); }
        if (call % 2) { std::reverse(targets.begin(), targets.end()); std::reverse(sb.begin(), sb.end()); }
        for (int j = 0; j < n; j++) if (to(j, me)) { esrc.push_back(j); eb.push_back(payload<T>(p, j, me, call, dsize(p, j, me, call))); }
        REQUIRE(Communication::sendVariousTargets(sb, rb, targets, sources, g), what); REQUIRE(sources == esrc, what + ": wrong sources"); cmp(rb, eb); break; }
    case RLOW: case RUP: {
        int sz = 1 + p.pattern % 3; auto sb = payload<T>(p, me, 3, call, sz); std::vector<T> rb; int peer = op == RLOW ? me - 1 : me + 1;
        if (op == RLOW) REQUIRE(Communication::receiveLower(sb, rb, g), what); else REQUIRE(Communication::receiveUpper(sb, rb, g), what);
        if (peer >= 0 && peer < n) REQUIRE((rb == payload<T>(p, peer, 3, call, sz)), what + ": wrong data received"); break; }
    }
}

static void runProg(const Prog &p) {
    setupRank();
    MPIGroup *g = MPITools::procs;
    if (p.grp == 1) g = new MPIGroup(std::move(info::mpi::comm)); // group on the world communicator itself
    for (size_t c = 0; c < p.ops.size(); c++) {
        switch (p.type) {
        case 0: callOp<esint>(p, p.ops[c], c, g); break;
        case 1: callOp<double>(p, p.ops[c], c, g); break;
        case 2: callOp<Odd>(p, p.ops[c], c, g); break;
        case 3: callOp<char>(p, p.ops[c], c, g); break;
        case 4: callOp<size_t>(p, p.ops[c], c, g); break;
        }
        mc::converge();
    }
}
static std::string show(const Prog &p) {
    std::string s = "n=" + std::to_string(p.n) + " graph=" + std::to_string(p.graph) + " pattern=" + std::to_string(p.pattern) + " type=" + std::to_string(p.type) + " group=" + (p.grp ? "world" : "dup") + (p.rendezvous ? " unbuffered" : " buffered") + " ops=";
    for (int o : p.ops) s += std::string(opname[o]) + ";"; return s;
}

static int mainC01(int argc, char **argv) {
    chk::Check ck("C01", argc, argv);
    ck.level = "model_checking";
    std::vector<Prog> progs;
    bool T = ck.thorough();
    // single calls and all ordered pairs, n = 2, 3: all graphs
    for (int n = 2; n <= 3; n++) {
        unsigned ng = 1u << (n * (n - 1) / 2);
        for (unsigned g = 0; g < ng; g++) for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) {
            if (!T && g != ng - 1 && !(wild(a) && wild(b)) && (a + b + g) % 3) continue;
            for (int m = 0; m < 2; m++) {
                if (!T && n == 3 && wild(a) && wild(b) && a != b && m == 1) continue;
                progs.push_back({ n, g, (int)(1 + (a + b + g) % 3), { a, b }, (int)((a + g) % 2), m == 1, (int)((a + 2 * b + g) % 5) });
            }
        }
        // size patterns, singles
        for (unsigned g = 1; g < ng; g++) for (int a = 0; a < NOPS; a++) for (int pt = 0; pt < 4 + (T ? 200 : 16); pt++) progs.push_back({ n, g, pt < 4 ? pt : pt * 4 * 37, { a }, pt % 2, pt % 3 == 1, (pt + a) % 5 });
    }
    // n = 4..6
    for (int n = 4; n <= (T ? 7 : 6); n++) {
        unsigned full = (1u << (n * (n - 1) / 2)) - 1, star = 0, path = 0, ring = 0; int k = 0;
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, k++) { if (i == 1) star |= 1u << k; if (i == 0 && j == 1) star |= 1u << k; if (j == i + 1) path |= 1u << k, ring |= 1u << k; if (i == 0 && j == n - 1) ring |= 1u << k; }
        for (int a = 0; a < NOPS; a++) for (int m = 0; m < 2; m++) {
            if (!wild(a)) { progs.push_back({ n, full, 2, { a, a }, 0, m == 1, a % 5 }); progs.push_back({ n, ring, 1, { a, a, a }, 1, m == 1, (a + 1) % 5 }); }
            else {
                if (n == 4) progs.push_back({ n, path, 2, { a, a }, m, m == 1, a % 5 });
                if (n <= 5) progs.push_back({ n, star, 1, { a }, 0, m == 1, (a + 1) % 5 });
                if (n == 4 && (a == LOWU || a == UPU)) progs.push_back({ n, full, 1, { a }, 0, m == 1, (a + 1) % 5 });
                if (T && n == 4) progs.push_back({ n, ring, 2, { a, a }, m, m == 1, a % 5 });
                if (T && n == 4) for (unsigned g = 0; g < 64; g++) progs.push_back({ n, g, 2, { a }, m, m == 1, a % 5 });
            }
        }
    }
    if (T) for (unsigned g = 1; g < 8; g++) for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) for (int c = 0; c < NOPS; c++) if (wild(a) + wild(b) + wild(c) >= 1) progs.push_back({ 3, g, 2, { a, b, c }, 0, (a + b + c) % 2 == 1, (a + b) % 5 });

    auto one = [&](const Prog &p, mc::Stats &st, const std::vector<int> *choices) -> std::string {
        mc::Opt o; o.n = p.n; o.rendezvous = p.rendezvous; o.relaxed = !p.rendezvous; o.cpulimit = 20; o.maxexec = 200000;
        std::string f;
        auto body = [&](int) { runProg(p); };
        auto on = [&](mc::Exec &e) { if (e.bad()) { f = show(p) + "\n" + e.msg + "\nschedule:"; for (int c : e.choices) f += " " + std::to_string(c); return false; } return true; };
        if (choices) { mc::Exec e = mc::run(o, *choices, body, st); on(e); }
        else if (!mc::explore(o, body, on, st) && f.empty()) mc::counter("truncated", 1);
        return f;
    };
    if (ck.replay.size()) {
        std::ifstream in(ck.replay); std::string l; long k = -1; std::vector<int> ch;
        while (std::getline(in, l)) { if (l.compare(0, 5, "task=") == 0) k = atol(l.c_str() + 5); if (l.compare(0, 9, "schedule:") == 0) { std::istringstream is(l.substr(9)); int c; while (is >> c) ch.push_back(c); } }
        mc::Stats st; std::string f = one(progs.at(k), st, &ch); printf("%s\n%s\n", show(progs[k]).c_str(), f.size() ? f.c_str() : "no violation"); return f.size() ? 1 : 0;
    }
    auto res = mc::parallel(progs.size(), 8, [&](long k, mc::Stats &st) {
        std::string f = one(progs[k], st, nullptr);
        mc::counter(("n" + std::to_string(progs[k].n)).c_str(), 1);
        return f;
    }, 1);
    for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), f.second);
    ck.num["states"] = res.stats.states; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete;
    ck.num["programs"] = res.done; ck.num["executions"] = res.stats.execs; ck.num["messages"] = res.stats.msgs; ck.num["wildcard_matches"] = res.stats.wild; ck.num["collectives"] = res.stats.colls;
    for (auto &c : res.counters) ck.num["programs_" + c.first] = c.second;
    if (ck.num.count("programs_truncated") || (size_t)res.done < progs.size()) ck.exhaustive = false;
    for (size_t i = 0; i < progs.size(); i += progs.size() / 8 + 1) ck.sample(show(progs[i]));
    ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi (non-overtaking point-to-point, buffered or synchronous sends, collectives released early or late)", "states are the tuples of per-rank wildcard-match histories; a rank whose result was verified is considered independent of its history", "bounded process counts (2-6), one to two (thorough: three) consecutive calls" };
    return ck.finish();
}

// ------------------------------------------------------------------------------------------------ C02
static std::vector<std::vector<int>> sizeVectors(int n, bool T) {
    std::vector<std::vector<int>> r;
    int lim = T ? 7 : 5;
    if (n <= lim) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3; for (int k = 0; k < tot; k++) { std::vector<int> v; int x = k; for (int i = 0; i < n; i++, x /= 3) v.push_back(x % 3); r.push_back(v); } }
    else {
        int lim2 = 1 << n; for (int k = 0; k < lim2; k += (lim2 > 256 && !T) ? lim2 / 251 : 1) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back((k >> i & 1) * (1 + i % 3)); r.push_back(v); }
    }
    std::vector<int> big; for (int i = 0; i < n; i++) big.push_back(i % 2 ? 1000 : 3 * i); r.push_back(big);
    return r;
}

template <typename T> static std::vector<T> chunk(int i, int size, int salt) { std::vector<T> v; for (int k = 0; k < size; k++) v.push_back(mk<T>(val(i, 0, salt, k))); return v; }

template <typename T> static void sizedOps(const std::vector<int> &sz, int salt) {
    auto g = MPITools::procs; int n = g->size, me = g->rank; std::vector<T> all; std::vector<size_t> off; for (int i = 0; i < n; i++) { off.push_back(all.size()); auto c = chunk<T>(i, sz[i], salt); all.insert(all.end(), c.begin(), c.end()); } off.push_back(all.size());
    std::string S; for (int x : sz) S += std::to_string(x) + ",";
    { auto s = chunk<T>(me, sz[me], salt); std::vector<T> r; std::vector<size_t> o; REQUIRE(Communication::gatherUnknownSize(s, r, o), "gatherUnknownSize sizes " + S); if (me == 0) { REQUIRE(r == all, "gatherUnknownSize: wrong data, sizes " + S); REQUIRE(o == off, "gatherUnknownSize: wrong offsets, sizes " + S); } }
    { auto s = chunk<T>(me, sz[me], salt + 1); std::vector<T> e; for (int i = 0; i < n; i++) { auto c = chunk<T>(i, sz[i], salt + 1); e.insert(e.end(), c.begin(), c.end()); } REQUIRE(Communication::allGatherUnknownSize(s), "allGatherUnknownSize"); REQUIRE(s == e, "allGatherUnknownSize: wrong data, sizes " + S); }
    { std::vector<T> b = me ? std::vector<T>() : chunk<T>(0, sz[0], salt); REQUIRE(Communication::broadcastUnknownSize(b), "broadcastUnknownSize"); REQUIRE(b == chunk<T>(0, sz[0], salt), "broadcastUnknownSize: wrong data"); }
    { std::vector<T> s, r; if (me == 0) s = all; std::vector<size_t> d = off; Communication::scatterv(s, r, d); REQUIRE((r == std::vector<T>(all.begin() + off[me], all.begin() + off[me + 1])), "scatterv: wrong data, sizes " + S); }
    { int k = sz[n - 1]; std::vector<T> s, r; if (me == 0) for (int i = 0; i < n; i++) { auto c = chunk<T>(i, k, salt); s.insert(s.end(), c.begin(), c.end()); } REQUIRE(Communication::scatter(s, r, k), "scatter"); REQUIRE((r == chunk<T>(me, k, salt)), "scatter: wrong data"); }
    { // allToAllV: size i->j = (sz[i] + j) % 3
        std::vector<int> ss(n), rs(n); std::vector<T> s, e; auto f = [&](int i, int j) { return (sz[i] + j) % 3; };
        for (int j = 0; j < n; j++) { ss[j] = f(me, j); rs[j] = f(j, me); for (int k = 0; k < ss[j]; k++) s.push_back(mk<T>(val(me, j, salt, k))); for (int k = 0; k < rs[j]; k++) e.push_back(mk<T>(val(j, me, salt, k))); }
        std::vector<T> r(e.size()); REQUIRE(Communication::allToAllV(s, r, ss, rs), "allToAllV"); REQUIRE(r == e, "allToAllV: wrong data, sizes " + S); }
}

static void nativeOps(const std::vector<int> &sz, int salt) {
    auto g = MPITools::procs; int n = g->size, me = g->rank; std::string S; for (int x : sz) S += std::to_string(x) + ",";
    std::vector<esint> dist(1, 0); for (int x : sz) dist.push_back(dist.back() + x);
    { esint v = sz[me]; esint t = Communication::exscan(v); REQUIRE(t == dist.back() && v == dist[me], "exscan: wrong offset or sum, sizes " + S); }
    { size_t v = sz[me]; size_t t = Communication::exscan(v); REQUIRE(t == (size_t)dist.back() && v == (size_t)dist[me], "exscan<size_t>: wrong offset or sum, sizes " + S); }
    { std::vector<esint> o = { sz[me], 2 * sz[me] + 1, me }, s; Communication::exscan(s, o); REQUIRE((s == std::vector<esint>{ dist.back(), 2 * dist.back() + n, n * (n - 1) / 2 }), "exscan(vector): wrong sum, sizes " + S); REQUIRE((o == std::vector<esint>{ dist[me], 2 * dist[me] + me, me * (me - 1) / 2 }), "exscan(vector): wrong offset, sizes " + S); }
    { auto d = Communication::getDistribution((esint)sz[me]); REQUIRE(d == dist, "getDistribution: wrong, sizes " + S); }
    { std::vector<double> d(dist.back() + 1, -1); for (int k = 0; k < sz[me]; k++) d[dist[me] + k] = val(me, 0, salt, k); d.back() = 77; Communication::allGatherInplace(d.data(), dist[me], (esint)sz[me]); for (int i = 0; i < n; i++) for (int k = 0; k < sz[i]; k++) REQUIRE(d[dist[i] + k] == val(i, 0, salt, k), "allGatherInplace: wrong data, sizes " + S); REQUIRE(d.back() == 77, "allGatherInplace: wrote behind the data"); }
    { // sorted unique sets
        std::set<esint> e; auto mine = [&](int i) { std::set<esint> s; for (int k = 0; k < 3 * sz[i] && k < 40; k++) s.insert((i * 5 + k * (salt % 3 + 1)) % 17); return s; };
        for (int i = 0; i < n; i++) { auto m = mine(i); e.insert(m.begin(), m.end()); } auto m = mine(me); std::vector<esint> v(m.begin(), m.end()); Communication::uniqueAllGatherUnknownSize(v); REQUIRE((v == std::vector<esint>(e.begin(), e.end())), "uniqueAllGatherUnknownSize: wrong set, sizes " + S); }
    { for (int op = 0; op < 3; op++) {
        std::vector<esint> d = { sz[me], -3 * me, salt + me * me - 4 * me }, e = { sz[0], 0, salt }; for (int i = 1; i < n; i++) { std::vector<esint> x = { sz[i], -3 * i, salt + i * i - 4 * i }; for (int k = 0; k < 3; k++) e[k] = op == 0 ? e[k] + x[k] : op == 1 ? std::max(e[k], x[k]) : std::min(e[k], x[k]); }
        Communication::allReduce(d, op == 0 ? Communication::OP::SUM : op == 1 ? Communication::OP::MAX : Communication::OP::MIN); REQUIRE(d == e, "allReduce: wrong result"); } }
    { // reductions over all subranges of processes
        for (int l = 0; l < n; l++) for (int r = l + 1; r <= n; r++) if (l <= me && me < r) { std::vector<esint> d = { sz[me] + 1, me }, e = { 0, 0 }; for (int i = l; i < r; i++) { e[0] += sz[i] + 1; e[1] += i; } Communication::allReduce(d, Communication::OP::SUM, l, r); REQUIRE(d == e, "allReduce on a range of processes: wrong result"); } }
    { esint in = sz[me] + 1, out = -1; Communication::allReduce(&in, &out, 1, MPITools::getType<esint>().mpitype, MPI_SUM); REQUIRE(out == dist.back() + n, "allReduce(MPI)"); out = in; Communication::allReduce(&out, NULL, 1, MPITools::getType<esint>().mpitype, MPI_MAX); REQUIRE(out == *std::max_element(sz.begin(), sz.end()) + 1, "allReduce in place");
      out = -5; Communication::reduce(&in, &out, 1, MPITools::getType<esint>().mpitype, MPI_SUM, 0); if (me == 0) REQUIRE(out == dist.back() + n, "reduce"); out = in; Communication::reduce(&out, NULL, 1, MPITools::getType<esint>().mpitype, MPI_SUM, 0); if (me == 0) REQUIRE(out == dist.back() + n, "reduce in place");
      esint b = me == n - 1 ? 55 + salt : 0; Communication::broadcast(&b, 1, MPITools::getType<esint>().mpitype, n - 1); REQUIRE(b == 55 + salt, "broadcast");
      std::vector<esint> ag(n, -1); Communication::allGather(&in, ag.data(), 1, MPITools::getType<esint>().mpitype); for (int i = 0; i < n; i++) REQUIRE(ag[i] == sz[i] + 1, "allGather");
      esint ex = 0, exin = sz[me]; Communication::exscan(&exin, &ex, 1, MPITools::getType<esint>().mpitype, MPI_SUM); if (me) REQUIRE(ex == dist[me], "exscan(MPI)"); }
}

template <typename T> static void balanceOps(const std::vector<int> &from, const std::vector<int> &to, int salt) {
    auto g = MPITools::procs; int n = g->size, me = g->rank; std::vector<size_t> a(1, 0), b(1, 0); for (int x : from) a.push_back(a.back() + x); for (int x : to) b.push_back(b.back() + x);
    std::vector<T> d, e; for (size_t k = a[me]; k < a[me + 1]; k++) d.push_back(mk<T>(7 * k + salt)); for (size_t k = b[me]; k < b[me + 1]; k++) e.push_back(mk<T>(7 * k + salt));
    std::string S = "from "; for (int x : from) S += std::to_string(x) + ","; S += " to "; for (int x : to) S += std::to_string(x) + ",";
    REQUIRE(Communication::balance(d, a, b), "balance"); REQUIRE(d == e, "balance: wrong data " + S); (void)n;
}

// messages: [size, target, source, payload...]
template <typename T> static void a2aTargets(int pattern, int l, int r) {
    auto g = MPITools::procs; int me = g->rank; if (me < l || me >= r) return;
    auto len = [&](int i, int j) { switch (pattern) { case 0: return 0; case 1: return 1; case 2: return (i + j) % 3; case 3: return (i * 7 + j * 3) % 5 == 0 ? 4 : -1; case 4: return (i == (j + 1) % 3) ? 2 : -1; case 5: return i == r - 1 ? 3 : -1; case 6: return j == r - 1 || j == l ? 1 : -1; default: return ((pattern >> 3) >> ((i * 5 + j) % 13) & 1) ? (i + j) % 3 : -1; } };
    std::vector<T> s, rb; std::vector<std::vector<T>> got; std::map<T, std::vector<T>> e;
    for (int j = l; j < r; j++) { int k = len(me, j); if (k >= 0) { s.push_back(3 + k); s.push_back(j); s.push_back(me); for (int x = 0; x < k; x++) s.push_back(val(me, j, pattern % 5, x) % 100000); } }
    for (int i = l; i < r; i++) { int k = len(i, me); if (k >= 0) { std::vector<T> v; v.push_back(3 + k); v.push_back(me); v.push_back(i); for (int x = 0; x < k; x++) v.push_back(val(i, me, pattern % 5, x) % 100000); e[i] = v; } }
    REQUIRE(Communication::allToAllWithDataSizeAndTarget(s, rb, l, r), "allToAllWithDataSizeAndTarget");
    std::map<T, std::vector<T>> m; size_t p = 0; while (p < rb.size()) { REQUIRE(rb[p] >= 3 && p + rb[p] <= rb.size(), "allToAllWithDataSizeAndTarget: broken message pattern " + std::to_string(pattern)); std::vector<T> v(rb.begin() + p, rb.begin() + p + rb[p]); REQUIRE(!m.count(v[2]), "allToAllWithDataSizeAndTarget: message delivered twice, pattern " + std::to_string(pattern)); m[v[2]] = v; p += rb[p]; }
    REQUIRE(m == e, "allToAllWithDataSizeAndTarget: wrong messages, pattern " + std::to_string(pattern) + " range " + std::to_string(l) + "-" + std::to_string(r));
}

static void splitters(const std::vector<int> &sz, int kind) {
    auto g = MPITools::procs; int n = g->size, me = g->rank; std::vector<esint> all, mine;
    for (int i = 0; i < n; i++) for (int k = 0; k < sz[i]; k++) {
        esint v; switch (kind) { case 0: v = 1 + k * n + i; break; case 1: v = 1 + all.size(); break; case 2: v = 1 + (all.size() * 7919) % 1013; break; case 3: v = 5; break; case 4: v = 1 + (k % 3); break; case 5: v = 1000000 - 13 * (int)all.size(); break; case 6: v = all.size() / 2; break; case 7: v = (all.size() * 31) % 7; break; default: v = (1 << 20) * (i % 3) + k; v += 1; }
        all.push_back(v); if (i == me) mine.push_back(v);
    }
    std::vector<esint> perm(mine.size()); std::iota(perm.begin(), perm.end(), 0); std::sort(perm.begin(), perm.end(), [&](esint a, esint b) { return mine[a] < mine[b]; });
    std::vector<esint> keys = mine, s; REQUIRE(Communication::computeSplitters(keys, perm, s), "computeSplitters"); std::sort(all.begin(), all.end());
    std::string S = " kind " + std::to_string(kind) + " sizes "; for (int x : sz) S += std::to_string(x) + ","; S += " got"; for (auto x : s) S += " " + std::to_string(x);
    esint max = all.size() ? all.back() : 0; REQUIRE((int)s.size() == n + 1, "computeSplitters: wrong size" + S); REQUIRE(s[0] == 0 && s.back() == max + 1, "computeSplitters: wrong outer bounds" + S);
    for (int i = 0; i < n; i++) REQUIRE(s[i] <= s[i + 1], "computeSplitters: not monotone" + S);
    auto t = tarray<esint>::distribute(n, (esint)all.size());
    for (int i = 1; i < n; i++) if (t[i] < (esint)all.size()) REQUIRE(s[i] == all[t[i]] || (all[t[i]] == 0 && s[i] == max + 1), "computeSplitters: splitter is not the balanced one" + S);
}

static void subsets() {
    int n = info::mpi::size, me = info::mpi::rank;
    for (int lim = 1; lim <= n + 1; lim++) {
        MPITools::setSubset(lim); auto *s = MPITools::subset; std::string S = " (limit " + std::to_string(lim) + " of " + std::to_string(n) + ")";
        REQUIRE(s->acrosssize <= lim, "subset larger than the limit" + S);
        REQUIRE(s->within.rank == me % s->withinsize && s->across.rank == me / s->withinsize, "wrong position in subset" + S);
        esint cnt = s->within.rank == 0, all = 0; Communication::allReduce(&cnt, &all, 1, MPITools::getType<esint>().mpitype, MPI_SUM); REQUIRE(all == s->acrosssize, "wrong number of subset leaders" + S);
        std::vector<esint> v = { me }; Communication::allGatherUnknownSize(v, &s->within); for (size_t i = 0; i < v.size(); i++) REQUIRE(v[i] == (me / s->withinsize) * s->withinsize + (esint)i, "processes are not grouped consecutively" + S);
        std::vector<esint> w = { me }, r; Communication::gatherUnknownSize(w, r, &s->across); if (s->across.rank == 0) for (size_t i = 0; i < r.size(); i++) REQUIRE(r[i] == s->within.rank + (esint)i * s->withinsize, "wrong processes across subsets" + S);
        REQUIRE(MPITools::singleton->within.size == n && MPITools::singleton->acrosssize == 1, "singleton subset" + S);
        esint e = me + 1; esint t = Communication::exscan(e, &s->across); esint ee = 0, tt = 0; for (int i = s->within.rank; i < n; i += s->withinsize) { if (i < me) ee += i + 1; tt += i + 1; } REQUIRE(e == ee && t == tt, "exscan on a subgroup" + S);
        std::vector<esint> ar = { me, -me }; Communication::allReduce(ar, Communication::OP::MAX, 0, s->within.size, &s->within); int b0 = (me / s->withinsize) * s->withinsize, b1 = std::min(n, b0 + s->withinsize); REQUIRE((ar == std::vector<esint>{ b1 - 1, -b0 }), "allReduce on a subgroup" + S);
    }
}

static int mainC02(int argc, char **argv) {
    chk::Check ck("C02", argc, argv); ck.level = "model_checking"; bool T = ck.thorough();
    struct Task { int n, kind, part; bool rdv; }; std::vector<Task> tasks; int N = T ? 15 : 10;
    for (int n = 1; n <= N; n++) for (int m = 0; m < 2; m++) for (int k = 0; k < 7; k++) for (int part = 0; part < 8; part++) tasks.push_back({ n, k, part, m == 1 });
    auto body = [&](const Task &t) {
        setupRank(); auto sv = sizeVectors(t.n, T); int n = t.n; long cases = 0;
        for (size_t i = t.part; i < sv.size(); i += 8) {
            switch (t.kind) {
            case 0: sizedOps<esint>(sv[i], i); sizedOps<Odd>(sv[i], i); cases += 12; break;
            case 1: sizedOps<double>(sv[i], i); sizedOps<char>(sv[i], i); cases += 12; break;
            case 2: nativeOps(sv[i], i); cases += 14; break;
            case 3: { // all pairs of distributions with the same total
                for (size_t j = 0; j < sv.size(); j++) if (std::accumulate(sv[i].begin(), sv[i].end(), 0) == std::accumulate(sv[j].begin(), sv[j].end(), 0)) { if (!T && (i * 31 + j) % 5 && n > 4) continue; balanceOps<esint>(sv[i], sv[j], i); cases++; if ((i + j) % 5 == 0) { balanceOps<Odd>(sv[i], sv[j], i); cases++; } }
                break; }
            case 4: for (int k = 0; k < 9; k++) { splitters(sv[i], k); cases++; } { auto big = sv[i]; for (auto &x : big) x *= 17; splitters(big, i % 9); cases++; } break;
            }
        }
        if (t.kind == 5) { int np = T ? 8200 : 1200; for (int p = t.part; p < np; p += 8) { a2aTargets<esint>(p, 0, n); cases++; } for (int p = t.part; p < 200; p += 8) { a2aTargets<size_t>(p, 0, n); cases++; for (int l = 0; l < n; l++) for (int r = l + 1; r <= n; r++) if (r - l < n) { a2aTargets<esint>(p, l, r); cases++; } } }
        if (t.kind == 6) { if (t.part == 0) { subsets(); cases += n + 1; } }
        mc::report(std::to_string(cases));
    };
    const char *kname[] = { "gather/allgather/bcast/scatter/alltoallv <int,struct>", "gather/allgather/bcast/scatter/alltoallv <double,char>", "scans/reductions/distribution", "balance", "splitters", "all-to-all with targets", "subsets" };
    auto show = [&](const Task &t) { return "n=" + std::to_string(t.n) + " " + kname[t.kind] + " part " + std::to_string(t.part) + (t.rdv ? " unbuffered" : " buffered"); };
    auto one = [&](const Task &t, mc::Stats &st) -> std::string {
        mc::Opt o; o.n = t.n; o.rendezvous = t.rdv; o.relaxed = !t.rdv; o.cpulimit = 100; std::string f;
        mc::explore(o, [&](int) { body(t); }, [&](mc::Exec &e) { if (e.bad()) { f = show(t) + "\n" + e.msg; return false; } mc::counter("cases", atol(e.report[0].c_str())); return true; }, st);
        return f;
    };
    if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = one(tasks.at(atol(l.c_str() + 5)), st); printf("%s\n", f.size() ? f.c_str() : "no violation"); return f.size() ? 1 : 0; }
    auto res = mc::parallel(tasks.size(), 8, [&](long k, mc::Stats &st) { return one(tasks[tasks.size() - 1 - k], st); }, 1);
    for (auto &f : res.failures) ck.violation("task=" + std::to_string(tasks.size() - 1 - f.first), f.second);
    ck.num["states"] = res.stats.states; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
    if ((size_t)res.done < tasks.size()) ck.exhaustive = false;
    for (size_t i = 0; i < tasks.size(); i += tasks.size() / 8 + 1) ck.sample(show(tasks[i]));
    ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi", "bounded process counts (quick 1-10, thorough 1-15) and sizes (all vectors in {0,1,2}^n for n<=5, thorough n<=7, presence patterns above)" };
    return ck.finish();
}

int main(int argc, char **argv) {
    std::string w = argc > 1 ? argv[1] : "C01";
    return w == "C02" ? mainC02(argc, argv) : mainC01(argc, argv);
}
