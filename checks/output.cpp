// C13: stored geometry, results and monitors describe the mesh and the data at the time of the call for every distribution among processes and writers
// C14: with the output in a separate thread the stored files are the same for every interleaving of the solver and of the writer
#include "meshverify.h"
#include "mesh/store/nameddata.h"
#include "esinfo/stepinfo.h"
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <ucontext.h>
#include <sched.h>
using namespace ml;
using namespace espreso;

static std::string scratch;
static std::string fmt(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string S(long v) { return std::to_string(v); }

// ------------------------------------------------------------------ controlled threads: coroutines that switch in synchronization operations and MPI calls only
namespace sched {
struct Co { ucontext_t ctx; void *(*fn)(void*); void *arg; bool done = false; const void *wait = nullptr; int kind = 0; char *stack = nullptr; pthread_t join = 0; };
static bool armed = false; static std::vector<Co*> co; static int cur = 0;
static std::map<const void*, std::pair<int, int>> locks;       // address -> (owner + 1, depth)
static std::map<const void*, int> sems; static std::set<int> signaled;
static std::vector<int> prefix, choices, alts, from; static int preemptions = 0, bound = 2; static long steps = 0;
static bool ready(int i) {
    Co *c = co[i]; if (c->done) return false;
    switch (c->kind) { case 0: return true; case 1: { auto it = locks.find(c->wait); return it == locks.end() || it->second.second == 0; } case 2: return co[c->join]->done; case 3: return signaled.count(i); case 4: return sems[c->wait] > 0; }
    return true;
}
static std::map<int, int> comms; // communicator -> threads
static void go(int t) { if (t == cur) return; int p = cur; cur = t; swapcontext(&co[p]->ctx, &co[t]->ctx); }
// a scheduling point: the running thread continues, or (a preemption) another one that is able to run
static void point() {
    if (!armed || co.size() < 2) return; steps++;
    std::vector<int> r; if (ready(cur)) r.push_back(cur); bool own = r.size(); for (size_t i = 0; i < co.size(); i++) if ((int)i != cur && ready(i)) r.push_back(i);
    if (r.empty()) { mc::violation("no thread is able to continue: deadlock of the solver and of the output thread"); fflush(NULL); _exit(0); }
    int k = 0; if (r.size() > 1 && (!own || preemptions < bound)) { size_t p = choices.size(); k = p < prefix.size() ? prefix[p] : 0; if (k >= (int)r.size()) k = 0; choices.push_back(k); alts.push_back(r.size()); if (own && k) preemptions++; }
    go(r[k]);
}
// operations of both threads on one communicator would be matched with each other on other processes
static void mpi(int comm) {
    if (comm >= 0 && co.size() > 1 && !co.back()->done) { int &u = comms[comm]; u |= cur ? 2 : 1; if (u == 3) { mc::violation("a communicator is used by the solver and by the output thread"); fflush(NULL); _exit(0); } }
    point();
}
static void block(int kind, const void *w) { co[cur]->kind = kind; co[cur]->wait = w; point(); co[cur]->kind = 0; }
static void entry() { Co *c = co[cur]; c->fn(c->arg); c->done = true; point(); abort(); }
static bool on() { return armed; }
template <typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static void lock(const void *m, bool recursive) { point(); auto &l = locks[m]; if (recursive && l.second && l.first == cur + 1) { l.second++; return; } block(1, m); auto &k = locks[m]; k.first = cur + 1; k.second = 1; }
static bool trylock(const void *m, bool recursive) { point(); auto &l = locks[m]; if (l.second && !(recursive && l.first == cur + 1)) return false; l.first = cur + 1; l.second++; return true; }
static void unlock(const void *m) { auto &l = locks[m]; if (l.second) l.second--; point(); }
static bool rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}
extern "C" {
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) {
    if (!sched::on()) return sched::real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create")(t, a, fn, arg);
    if (sched::co.empty()) sched::co.push_back(new sched::Co());
    auto *c = new sched::Co(); c->fn = fn; c->arg = arg; c->stack = (char*)malloc(8 << 20); getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = 8 << 20; c->ctx.uc_link = nullptr; makecontext(&c->ctx, sched::entry, 0); sched::co.push_back(c); *t = (pthread_t)(sched::co.size() - 1); sched::point(); return 0;
}
int pthread_join(pthread_t t, void **r) { if (!sched::on() || t >= sched::co.size()) return sched::real<int(*)(pthread_t, void**)>("pthread_join")(t, r); sched::co[sched::cur]->join = t; sched::block(2, nullptr); if (r) *r = nullptr; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } sched::lock(m, sched::rec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); } return sched::trylock(m, sched::rec(m)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } sched::unlock(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_spinlock_t*)>("pthread_spin_lock"); return f(m); } sched::lock((void*)m, false); return 0; }
int pthread_spin_trylock(pthread_spinlock_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_spinlock_t*)>("pthread_spin_trylock"); return f(m); } return sched::trylock((void*)m, false) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_spinlock_t*)>("pthread_spin_unlock"); return f(m); } sched::unlock((void*)m); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } sched::locks[m].second = 0; int me = sched::cur; sched::signaled.erase(me); sched::block(3, c); sched::signaled.erase(me); sched::block(1, m); auto &k = sched::locks[m]; k.first = me + 1; k.second = 1; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } for (size_t i = 0; i < sched::co.size(); i++) if (sched::co[i]->kind == 3 && sched::co[i]->wait == c && !sched::signaled.count(i)) { sched::signaled.insert(i); break; } sched::point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!sched::on()) { static auto f = sched::real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } for (size_t i = 0; i < sched::co.size(); i++) if (sched::co[i]->kind == 3 && sched::co[i]->wait == c) sched::signaled.insert(i); sched::point(); return 0; }
int sem_init(sem_t *s, int p, unsigned v) { if (!sched::on()) { static auto f = sched::real<int(*)(sem_t*, int, unsigned)>("sem_init"); return f(s, p, v); } sched::sems[s] = v; return 0; }
int sem_wait(sem_t *s) { if (!sched::on()) { static auto f = sched::real<int(*)(sem_t*)>("sem_wait"); return f(s); } sched::point(); sched::block(4, s); sched::sems[s]--; return 0; }
int sem_post(sem_t *s) { if (!sched::on()) { static auto f = sched::real<int(*)(sem_t*)>("sem_post"); return f(s); } sched::sems[s]++; sched::point(); return 0; }
int sched_yield() { if (!sched::on()) { static auto f = sched::real<int(*)()>("sched_yield"); return f(); } int k = sched::cur; for (size_t i = 0; i < sched::co.size(); i++) if ((int)i != k && sched::ready(i)) { sched::go(i); break; } return 0; }
int usleep(useconds_t t) { if (!sched::on()) { static auto f = sched::real<int(*)(useconds_t)>("usleep"); return f(t); } return sched_yield(); }
}

// ------------------------------------------------------------------ cases
typedef NamedData::DataType DT;
struct Def { bool node; int type, dim; const char *name; int restriction; };
struct Case {
    int format = 0, kind = 0, nx = 2, ny = 2, nz = 1; bool quad = false; int n = 1, dist = 0, limit = 0, stripe = 0, coll = 0, decomp = 0, nodes = 31, elems = 31, steps = 2, freq = 1, nth = 2, mfreq = 0, ftype = 1, variant = 0, bodies = 1; bool rdv = false, async = false; int loadsteps = 1;
    std::string show() const {
        static const char *kn[] = { "hexa", "tetra", "prism", "pyramid", "mixed", "square", "triangle", "mixed2d" }, *fn[] = { "VTK", "ENSIGHT" }, *fr[] = { "never", "every", "nth", "last" };
        return std::string(fn[format]) + ": " + kn[kind] + " " + S(nx) + "x" + S(ny) + "x" + S(nz) + (quad ? " quadratic" : "") + ", regions " + S(variant) + ", processes " + S(n) + ", distribution " + S(dist) + ", scalability limit " + S(limit) + ", stripe " + S(stripe) + (coll ? ", collective writer" : "") + (decomp ? ", decomposition" : "") + ", node data " + S(nodes) + ", element data " + S(elems) + ", load steps " + S(loadsteps) + " with substeps " + S(steps) + ", results " + fr[freq] + ", monitors " + fr[mfreq] + " (nth " + S(nth) + ")" + (ftype == 2 ? ", frequency" : "") + (rdv ? ", unbuffered" : "") + (async ? ", separate thread" : "");
    }
};
static std::vector<Def> defs(const Case &c) {
    std::vector<Def> v; int d = c.kind >= KSQ ? 2 : 3; Def n[] = { { true, (int)DT::SCALAR, 1, "TEMPERATURE", 1 }, { true, (int)DT::VECTOR, d, "DISPLACEMENT", 1 }, { true, (int)DT::TENSOR_SYMM, d == 3 ? 6 : 3, "AVG_COMPONENT_STRESS", 1 }, { true, (int)DT::NUMBERED, d, "AVG_PRINCIPAL_STRESS", 1 }, { true, (int)DT::SCALAR, 1, "", 1 }, { true, (int)DT::VECTOR, d, "DISPLACEMENT_COS", 2 }, { true, (int)DT::SCALAR, d, "PHASES", 2 } };
    Def e[] = { { false, (int)DT::SCALAR, 1, "THICKNESS", 1 }, { false, (int)DT::VECTOR, d, "FLUX", 1 }, { false, (int)DT::TENSOR_SYMM, d == 3 ? 6 : 3, "COMPONENT_STRESS", 1 }, { false, (int)DT::NUMBERED, d, "PRINCIPAL_STRESS", 1 }, { false, (int)DT::SCALAR, 1, "", 1 }, { false, (int)DT::SCALAR, 1, "EAMPLITUDE", 2 } };
    for (int i = 0; i < 7; i++) if (c.nodes >> i & 1) v.push_back(n[i]); for (int i = 0; i < 6; i++) if (c.elems >> i & 1) v.push_back(e[i]); return v;
}
static double value(int def, int entity, int d, int call) { double v = entity * 16 + d + def * 0.5 + 1 + (call % 4) * 0.125 + (call / 4) * 0.0625; return (entity + d + call) % 3 == 0 ? -v : v; }
struct Mon { std::string region, prop; int stat, def, comp; }; // comp -1: magnitude
static const char *stats[] = { "MIN", "MAX", "AVG", "NORM", "ABSMIN", "ABSMAX" };
static std::string suffix(int type, int d) { static const char *t[] = { "_XX", "_YY", "_ZZ", "_XY", "_YZ", "_XZ" }, *n[] = { "_1ST", "_2ND", "_3RD" }, *x[] = { "_X", "_Y", "_Z" }; return type == (int)DT::TENSOR_SYMM ? t[d] : type == (int)DT::NUMBERED ? n[d] : x[d]; }

static RMesh build(const Case &c, bool surface = false) {
    RMesh m = grid(c.kind, c.nx, c.ny, c.nz); double mx = 0; for (auto &p : m.c) mx = std::max(mx, p[0]);
    if (c.variant != 3) {
        addBoundary(m, "X0", 0, 0); if (c.variant) addBoundary(m, "XMAX", 0, mx), addBoundary(m, "Y0", 1, 0);
        addNodeRegion(m, "NX", [](const P3 &p) { return p[0] == 0.5; }); addNodeRegion(m, "CORNER", [](const P3 &p) { return p[0] == 0 && p[1] == 0 && p[2] == 0; });
        addElemRegion(m, "EVEN", [](int i) { return i % 2 == 0; }); if (c.variant >= 1) { addElemRegion(m, "ODD", [](int i) { return i % 2 == 1; }); addElemRegion(m, "FIRST", [](int i) { return i < 3; }); addElemRegion(m, "SINGLE", [](int i) { return i == 1; }); }
    }
    // the region created by the library: all faces on the boundary of the mesh
    if (surface) { auto sk = [](std::vector<int> f) { std::sort(f.begin(), f.end()); return f; }; std::map<std::vector<int>, int> cnt; size_t ne = m.e.size(); for (int p = 0; p < 2; p++) for (size_t i = 0; i < ne; i++) if (edim(m.e[i].code) == m.dim) for (auto &f : faces(m.e[i])) { if (!p) cnt[sk(f)]++; else if (cnt[sk(f)] == 1) { El b; b.code = f.size() == 2 ? LINE2 : f.size() == 3 ? TRIANGLE3 : SQUARE4; b.n = f; m.ereg["SURFACE"].push_back(m.e.size()); m.e.push_back(b); } } }
    if (c.quad) m = quadratic(m); return m;
}
static std::vector<Mon> monitors(const Case &c, const RMesh &m, const std::vector<Def> &df) {
    std::vector<Mon> v; if (!c.mfreq) return v; std::vector<std::pair<std::string, int>> regs = { { "ALL_ELEMENTS", 0 }, { "ALL_NODES", 1 } }; for (auto &r : m.ereg) regs.push_back({ r.first, edim(m.e[r.second[0]].code) == m.dim ? 0 : 1 }); for (auto &r : m.nreg) regs.push_back({ r.first, 1 });
    int k = c.nx + c.n; for (size_t i = 0; i < df.size(); i++) { if (!*df[i].name) continue; if (df[i].type == (int)DT::TENSOR_SYMM && m.dim == 2) continue;
        bool only = df[i].type == (int)DT::TENSOR_SYMM || (df[i].type == (int)DT::SCALAR && df[i].dim > 1); for (size_t r = 0; r < regs.size(); r++) { if (!df[i].node && regs[r].second) continue; for (int comp = -1; comp < (df[i].dim == 1 ? 0 : df[i].dim); comp++) { if (comp == -1 && (only || df[i].type == (int)DT::NUMBERED)) continue; if ((k + comp) % 3 == 0) { std::string p = df[i].name; if (comp >= 0) p += suffix(df[i].type, comp); v.push_back({ regs[r].first, p, k % 6, (int)i, df[i].dim == 1 ? 0 : comp }); } k += 5; } } }
    return v;
}

static int calls(const Case &c) { return c.loadsteps * c.steps; }
static void fill(const Case &c, const std::vector<Def> &df, const std::vector<NamedData*> &data, const std::vector<int> &ni, const std::vector<int> &ei, int call, int part) { for (size_t i = 0; i < df.size(); i++) { if (part >= 0 && (int)i % 2 != part) continue; auto &x = df[i].node ? ni : ei; for (size_t k = 0; k < x.size(); k++) for (int d = 0; d < df[i].dim; d++) data[i]->data[k * df[i].dim + d] = value(i, x[k], d, call); } }

static std::string ecfText(const Case &c, const std::string &dir, const RMesh &m) {
    static const char *fn[] = { "VTK_LEGACY", "ENSIGHT" }, *fr[] = { "NEVER", "EVERY_SUBSTEP", "EVERY_NTH_SUBSTEP", "LAST_SUBSTEP" };
    std::string s = "INPUT { FORMAT ENSIGHT; PATH x; CONVERT_DATABASE TRUE; " + (c.limit ? "THIRD_PARTY_SCALABILITY_LIMIT " + S(c.limit) + "; " : "") + "DECOMPOSITION { PARALLEL_DECOMPOSER " + (c.dist % 2 ? "NONE" : "HILBERT_CURVE") + "; DOMAINS " + S(1 + c.dist % 3) + "; } } OUTPUT { PATH results; LOG_DIR " + dir + "/results; FORMAT " + fn[c.format] + "; MODE " + (c.async ? "PTHREAD" : "SYNC") + "; WRITER " + (c.coll ? "MPI_COLLECTIVE" : "MPI") + "; STORE_DECOMPOSITION " + S(c.decomp) + "; RESULTS_STORE_FREQUENCY " + fr[c.freq] + "; RESULTS_NTH_STEPPING " + S(c.nth) + "; MONITORS_STORE_FREQUENCY " + fr[c.mfreq] + "; MONITORS_NTH_STEPPING " + S(c.nth) + "; " + (c.stripe ? "STRIPE_SIZE " + S(c.stripe) + "; " : "");
    auto mn = monitors(c, m, defs(c)); if (mn.size()) { s += "MONITORING { "; for (size_t i = 0; i < mn.size(); i++) s += S(i + 1) + " { REGION " + mn[i].region + "; STATISTICS " + stats[mn[i].stat] + "; PROPERTY " + mn[i].prop + "; } "; s += "} "; }
    return s + "} PHYSICS HEAT_TRANSFER; ";
}

static void rankMain(const Case &c, const std::string &dir, const std::string &ecf, const RMesh &m, const Dist &d) {
    if (chdir(dir.c_str())) {} setenv("OMP_NUM_THREADS", "1", 1); if (c.async) { sched::co.push_back(new sched::Co()); sched::armed = true; mc::onmpi = sched::mpi; }
    setupRank(ecf); RefBuilder b(m, d); b.load(); b.build(); info::mesh->preprocess(); mc::report(dump());
    std::map<P3, int> nid; std::map<EKey, int> eid; for (size_t i = 0; i < m.c.size(); i++) nid[m.c[i]] = i; for (size_t i = 0; i < m.e.size(); i++) eid[key(m, m.e[i])] = i;
    std::vector<int> ni, ei; std::vector<P3> pc; for (auto &p : info::mesh->nodes->coordinates->datatarray()) { pc.push_back({ p.x, p.y, p.z }); ni.push_back(nid.at(pc.back())); }
    size_t q = 0; for (auto e = info::mesh->elements->nodes->begin(); e != info::mesh->elements->nodes->end(); ++e, ++q) { EKey k; k.first = (int)info::mesh->elements->epointers->datatarray()[q]->code; for (auto n : *e) k.second.push_back(pc[n]); ei.push_back(eid.at(k)); }
    auto df = defs(c); std::vector<NamedData*> data; info::mesh->output->updateMesh(); int call = 0;
    for (int l = 0; l < c.loadsteps; l++) {
        step::Step st; st.loadstep = l; st.loadsteps = c.loadsteps; st.substeps = c.steps; st.type = c.ftype == 2 ? step::TYPE::FREQUENCY : step::TYPE::TIME;
        if (l == 0) for (auto &x : df) { if (x.node) data.push_back(info::mesh->nodes->appendData(x.dim, (DT)x.type, x.name, (step::TYPE)x.restriction)); else data.push_back(info::mesh->elements->appendData(x.dim, (DT)x.type, x.name, (step::TYPE)x.restriction)); }
        info::mesh->output->updateMonitors(st);
        for (int s = 0; s < c.steps; s++, call++) {
            st.substep = s; fill(c, df, data, ni, ei, call, 0); sched::point(); fill(c, df, data, ni, ei, call, 1);
            if (c.ftype == 2) { step::Frequency f; f.current = 100 + call * 12.5; info::mesh->output->updateSolution(st, f); } else { step::Time t; t.current = 0.25 + call * 0.5; info::mesh->output->updateSolution(st, t); }
        }
    }
    if (c.async) { fill(c, df, data, ni, ei, call, 0); sched::point(); fill(c, df, data, ni, ei, call, 1); } // the following iteration
    finishRank(); sched::armed = false; mc::onmpi = nullptr;
}

// ------------------------------------------------------------------ independent readers
struct Part { std::string name; std::vector<P3> c; std::vector<std::pair<int, std::vector<std::vector<int>>>> e; }; // blocks of elements by code, 0-based nodes
static const char *etn[] = { "point", "bar2", "tria3", "quad4", "tetra4", "pyramid5", "penta6", "hexa8", "bar3", "tria6", "quad8", "tetra10", "pyramid13", "penta15", "hexa20" };
static bool slurp(const std::string &f, std::string &s) { std::ifstream i(f, std::ios::binary); if (!i) return false; std::stringstream ss; ss << i.rdbuf(); s = ss.str(); return true; }
struct Bin { const std::string &s; size_t p = 0; bool bad = false; Bin(const std::string &s) : s(s) {} bool end() { return p >= s.size(); } std::string str() { if (p + 80 > s.size()) { bad = true; p = s.size(); return ""; } std::string r(s.data() + p, 80); p += 80; r = r.c_str(); return r; } int i() { int v = 0; if (p + 4 > s.size()) { bad = true; p = s.size(); return 0; } memcpy(&v, s.data() + p, 4); p += 4; return v; } float f() { float v = 0; if (p + 4 > s.size()) { bad = true; p = s.size(); return 0; } memcpy(&v, s.data() + p, 4); p += 4; return v; } };
static std::string readGeo(const std::string &s, std::vector<Part> &parts) {
    Bin b(s); if (b.str() != "C Binary") return "not a C Binary file"; b.str(); b.str(); std::string nid = b.str(), eid = b.str(); if (nid != "node id off" || eid != "element id off") return "wrong node id / element id: " + nid + ", " + eid;
    while (!b.end()) {
        std::string t = b.str(); if (b.bad) return "trailing data";
        if (t == "part") { int k = b.i(); if (k != (int)parts.size() + 1) return "part number " + S(k) + " instead of " + S(parts.size() + 1); parts.push_back(Part()); Part &p = parts.back(); p.name = b.str(); if (b.str() != "coordinates") return "coordinates of " + p.name + " are missing"; int n = b.i(); if (n < 0 || b.bad || (size_t)n > s.size()) return "wrong number of nodes of " + p.name; p.c.resize(n); for (int d = 0; d < 3; d++) for (int i = 0; i < n; i++) p.c[i][d] = b.f(); }
        else { int code = -1; for (int i = 0; i < 15; i++) if (t == etn[i]) code = i; if (code < 0 || parts.empty()) return "unexpected record '" + t.substr(0, 20) + "'"; int n = b.i(); if (n < 0 || b.bad || (size_t)n > s.size()) return "wrong number of elements"; parts.back().e.push_back({ code, {} }); for (int i = 0; i < n; i++) { std::vector<int> v; for (int k = 0; k < enn(code); k++) v.push_back(b.i() - 1); parts.back().e.back().second.push_back(v); } }
        if (b.bad) return "the file is cut";
    }
    return "";
}
struct Tok { std::vector<std::string> t; size_t p = 0; bool end() { return p >= t.size(); } std::string next() { return end() ? std::string() : t[p++]; } double d() { return atof(next().c_str()); } long i() { return atol(next().c_str()); } };
static Tok tokens(const std::string &s, size_t from) { Tok t; size_t p = from; while (p < s.size()) { while (p < s.size() && isspace((unsigned char)s[p])) p++; size_t q = p; while (q < s.size() && !isspace((unsigned char)s[q])) q++; if (q > p) t.t.push_back(s.substr(p, q - p)); p = q; } return t; }

// identification of nodes and elements of a part with the reference mesh
struct Ref { const RMesh &m; std::map<P3, int> nid; std::map<EKey, int> eid; std::map<std::string, std::set<int>> er, br, nr; std::map<int, std::array<double, 4>> decomp; Ref(const RMesh &m) : m(m) { for (size_t i = 0; i < m.c.size(); i++) nid[m.c[i]] = i; for (size_t i = 0; i < m.e.size(); i++) eid[key(m, m.e[i])] = i; } };
static std::string checkPart(const Ref &R, const Part &p, std::vector<int> &nodes, std::vector<std::vector<int>> &elems) {
    bool el = R.er.count(p.name), bo = R.br.count(p.name), no = R.nr.count(p.name); if (!el && !bo && !no) return "unexpected region " + p.name; std::string what = "region " + p.name + ": "; const std::set<int> &exp = el ? R.er.at(p.name) : bo ? R.br.at(p.name) : R.nr.at(p.name);
    std::set<int> en, gn; if (no) en = exp; else for (int i : exp) en.insert(R.m.e[i].n.begin(), R.m.e[i].n.end());
    for (auto &c : p.c) { auto it = R.nid.find(c); if (it == R.nid.end()) return what + fmt("wrong coordinates (%g, %g, %g)", c[0], c[1], c[2]); if (!gn.insert(it->second).second) return what + "a node is stored twice"; nodes.push_back(it->second); }
    if (gn != en) return what + S(gn.size()) + " nodes instead of " + S(en.size()); std::set<int> ge; std::map<std::vector<P3>, int> bk; if (bo) for (int i : exp) bk[sorted(key(R.m, R.m.e[i])).second] = i;
    for (auto &blk : p.e) { elems.push_back({}); for (auto &e : blk.second) {
        EKey k; k.first = blk.first; for (int n : e) { if (n < 0 || n >= (int)p.c.size()) return what + "node out of range"; k.second.push_back(p.c[n]); }
        int id = -1; if (no) { if (blk.first != POINT1) return what + "wrong type of elements"; id = nodes[e[0]]; } else if (el) { auto it = R.eid.find(k); if (it != R.eid.end()) id = it->second; } else { auto it = bk.find(sorted(k).second); if (it != bk.end() && R.m.e[it->second].code == blk.first) id = it->second; }
        if (id < 0 || !exp.count(id)) return what + "wrong element " + show(k); if (!ge.insert(id).second) return what + "an element is stored twice"; elems.back().push_back(id); } }
    if (ge != exp) return what + S(ge.size()) + " elements instead of " + S(exp.size()); return "";
}
static bool stored(const Case &c, int freq, int s) { return freq == 1 || (freq == 2 && (s + 1) % c.nth == 0) || (freq == 3 && s + 1 == c.steps); }
static std::set<std::string> list(const std::string &d) { std::set<std::string> v; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') v.insert(e->d_name); closedir(p); } return v; }

static std::string checkEnsight(const Case &c, const Ref &R, const std::string &out) {
    auto df = defs(c); std::string g, f; if (!slurp(out + "/PREPOSTDATA/e.geo", g)) return "the geometry is not stored"; std::vector<Part> parts; f = readGeo(g, parts); if (f.size()) return "geometry: " + f;
    std::vector<std::vector<int>> nodes(parts.size()); std::vector<std::vector<std::vector<int>>> elems(parts.size()); std::set<std::string> names; for (size_t i = 0; i < parts.size(); i++) { if (!names.insert(parts[i].name).second) return "region " + parts[i].name + " is stored twice"; f = checkPart(R, parts[i], nodes[i], elems[i]); if (f.size()) return "geometry: " + f; }
    for (auto *s : { &R.er, &R.br, &R.nr }) for (auto &q : *s) if (!names.count(q.first)) return "region " + q.first + " is not stored";
    std::set<std::string> exp = { "e.geo" }; if (c.decomp) for (const char *s : { "BODY", "DOMAIN", "CLUSTER", "MPI" }) exp.insert(s);
    auto perElement = [&](const std::string &file, const std::string &desc, int ncomp, std::function<double(int, int)> val) -> std::string {
        std::string s; if (!slurp(out + "/PREPOSTDATA/" + file, s)) return "file " + file + " is not stored"; Bin b(s); std::string t = b.str(); if (desc.size() && t != desc) return file + ": wrong description '" + t + "'";
        for (size_t p = 0; p < parts.size(); p++) { if (!R.er.count(parts[p].name)) continue; if (b.str() != "part" || b.i() != (int)p + 1) return file + ": part " + S(p + 1) + " is missing"; for (size_t k = 0; k < parts[p].e.size(); k++) { if (b.str() != etn[parts[p].e[k].first]) return file + ": wrong type of elements in part " + S(p + 1); for (int d = 0; d < ncomp; d++) for (int e : elems[p][k]) { double v = b.f(), x = val(e, d); if (b.bad) return file + ": the file is cut"; if (v != x) return file + fmt(": element %d of %s, component %d has %g instead of %g", e, parts[p].name.c_str(), d, v, x); } } }
        return b.end() && !b.bad ? "" : file + ": trailing data";
    };
    auto perNode = [&](const std::string &file, const std::string &desc, int ncomp, std::function<double(int, int)> val) -> std::string {
        std::string s; if (!slurp(out + "/PREPOSTDATA/" + file, s)) return "file " + file + " is not stored"; Bin b(s); std::string t = b.str(); if (t != desc) return file + ": wrong description '" + t + "'";
        for (size_t p = 0; p < parts.size(); p++) { if (b.str() != "part" || b.i() != (int)p + 1 || b.str() != "coordinates") return file + ": part " + S(p + 1) + " is missing"; for (int d = 0; d < ncomp; d++) for (int n : nodes[p]) { double v = b.f(), x = val(n, d); if (b.bad) return file + ": the file is cut"; if (v != x) return file + fmt(": node %d of %s, component %d has %g instead of %g", n, parts[p].name.c_str(), d, v, x); } }
        return b.end() && !b.bad ? "" : file + ": trailing data";
    };
    if (c.decomp) { const char *dn[] = { "BODY", "DOMAIN", "CLUSTER", "MPI" }; for (int k = 0; k < 4; k++) { f = perElement(dn[k], dn[k], 1, [&](int e, int) { return R.decomp.at(e)[k]; }); if (f.size()) return f; } }
    std::vector<double> times; std::vector<std::array<std::string, 3>> vars; int nstored = 0;
    for (int call = 0; call < calls(c); call++) {
        if (!stored(c, c.freq, call % c.steps)) continue; nstored++; times.push_back(c.ftype == 2 ? 100 + call * 12.5 : 0.25 + call * 0.5);
        for (size_t i = 0; i < df.size(); i++) {
            if (!*df[i].name || !(df[i].restriction & c.ftype)) continue; bool vec = df[i].type == (int)DT::VECTOR, ten = df[i].type == (int)DT::TENSOR_SYMM; int nf = vec || ten ? 1 : df[i].dim;
            for (int k = 0; k < nf; k++) {
                std::string nm = df[i].name; if (nf > 1) nm += suffix(df[i].type, k); std::string file = nm + fmt(".%04d", nstored); exp.insert(file); if (nstored == 1) vars.push_back({ vec ? "vector" : ten ? "tensor symm" : "scalar", df[i].node ? "node" : "element", nm });
                // EnSight: vectors have three components, symmetric tensors are XX YY ZZ XY XZ YZ
                int nc = vec ? 3 : ten ? 6 : 1; auto val = [&](int e, int d) -> double { if (vec) return d < df[i].dim ? value(i, e, d, call) : 0; if (ten) { static const int t3[] = { 0, 1, 2, 3, 5, 4 }, t2[] = { 0, 1, -1, 2, -1, -1 }; int q = R.m.dim == 3 ? t3[d] : t2[d]; return q < 0 ? 0 : value(i, e, q, call); } return value(i, e, k, call); };
                f = df[i].node ? perNode(file, nm, nc, val) : perElement(file, df[i].node ? nm : "", nc, val); if (f.size()) return f;
            }
        }
    }
    for (auto &x : list(out + "/PREPOSTDATA")) if (!exp.count(x)) return "unexpected file " + x;
    std::string cs; if (!slurp(out + "/e.case", cs)) return "the case file is not stored"; std::istringstream is(cs); std::string l; bool model = false; int steps = -1; std::vector<double> ct; std::vector<std::string> got; bool tv = false; int tset = -1, start = -1, inc = -1;
    while (std::getline(is, l)) {
        if (l.find("model:") == 0) { model = tokens(l, 6).next() == "PREPOSTDATA/e.geo"; continue; } if (l.find(" per ") != std::string::npos) { got.push_back(l); continue; } auto num = [&](const char *k, int &v) { if (l.find(k) == 0) { v = atoi(l.c_str() + strlen(k)); return true; } return false; };
        if (num("number of steps:", steps) || num("time set:", tset) || num("filename start numbers:", start) || num("filename increment:", inc)) continue; if (l.find("time values:") == 0) { tv = true; continue; } if (tv) { Tok t = tokens(l, 0); while (!t.end()) ct.push_back(t.d()); }
    }
    if (!model) return "case file: wrong geometry"; if (c.decomp) { for (int k = 0; k < 4; k++) { const char *dn[] = { "BODY", "DOMAIN", "CLUSTER", "MPI" }; bool ok = false; for (auto &x : got) if (x.find("scalar per element:") == 0) { Tok t = tokens(x, 19); ok |= t.next() == dn[k] && t.next() == std::string("PREPOSTDATA/") + dn[k]; } if (!ok) return std::string("case file: ") + dn[k] + " is missing"; } }
    if (nstored) { if (steps != nstored || (int)ct.size() != nstored) return fmt("case file: %d steps (%d times) instead of %d", steps, (int)ct.size(), nstored); for (int i = 0; i < nstored; i++) if (std::fabs(ct[i] - times[i]) > 1e-4 * times[i]) return fmt("case file: time %g instead of %g", ct[i], times[i]); if (tset != 1 || start != 1 || inc != 1) return "case file: wrong time set";
        size_t nv = 0; for (auto &v : vars) { bool ok = false; for (auto &x : got) { std::string head = v[0] + " per " + v[1] + ":"; if (x.find(head) == 0) { Tok t = tokens(x, head.size()); ok |= t.next() == "1" && t.next() == v[2] && t.next() == "PREPOSTDATA/" + v[2] + ".****"; } } if (!ok) return "case file: variable " + v[2] + " is missing"; nv++; } if (got.size() != nv + (c.decomp ? 4 : 0)) return "case file: unexpected variables"; }
    return "";
}

static std::string readVtk(const std::string &s, Part &p, std::vector<std::pair<std::string, std::vector<std::vector<double>>>> &pd, std::vector<std::pair<std::string, std::vector<std::vector<double>>>> &cd) {
    if (s.compare(0, 26, "# vtk DataFile Version 2.0") != 0) return "wrong header"; size_t q = s.find("DATASET"); if (q == std::string::npos) return "DATASET is missing"; Tok t = tokens(s, q); t.next(); if (t.next() != "UNSTRUCTURED_GRID") return "wrong dataset";
    static const int vt[] = { 1, 3, 5, 9, 10, 14, 13, 12, 21, 22, 23, 24, 27, 26, 25 }; std::vector<std::vector<int>> cells; std::vector<int> types; std::string w; std::vector<std::pair<std::string, std::vector<std::vector<double>>>> *cur = nullptr; size_t len = 0;
    while (!t.end()) {
        w = t.next();
        if (w == "POINTS") { long n = t.i(); t.next(); if (n < 0 || n > (long)s.size()) return "wrong POINTS"; for (long i = 0; i < n; i++) { P3 x; for (int d = 0; d < 3; d++) x[d] = t.d(); p.c.push_back(x); } }
        else if (w == "CELLS") { long n = t.i(), size = t.i(), sum = 0; if (n < 0 || n > (long)s.size()) return "wrong CELLS"; for (long i = 0; i < n; i++) { long k = t.i(); if (k < 1 || k > 20) return "wrong size of a cell"; std::vector<int> v; for (long j = 0; j < k; j++) v.push_back(t.i()); cells.push_back(v); sum += k + 1; } if (sum != size) return "CELLS say " + S(size) + " numbers but there are " + S(sum); }
        else if (w == "CELL_TYPES") { long n = t.i(); if (n != (long)cells.size()) return "wrong number of CELL_TYPES"; for (long i = 0; i < n; i++) { long k = t.i(); int code = -1; for (int j = 0; j < 15; j++) if (vt[j] == k) code = j; if (code < 0 || enn(code) != (int)cells[i].size()) return "wrong type " + S(k) + " of a cell"; types.push_back(code); } }
        else if (w == "POINT_DATA") { len = t.i(); if (len != p.c.size()) return "wrong size of POINT_DATA"; cur = &pd; } else if (w == "CELL_DATA") { len = t.i(); if (len != cells.size()) return "wrong size of CELL_DATA"; cur = &cd; }
        else if (w == "SCALARS" || w == "VECTORS" || w == "TENSORS") { std::string nm = t.next(); t.next(); int nc = w == "SCALARS" ? 1 : w == "VECTORS" ? 3 : 9; if (w == "SCALARS") { if (t.next() != "1" || t.next() != "LOOKUP_TABLE" || t.next() != "default") return "wrong SCALARS"; } if (!cur) return "data without POINT_DATA or CELL_DATA"; std::vector<std::vector<double>> v(len); for (auto &x : v) for (int i = 0; i < nc; i++) { if (t.end() || !(isdigit((unsigned char)t.t[t.p][0]) || t.t[t.p][0] == '-')) return nm + ": value is missing"; x.push_back(t.d()); } cur->push_back({ w + " " + nm, v }); }
        else return "unexpected record " + w.substr(0, 20);
    }
    if (types.size() != cells.size()) return "CELL_TYPES are missing"; for (size_t i = 0; i < cells.size(); i++) p.e.push_back({ types[i], { cells[i] } }); return "";
}
static std::string checkVtk(const Case &c, const Ref &R, const std::string &out) {
    auto df = defs(c); std::string f; std::set<std::string> expGeo, expRes; typedef std::vector<std::pair<std::string, std::vector<std::vector<double>>>> DV;
    auto file = [&](const std::string &path, const std::string &name, int call) -> std::string {
        std::string s; if (!slurp(path, s)) return "file " + path.substr(path.rfind('/') + 1) + " is not stored"; Part p; p.name = name; DV pd, cd; std::string f = readVtk(s, p, pd, cd), what = path.substr(path.rfind('/') + 1) + ": "; if (f.size()) return what + f; std::vector<int> nodes; std::vector<std::vector<int>> elems; f = checkPart(R, p, nodes, elems); if (f.size()) return what + f; std::vector<int> el; for (auto &x : elems) el.push_back(x[0]);
        bool vol = R.er.count(name); std::map<std::string, std::function<double(int, int)>> ep, ec; std::vector<int> dims;
        if (c.decomp && vol) { const char *dn[] = { "BODY", "DOMAIN", "CLUSTER", "MPI" }; for (int k = 1; k < 4; k++) ec[std::string("SCALARS ") + dn[k]] = [&R, k](int e, int) { return R.decomp.at(e)[k]; }; }
        if (call >= 0) for (size_t i = 0; i < df.size(); i++) {
            if (!*df[i].name || !(df[i].restriction & c.ftype)) continue; if (!df[i].node && !vol) continue; auto &m = df[i].node ? ep : ec; int D = df[i].dim, ii = i; std::string nm = df[i].name;
            if (df[i].type == (int)DT::VECTOR) m["VECTORS " + nm] = [=](int e, int d) { return d < D ? value(ii, e, d, call) : 0.; };
            else if (df[i].type == (int)DT::TENSOR_SYMM) m["TENSORS " + nm] = [=](int e, int d) { static const int t3[] = { 0, 3, 5, 3, 1, 4, 5, 4, 2 }, t2[] = { 0, 2, -1, 2, 1, -1, -1, -1, -1 }; int q = D == 6 ? t3[d] : t2[d]; return q < 0 ? 0. : value(ii, e, q, call); };
            else for (int d = 0; d < D; d++) m["SCALARS " + nm + (D > 1 ? suffix(df[i].type, d) : "")] = [=](int e, int) { return value(ii, e, d, call); };
        }
        auto compare = [&](DV &g, std::map<std::string, std::function<double(int, int)>> &x, const std::vector<int> &id, const char *k) -> std::string { std::set<std::string> have; for (auto &v : g) { if (!have.insert(v.first).second) return what + v.first + " is stored twice"; auto it = x.find(v.first); if (it == x.end()) return what + "unexpected " + v.first; for (size_t i = 0; i < id.size(); i++) for (size_t d = 0; d < v.second[i].size(); d++) { double e = it->second(id[i], d); if (std::fabs(v.second[i][d] - e) > 1e-5 * (1 + std::fabs(e))) return what + fmt("%s: %s %d, component %d has %g instead of %g", v.first.c_str(), k, id[i], (int)d, v.second[i][d], e); } } for (auto &q : x) if (!have.count(q.first)) return what + q.first + " is missing"; return ""; };
        f = compare(pd, ep, nodes, "node"); if (f.empty()) f = compare(cd, ec, el, "element"); return f;
    };
    for (auto *s : { &R.er, &R.br, &R.nr }) for (auto &q : *s) { expGeo.insert("e." + q.first + ".vtk"); f = file(out + "/e." + q.first + ".vtk", q.first, -1); if (f.size()) return f; }
    for (int call = 0; call < calls(c); call++) { if (!stored(c, c.freq, call % c.steps)) continue; double t = c.ftype == 2 ? 100 + call * 12.5 : 0.25 + call * 0.5; for (auto *s : { &R.er, &R.br, &R.nr }) for (auto &q : *s) { std::string nm = "e." + q.first + "." + std::to_string(t) + ".vtk"; expRes.insert(nm); f = file(out + "/PREPOSTDATA/" + nm, q.first, call); if (f.size()) return f; } }
    for (auto &x : list(out)) if (x.find(".vtk") != std::string::npos && !expGeo.count(x)) return "unexpected file " + x; for (auto &x : list(out + "/PREPOSTDATA")) if (!expRes.count(x)) return "unexpected file " + x;
    return "";
}
static std::string checkMonitors(const Case &c, const Ref &R, const std::string &out) {
    auto df = defs(c); auto mn = monitors(c, build(c), df); std::string s; if (!c.mfreq) return ""; if (!slurp(out + "/e.emr", s)) return "monitors are not stored";
    std::vector<std::vector<std::string>> rows; std::istringstream is(s); std::string l; while (std::getline(is, l)) { std::vector<std::string> r; size_t p = 0; while (true) { size_t q = l.find(';', p); if (q == std::string::npos) break; Tok t = tokens(l.substr(p, q - p), 0); r.push_back(t.t.size() ? t.t[0] : ""); p = q + 1; } if (r.size()) rows.push_back(r); }
    static const char *sn[] = { "<MIN>", "<MAX>", "<AVERAGE>", "<NORM>", "<ABSMIN>", "<ABSMAX>" }; if (rows.size() < 3) return "monitors: header is missing"; for (size_t i = 0; i < mn.size(); i++) if (rows[0].size() != mn.size() + 3 || rows[1].size() != mn.size() + 3 || rows[2].size() != mn.size() + 3 || rows[0][i + 3] != mn[i].region || rows[1][i + 3] != mn[i].prop || rows[2][i + 3] != sn[mn[i].stat]) return "monitors: wrong header of column " + S(i + 1);
    size_t row = 3; for (int call = 0; call < calls(c); call++) {
        if (!stored(c, c.mfreq, call % c.steps)) continue; if (row >= rows.size()) return fmt("monitors: the row of load step %d, substep %d is missing", call / c.steps + 1, call % c.steps + 1); auto &r = rows[row++]; double t = c.ftype == 2 ? 100 + call * 12.5 : 0.25 + call * 0.5; if (r.size() != mn.size() + 3 || atoi(r[0].c_str()) != call / c.steps + 1 || atoi(r[1].c_str()) != call % c.steps + 1 || std::fabs(atof(r[2].c_str()) - t) > 1e-3) return fmt("monitors: wrong row of load step %d, substep %d", call / c.steps + 1, call % c.steps + 1);
        for (size_t i = 0; i < mn.size(); i++) {
            const Def &d = df[mn[i].def]; std::set<int> id; const std::string &rg = mn[i].region; auto nodesOf = [&](const std::set<int> &e) { std::set<int> v; for (int k : e) v.insert(R.m.e[k].n.begin(), R.m.e[k].n.end()); return v; }; std::set<int> all; for (auto &q : R.eid) if (edim(q.first.first) == R.m.dim) all.insert(q.second);
            if (d.node) { if (rg == "ALL_ELEMENTS" || rg == "ALL_NODES") id = nodesOf(all); else if (R.er.count(rg)) id = nodesOf(R.er.at(rg)); else if (R.br.count(rg)) id = nodesOf(R.br.at(rg)); else id = R.nr.at(rg); } else id = rg == "ALL_ELEMENTS" ? all : R.er.at(rg);
            double mi = 1e300, ma = -1e300, sum = 0, sq = 0, ami = 1e300, ama = 0; for (int k : id) { double v = 0; if (mn[i].comp < 0) { for (int q = 0; q < d.dim; q++) v += value(mn[i].def, k, q, call) * value(mn[i].def, k, q, call); v = std::sqrt(v); } else v = value(mn[i].def, k, mn[i].comp, call); mi = std::min(mi, v); ma = std::max(ma, v); sum += v; sq += v * v; ami = std::min(ami, std::fabs(v)); ama = std::max(ama, std::fabs(v)); }
            double e[] = { mi, ma, sum / id.size(), std::sqrt(sq), ami, ama }, x = e[mn[i].stat], g = atof(r[i + 3].c_str()); if (std::fabs(g - x) > 2e-6 * (1 + std::fabs(x)) && !d.node && mn[i].stat == 2 && nodesOf(id).size() != id.size() && std::fabs(g - sum / nodesOf(id).size()) <= 2e-6 * (1 + std::fabs(x))) { mc::counter("known_average_of_elements", 1); continue; } if (std::fabs(g - x) > 2e-6 * (1 + std::fabs(x))) return fmt("monitors: %s of %s on %s is %g instead of %g (load step %d, substep %d)", stats[mn[i].stat], mn[i].prop.c_str(), rg.c_str(), g, x, call / c.steps + 1, call % c.steps + 1);
        }
    }
    return row == rows.size() ? "" : "monitors: unexpected rows";
}

static std::string once(const Case &c, mc::Stats &st) {
    RMesh m = build(c); Dist d; size_t N = m.c.size(), E = m.e.size(); for (size_t i = 0; i < N; i++) d.nrank.push_back(c.dist % 3 == 0 ? i * c.n / N : c.dist % 3 == 1 ? i % c.n : (i / 2) % c.n); for (size_t i = 0; i < E; i++) d.erank.push_back(c.dist % 4 < 2 ? i * c.n / E : c.dist % 4 == 2 ? i % c.n : (i * i / 3) % c.n);
    std::string dir = scratch + "/" + S(getpid()), ecf = dir + "/e.ecf"; mkdir(dir.c_str(), 0755); if (system(("rm -rf '" + dir + "/results'").c_str())) {} { std::ofstream f(ecf); f << ecfText(c, dir, m); }
    mc::Opt o; o.n = c.n; o.rendezvous = c.rdv; o.out = dir + "/out.txt"; o.leftover = true; o.cpulimit = 30;
    auto e = mc::run(o, {}, [&](int) { rankMain(c, dir, ecf, m, d); if (c.async) { std::ofstream f(dir + "/choices"); for (size_t i = 0; i < sched::choices.size(); i++) f << sched::choices[i] << " " << sched::alts[i] << "\n"; f << "-1 " << sched::steps << "\n"; } }, st);
    if (e.bad()) { std::string t; slurp(o.out, t); if (t.find(std::string("quit computation: process") + " without any elements") != std::string::npos && m.volumes() < 4 * c.n) { mc::counter("rejected_too_few_elements", 1); return ""; } std::string tail; for (size_t p = t.find("ERROR"); p != std::string::npos && tail.size() < 600; p = t.find("ERROR", p + 1)) tail += t.substr(p, t.find('\n', p) - p) + "\n"; return c.show() + "\n" + e.msg + "\n" + tail + t.substr(t.size() > 1600 ? t.size() - 1600 : 0); }
    RMesh ms = build(c, true); if (ms.c != m.c) return "harness: wrong reference"; Ref R(ms); std::vector<RankMesh> rm; for (auto &s : e.report) { bool ok; rm.push_back(undump(s, ok)); if (!ok) return "harness: broken dump"; }
    std::set<int> named; for (auto &r : ms.ereg) { bool vol = edim(ms.e[r.second[0]].code) == m.dim; (vol ? R.er : R.br)[r.first].insert(r.second.begin(), r.second.end()); if (vol) named.insert(r.second.begin(), r.second.end()); } for (auto &r : m.nreg) R.nr[r.first].insert(r.second.begin(), r.second.end());
    std::set<int> rest; for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) == m.dim && !named.count(i)) rest.insert(i); if (rest.size()) R.er["NAMELESS_ELEMENT_SET"] = rest;
    for (int r = 0; r < c.n; r++) for (size_t k = 0; k < rm[r].elems.size(); k++) { int id = R.eid.at(key(rm[r], rm[r].elems[k].code, rm[r].elems[k].n)); long dm = 0; while (dm + 1 < (long)rm[r].domElems.size() - 1 && rm[r].domElems[dm + 1] <= (long)k) dm++; R.decomp[id] = { (double)rm[r].elems[k].body, (double)(rm[r].dom.offset + dm), (double)(rm[r].domCluster[dm] + rm[r].clu.offset), (double)r }; }
    std::string out = dir + "/results/last", f = c.freq == 0 ? "" : c.format == 1 ? checkEnsight(c, R, out) : checkVtk(c, R, out); if (f.empty()) f = checkMonitors(c, R, out); mc::counter("files_checked", list(out + "/PREPOSTDATA").size()); return f.size() ? c.show() + "\n" + f : "";
}
static std::string runCase(const std::string &prop, const Case &c, mc::Stats &st, int bound) {
    if (!c.async) { mc::counter("cases", 1); return once(c, st); }
    // all schedules of the solver and of the output thread with at most 'bound' preemptions
    std::string dir = scratch + "/" + S(getpid()); sched::bound = bound; sched::prefix.clear(); long n = 0;
    while (true) {
        remove((dir + "/choices").c_str()); sched::choices.clear(); sched::alts.clear(); std::string f = once(c, st); n++; mc::counter("schedules", 1);
        if (f.size()) { std::string s; for (int x : sched::prefix) s += " " + S(x); return f + "\nschedule:" + s; }
        std::vector<int> ch, al; std::ifstream in(dir + "/choices"); int a, b; bool end = false; while (in >> a >> b) if (a < 0) { mc::counter("scheduling_points", b); end = true; } else { ch.push_back(a); al.push_back(b); } if (!end) return c.show() + "\nharness: no schedule";
        while (ch.size() && ch.back() + 1 >= al.back()) { ch.pop_back(); al.pop_back(); } if (ch.empty()) break; ch.back()++; sched::prefix = ch;
    }
    mc::counter("cases", 1); return "";
}

static std::vector<Case> cases(const std::string &prop, bool T) {
    std::vector<Case> v;
    if (prop == "C13") for (int f = 0; f < 2; f++) for (int k = 0; k < 8; k++) for (int q = 0; q < 2; q++) for (int n = 1; n <= (T ? 6 : 4); n++) for (int i = 0; i < (T ? 60 : 12); i++) {
        Case c; c.format = f; c.kind = k; c.quad = q; c.n = n; c.nx = 2 + (i + k) % 3 + (n > 2 ? 2 : 0); c.ny = 1 + (i + q) % 2 + (k >= KSQ ? 2 : 0); c.nz = 1 + (n + k) % 2; c.dist = (i * 5 + k + n) % 12; c.variant = (i + n) % 4; c.limit = i % 3 == 0 ? 0 : 1 + (i + k) % n; static const int st[] = { 0, 64, 100, 1000, 4096, 37 }; c.stripe = st[(i + k + q) % 6]; c.coll = (i + n) % 4 == 1; c.decomp = (i / 2 + k) % 2; c.nodes = i == 0 ? 127 : (i * 37 + k * 11 + n * 5) % 128; c.elems = i == 0 ? 63 : (i * 23 + k * 7 + n * 3 + 1) % 64; c.steps = 1 + (i + k) % 3; c.loadsteps = 1 + (i + q + n) % 2; c.freq = (i + n + q) % 7 == 6 ? 0 : 1 + (i + k + q) % 3; c.mfreq = (i + k) % 4; c.ftype = (i + n) % 5 == 2 ? 2 : 1; c.rdv = i % 5 == 0; v.push_back(c);
    }
    if (prop == "C14") for (int f = 0; f < 2; f++) for (int k : { 0, 5 }) for (int i = 0; i < 3; i++) { Case c; c.async = true; c.format = f; c.kind = k; c.nx = 2; c.ny = 1; c.nz = 1; c.variant = 3 * (i % 2); c.nodes = i == 2 ? 32 : 1 + i * 2; c.elems = i == 2 ? 32 : 2; c.ftype = i == 2 ? 2 : 1; c.steps = T ? 3 : 2; c.freq = 1 + (i + f) % 3; c.decomp = i % 2; c.mfreq = (i + 1) % 3; c.loadsteps = i == 1 ? 2 : 1; v.push_back(c); }
    return v;
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C13"; chk::Check ck(prop, argc, argv); ck.level = "model_checking";
    char tmpl[] = "/tmp/mc-out-XXXXXX"; scratch = mkdtemp(tmpl); auto v = cases(prop, ck.thorough()); int rc, bound = getenv("BOUND") ? atoi(getenv("BOUND")) : ck.thorough() ? 3 : 2;
    if (const char *d = getenv("TASK")) { mc::Stats st; printf("%s\n", runCase(prop, v.at(atol(d)), st, bound).c_str()); if (getenv("KEEP")) { printf("%s\n", scratch.c_str()); return 0; } rc = 0; }
    else if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runCase(prop, v.at(atol(l.c_str() + 5)), st, bound); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
    else {
        auto res = mc::parallel(v.size(), getenv("JOBS") ? atoi(getenv("JOBS")) : 8, [&](long k, mc::Stats &st) { return runCase(prop, v[k], st, bound); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
        for (auto &f : res.failures) ck.violation("task=" + S(f.first), f.second);
        ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
        for (auto &c : res.counters) if (c.first == "known_average_of_elements") ck.violation("average-of-elements", "monitored averages of element data are sums divided by the number of nodes of the region");
        if ((size_t)res.done < v.size()) ck.exhaustive = false;
        for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
        ck.assumptions = { "MPI semantics (including MPI I/O) as implemented by /verif/mcmpi" }; if (prop == "C14") { ck.num["preemption_bound"] = bound; ck.assumptions.push_back("threads switch in synchronization operations, in MPI calls and between updates of data only"); }
        rc = ck.finish();
    }
    if (scratch.compare(0, 12, "/tmp/mc-out-") == 0) { if (system(("rm -rf '" + scratch + "'").c_str())) {} }
    return rc;
}
