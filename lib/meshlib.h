// Reference meshes, driving of the real mesh code on a rank, and a full dump of the distributed mesh
// that the parent process compares with the reference.
#pragma once
#include "mcmpi.h"
#include "check.h"
#include "esinfo/eslog.hpp"
#include "esinfo/envinfo.h"
#include "esinfo/mpiinfo.h"
#include "esinfo/ecfinfo.h"
#include "esinfo/meshinfo.h"
#include "esinfo/systeminfo.h"
#include "wrappers/mpi/communication.h"
#include "basis/logging/logger.h"
#include "basis/logging/progresslogger.h"
#include "basis/logging/timelogger.h"
#include "basis/containers/serializededata.h"
#include "config/ecf/ecf.h"
#include "mesh/mesh.h"
#include "mesh/store/nodestore.h"
#include "mesh/store/elementstore.h"
#include "mesh/store/elementsregionstore.h"
#include "mesh/store/boundaryregionstore.h"
#include "mesh/store/domainstore.h"
#include "mesh/store/clusterstore.h"
#include "mesh/store/bodystore.h"
#include "mesh/store/surfacestore.h"
#include "input/meshbuilder.h"
#include "output/output.h"
#include <omp.h>
#include <array>
#include <cmath>
#include <functional>
#include <algorithm>
#include <numeric>
#include <tuple>

namespace ml {
using namespace espreso;
typedef std::array<double, 3> P3;
enum { POINT1, LINE2, TRIANGLE3, SQUARE4, TETRA4, PYRAMID5, PRISMA6, HEXA8, LINE3, TRIANGLE6, SQUARE8, TETRA10, PYRAMID13, PRISMA15, HEXA20, NCODES };
inline int edim(int c) { static const int d[] = { 0, 1, 2, 2, 3, 3, 3, 3, 1, 2, 2, 3, 3, 3, 3 }; return d[c]; }
inline int enn(int c) { static const int d[] = { 1, 2, 3, 4, 4, 5, 6, 8, 3, 6, 8, 10, 13, 15, 20 }; return d[c]; }
inline int ecn(int c) { static const int d[] = { 1, 2, 3, 4, 4, 5, 6, 8, 2, 3, 4, 4, 5, 6, 8 }; return d[c]; }
inline const char *ename(int c) { static const char *d[] = { "POINT1", "LINE2", "TRIANGLE3", "SQUARE4", "TETRA4", "PYRAMID5", "PRISMA6", "HEXA8", "LINE3", "TRIANGLE6", "SQUARE8", "TETRA10", "PYRAMID13", "PRISMA15", "HEXA20" }; return d[c]; }

struct El { int code; std::vector<int> n; int body = 0, material = 0; };
// faces (3D) / edges (2D) by corner nodes, independent of espreso's tables
inline std::vector<std::vector<int>> faces(const El &e) {
    auto P = [&](std::initializer_list<int> l) { std::vector<int> v; for (int i : l) v.push_back(e.n[i]); return v; };
    switch (e.code) {
    case TRIANGLE3: case TRIANGLE6: return { P({0,1}), P({1,2}), P({2,0}) };
    case SQUARE4: case SQUARE8: return { P({0,1}), P({1,2}), P({2,3}), P({3,0}) };
    case TETRA4: case TETRA10: return { P({0,1,2}), P({0,1,3}), P({1,2,3}), P({0,2,3}) };
    case PYRAMID5: case PYRAMID13: return { P({0,1,2,3}), P({0,1,4}), P({1,2,4}), P({2,3,4}), P({3,0,4}) };
    case PRISMA6: case PRISMA15: return { P({0,1,2}), P({3,4,5}), P({0,1,4,3}), P({1,2,5,4}), P({2,0,3,5}) };
    case HEXA8: case HEXA20: return { P({0,1,2,3}), P({4,5,6,7}), P({0,1,5,4}), P({1,2,6,5}), P({2,3,7,6}), P({3,0,4,7}) };
    }
    return {};
}

struct RMesh {
    int dim = 3;
    std::vector<P3> c;
    std::vector<El> e;                                       // all elements: volumes and boundary elements
    std::map<std::string, std::vector<int>> ereg;            // element indices (elements of one dimension)
    std::map<std::string, std::vector<int>> nreg;            // node indices
    std::string name;
    int node(const P3 &p) { for (size_t i = 0; i < c.size(); i++) if (c[i] == p) return i; c.push_back(p); return c.size() - 1; }
    int volumes() const { int k = 0; for (auto &x : e) k += edim(x.code) == dim; return k; }
};

// quadratic edges (corner index pairs) in VTK/EnSight order
inline std::vector<std::pair<int,int>> qedges(int linear) {
    switch (linear) {
    case LINE2: return { {0,1} };
    case TRIANGLE3: return { {0,1},{1,2},{2,0} };
    case SQUARE4: return { {0,1},{1,2},{2,3},{3,0} };
    case TETRA4: return { {0,1},{1,2},{2,0},{0,3},{1,3},{2,3} };
    case PYRAMID5: return { {0,1},{1,2},{2,3},{3,0},{0,4},{1,4},{2,4},{3,4} };
    case PRISMA6: return { {0,1},{1,2},{2,0},{3,4},{4,5},{5,3},{0,3},{1,4},{2,5} };
    case HEXA8: return { {0,1},{1,2},{2,3},{3,0},{4,5},{5,6},{6,7},{7,4},{0,4},{1,5},{2,6},{3,7} };
    }
    return {};
}
inline int quad(int c) { switch (c) { case LINE2: return LINE3; case TRIANGLE3: return TRIANGLE6; case SQUARE4: return SQUARE8; case TETRA4: return TETRA10; case PYRAMID5: return PYRAMID13; case PRISMA6: return PRISMA15; case HEXA8: return HEXA20; } return c; }
inline int linear(int c) { switch (c) { case LINE3: return LINE2; case TRIANGLE6: return TRIANGLE3; case SQUARE8: return SQUARE4; case TETRA10: return TETRA4; case PYRAMID13: return PYRAMID5; case PRISMA15: return PRISMA6; case HEXA20: return HEXA8; } return c; }

inline RMesh quadratic(const RMesh &m) {
    RMesh r = m; std::map<std::pair<int,int>, int> mid;
    for (auto &e : r.e) {
        for (auto &q : qedges(e.code)) { int a = e.n[q.first], b = e.n[q.second]; auto k = std::make_pair(std::min(a, b), std::max(a, b)); auto it = mid.find(k); int id; if (it == mid.end()) { P3 p; for (int d = 0; d < 3; d++) p[d] = (r.c[a][d] + r.c[b][d]) / 2; r.c.push_back(p); id = r.c.size() - 1; mid[k] = id; } else id = it->second; e.n.push_back(id); }
        e.code = quad(e.code);
    }
    r.name += "-quad"; return r;
}

// structured grid; kind: a code or -1 mixed. faces of x=0 / x=max / all as boundary elements
enum Kind { KHEXA, KTETRA, KPRISM, KPYR, KMIX, KSQ, KTRI, KMIX2 };
inline RMesh grid(int kind, int nx, int ny, int nz) {
    RMesh m; bool two = kind >= KSQ; m.dim = two ? 2 : 3; if (two) nz = 0;
    const char *kn[] = { "hexa", "tetra", "prism", "pyramid", "mixed", "square", "triangle", "mixed2d" };
    m.name = std::string(kn[kind]) + "-" + std::to_string(nx) + "x" + std::to_string(ny) + (two ? "" : "x" + std::to_string(nz));
    auto id = [&](int x, int y, int z) { return (z * (ny + 1) + y) * (nx + 1) + x; };
    for (int z = 0; z <= nz; z++) for (int y = 0; y <= ny; y++) for (int x = 0; x <= nx; x++) m.c.push_back({ x * 0.5, y * 0.5, z * 0.5 });
    auto add = [&](int c, std::vector<int> n) { El e; e.code = c; e.n = n; m.e.push_back(e); };
    if (two) {
        for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
            int a = id(x, y, 0), b = id(x + 1, y, 0), c = id(x + 1, y + 1, 0), d = id(x, y + 1, 0); int k = kind == KMIX2 ? ((x + y) % 2 ? KTRI : KSQ) : kind;
            if (k == KSQ) add(SQUARE4, { a, b, c, d }); else { add(TRIANGLE3, { a, b, c }); add(TRIANGLE3, { a, c, d }); }
        }
    } else for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
        int v[8] = { id(x, y, z), id(x + 1, y, z), id(x + 1, y + 1, z), id(x, y + 1, z), id(x, y, z + 1), id(x + 1, y, z + 1), id(x + 1, y + 1, z + 1), id(x, y + 1, z + 1) };
        int k = kind == KMIX ? (nz > 1 || ny > 1 ? (x % 2 ? KPYR : KHEXA) : (x % 3 == 0 ? KHEXA : x % 3 == 1 ? KPYR : KHEXA)) : kind;
        switch (k) {
        case KHEXA: add(HEXA8, { v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] }); break;
        case KPRISM: add(PRISMA6, { v[0], v[1], v[2], v[4], v[5], v[6] }); add(PRISMA6, { v[0], v[2], v[3], v[4], v[6], v[7] }); break;
        case KTETRA: { int t[6][4] = { {0,1,2,6},{0,2,3,6},{0,3,7,6},{0,7,4,6},{0,4,5,6},{0,5,1,6} }; for (auto &q : t) add(TETRA4, { v[q[0]], v[q[1]], v[q[2]], v[q[3]] }); break; }
        case KPYR: { int c = m.c.size(); m.c.push_back({ x * 0.5 + 0.25, y * 0.5 + 0.25, z * 0.5 + 0.25 }); int f[6][4] = { {0,1,2,3},{4,7,6,5},{0,4,5,1},{1,5,6,2},{2,6,7,3},{3,7,4,0} }; for (auto &q : f) add(PYRAMID5, { v[q[0]], v[q[1]], v[q[2]], v[q[3]], c }); break; }
        }
    }
    return m;
}
// append boundary elements lying on coordinate planes as region <name>; dir 0..2, at value v
inline void addBoundary(RMesh &m, const std::string &name, int dir, double v) {
    auto key = [](std::vector<int> f) { std::sort(f.begin(), f.end()); return f; };
    std::map<std::vector<int>, int> cnt; size_t ne = m.e.size(); std::set<std::vector<int>> have;
    for (size_t i = 0; i < ne; i++) if (edim(m.e[i].code) == m.dim) for (auto &f : faces(m.e[i])) cnt[key(f)]++;
    for (size_t i = 0; i < ne; i++) if (edim(m.e[i].code) == m.dim) for (auto &f : faces(m.e[i])) {
        if (cnt[key(f)] != 1) continue;
        bool on = true; for (int n : f) on &= m.c[n][dir] == v; if (!on) continue;
        El b; b.code = f.size() == 2 ? LINE2 : f.size() == 3 ? TRIANGLE3 : SQUARE4; b.n = f; m.ereg[name].push_back(m.e.size()); m.e.push_back(b);
    }
}
inline void addNodeRegion(RMesh &m, const std::string &name, std::function<bool(const P3&)> f) { for (size_t i = 0; i < m.c.size(); i++) if (f(m.c[i])) m.nreg[name].push_back(i); }
inline void addElemRegion(RMesh &m, const std::string &name, std::function<bool(int)> f) { for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) == m.dim && f(i)) m.ereg[name].push_back(i); }

// ---------------------------------------------------------------------------------------------- dump
struct Out { std::string s; template <typename T> void raw(const T &v) { s.append((const char*)&v, sizeof v); } void i(long v) { raw(v); } void d(double v) { raw(v); } void str(const std::string &v) { i(v.size()); s += v; } template <typename V> void vi(const V &v) { i(v.size()); for (auto x : v) i((long)x); } };
struct In { const std::string &s; size_t p = 0; In(const std::string &s) : s(s) {} template <typename T> T raw() { T v{}; if (p + sizeof(T) <= s.size()) memcpy(&v, s.data() + p, sizeof(T)); p += sizeof(T); return v; } long i() { return raw<long>(); } double d() { return raw<double>(); } std::string str() { long n = i(); if (n < 0 || p + n > s.size()) return ""; std::string r = s.substr(p, n); p += n; return r; } std::vector<long> vi() { long n = i(); std::vector<long> v; for (long k = 0; k < n && p < s.size(); k++) v.push_back(i()); return v; } bool ok() const { return p == s.size(); } };

struct DInfo { long offset, next, size, total; };
struct NInfo { long nhalo, offset, size, total; std::vector<long> pos; };
struct DNode { long id; P3 c; std::vector<long> ranks, domains; };
struct DElem { int code, body, material; long id; std::vector<long> n, nb; };
struct CodeInfo { long code, offset, size, total; };
struct DReg { std::string name; DInfo d; std::vector<CodeInfo> codes; std::vector<long> nodes; NInfo ni; std::vector<long> elems, bodies, bodyElems, bodyFaces; };
struct DBElem { int code; std::vector<long> n, member; };
struct DBReg : DReg { int dim, odim; std::vector<DBElem> be; };
struct Ival { long begin, end, domain, code, region; };
struct RankMesh {
    long dim; std::vector<DNode> nodes; NInfo uniq; std::vector<DElem> elems; DInfo ed; std::vector<CodeInfo> codes;
    std::vector<DReg> er; std::vector<DBReg> br; std::vector<long> neigh, neighMe; DInfo dom; std::vector<long> domElems, domCluster; std::vector<std::vector<long>> dual, ldual; DInfo clu; DInfo bodies; std::vector<Ival> ival; std::vector<long> ivalDist;
    bool hasNodeDomains;
};

template <typename S> inline void dumpList(Out &o, S *s) { if (!s) { o.i(-1); return; } o.i(s->structures()); for (auto it = s->begin(); it != s->end(); ++it) { o.i(it->size()); for (auto v : *it) o.i((long)v); } }

inline void dumpRegion(Out &o, const RegionStore &r) {
    o.str(r.name); auto &p = r.distribution.process; o.i(p.offset); o.i(p.next); o.i(p.size); o.i(p.totalSize);
    o.i(r.distribution.code.size()); for (size_t c = 0; c < r.distribution.code.size(); c++) { o.i(c); o.i(r.distribution.code[c].offset); o.i(r.distribution.code[c].size); o.i(r.distribution.code[c].totalSize); }
    if (r.nodes) { o.vi(r.nodes->datatarray()); } else o.i(0);
    o.i(r.nodeInfo.nhalo); o.i(r.nodeInfo.offset); o.i(r.nodeInfo.size); o.i(r.nodeInfo.totalSize); o.vi(r.nodeInfo.position);
}
inline std::string dump() {
    Out o; Mesh *m = info::mesh; o.i(m->dimension);
    o.i(m->nodes->size); auto rk = m->nodes->ranks->begin(); bool nd = m->nodes->domains != NULL; o.i(nd);
    for (esint n = 0; n < m->nodes->size; n++, ++rk) { o.i(m->nodes->IDs->datatarray()[n]); auto &p = m->nodes->coordinates->datatarray()[n]; o.d(p.x); o.d(p.y); o.d(p.z); o.i(rk->size()); for (auto r : *rk) o.i(r); if (nd) { auto d = m->nodes->domains->begin() + n; o.i(d->size()); for (auto r : *d) o.i(r); } }
    auto &u = m->nodes->uniqInfo; o.i(u.nhalo); o.i(u.offset); o.i(u.size); o.i(u.totalSize); o.vi(u.position);
    o.i(m->elements->epointers->datatarray().size()); size_t k = 0; auto nb = m->elements->faceNeighbors ? m->elements->faceNeighbors->begin() : m->elements->nodes->begin();
    for (auto e = m->elements->nodes->begin(); e != m->elements->nodes->end(); ++e, ++k, ++nb) {
        o.i((long)m->elements->epointers->datatarray()[k]->code); o.i(m->elements->body->datatarray()[k]); o.i(m->elements->material->datatarray()[k]); o.i(m->elements->IDs->datatarray()[k]);
        o.i(e->size()); for (auto n : *e) o.i(n); if (m->elements->faceNeighbors) { o.i(nb->size()); for (auto n : *nb) o.i(n); } else o.i(0);
    }
    auto di = [&](const DistributedDataInfo &p) { o.i(p.offset); o.i(p.next); o.i(p.size); o.i(p.totalSize); };
    di(m->elements->distribution.process); o.i(m->elements->distribution.code.size()); for (size_t c = 0; c < m->elements->distribution.code.size(); c++) { auto &x = m->elements->distribution.code[c]; o.i(c); o.i(x.offset); o.i(x.size); o.i(x.totalSize); }
    o.i(m->elementsRegions.size()); for (auto r : m->elementsRegions) { dumpRegion(o, *r); o.vi(r->elements->datatarray()); o.vi(r->bodies); o.vi(r->bodyElements); o.vi(r->bodyFaces); }
    o.i(m->boundaryRegions.size()); for (auto r : m->boundaryRegions) {
        dumpRegion(o, *r); o.i(r->dimension); o.i(r->originalDimension);
        if (r->elements && r->epointers) { o.i(r->epointers->datatarray().size()); size_t q = 0; for (auto e = r->elements->begin(); e != r->elements->end(); ++e, ++q) { o.i((long)r->epointers->datatarray()[q]->code); o.i(e->size()); for (auto n : *e) o.i(n); if (r->emembership) { auto em = r->emembership->begin() + q; o.i(em->size()); for (auto x : *em) o.i(x); } else o.i(0); } } else o.i(0);
    }
    o.vi(m->neighbors); o.vi(m->neighborsWithMe); di(*m->domains); o.vi(m->domains->elements); o.vi(m->domains->cluster); dumpList(o, m->domains->dual); dumpList(o, m->domains->localDual); di(*m->clusters); di(*m->bodies);
    o.i(m->elements->eintervals.size()); for (auto &v : m->elements->eintervals) { o.i(v.begin); o.i(v.end); o.i(v.domain); o.i(v.code); o.i(v.region); } o.vi(m->elements->eintervalsDistribution);
    return o.s;
}
inline DInfo rdi(In &i) { DInfo d; d.offset = i.i(); d.next = i.i(); d.size = i.i(); d.total = i.i(); return d; }
inline NInfo rni(In &i) { NInfo d; d.nhalo = i.i(); d.offset = i.i(); d.size = i.i(); d.total = i.i(); d.pos = i.vi(); return d; }
inline std::vector<CodeInfo> rci(In &i) { std::vector<CodeInfo> v; long n = i.i(); for (long k = 0; k < n; k++) { CodeInfo c; c.code = i.i(); c.offset = i.i(); c.size = i.i(); c.total = i.i(); v.push_back(c); } return v; }
inline void rreg(In &i, DReg &r) { r.name = i.str(); r.d = rdi(i); r.codes = rci(i); r.nodes = i.vi(); r.ni = rni(i); }
inline std::vector<std::vector<long>> rlist(In &i) { std::vector<std::vector<long>> v; long n = i.i(); for (long k = 0; k < n; k++) v.push_back(i.vi()); return v; }
inline RankMesh undump(const std::string &s, bool &ok) {
    In i(s); RankMesh m; m.dim = i.i(); long nn = i.i(); m.hasNodeDomains = i.i();
    for (long n = 0; n < nn; n++) { DNode d; d.id = i.i(); for (int k = 0; k < 3; k++) d.c[k] = i.d(); d.ranks = i.vi(); if (m.hasNodeDomains) d.domains = i.vi(); m.nodes.push_back(d); }
    m.uniq = rni(i); long ne = i.i(); for (long e = 0; e < ne; e++) { DElem d; d.code = i.i(); d.body = i.i(); d.material = i.i(); d.id = i.i(); d.n = i.vi(); d.nb = i.vi(); m.elems.push_back(d); }
    m.ed = rdi(i); m.codes = rci(i);
    long r = i.i(); for (long k = 0; k < r; k++) { DReg d; rreg(i, d); d.elems = i.vi(); d.bodies = i.vi(); d.bodyElems = i.vi(); d.bodyFaces = i.vi(); m.er.push_back(d); }
    r = i.i(); for (long k = 0; k < r; k++) { DBReg d; rreg(i, d); d.dim = i.i(); d.odim = i.i(); long q = i.i(); for (long e = 0; e < q; e++) { DBElem b; b.code = i.i(); b.n = i.vi(); b.member = i.vi(); d.be.push_back(b); } m.br.push_back(d); }
    m.neigh = i.vi(); m.neighMe = i.vi(); m.dom = rdi(i); m.domElems = i.vi(); m.domCluster = i.vi(); m.dual = rlist(i); m.ldual = rlist(i); m.clu = rdi(i); m.bodies = rdi(i);
    long q = i.i(); for (long k = 0; k < q; k++) { Ival v; v.begin = i.i(); v.end = i.i(); v.domain = i.i(); v.code = i.i(); v.region = i.i(); m.ival.push_back(v); } m.ivalDist = i.vi();
    ok = i.ok(); return m;
}

// ---------------------------------------------------------------------------------------------- running
inline void setupRank(const std::string &ecfpath, std::vector<std::string> extra = {}) {
    static std::vector<std::string> a; a = { "mc", "-c", ecfpath }; for (auto &x : extra) a.push_back(x);
    static std::vector<char*> av; av.clear(); for (auto &x : a) av.push_back((char*)x.c_str()); av.push_back(nullptr);
    int argc = a.size(); char **argv = av.data();
    info::env::set(); if (!getenv("MC_REALOMP")) omp_set_num_threads(1); info::mpi::init(&argc, &argv); MPITools::init();
    eslog::init(new Logger<TimeLogger, ProgressTerminalLogger, ProgressFileLogger>);
    eslog::startln("MESIO: STARTED", "MESIO");
    ECF::init(&argc, &argv, "mesio"); MPITools::setSubset(info::ecf->input.third_party_scalability_limit); eslog::initFiles();
    Mesh::init();
}
inline void finishRank() { Mesh::finish(); eslog::finish(); MPITools::finish(); ECF::finish(); info::mpi::finish(); }

// builder fed with an arbitrary distribution of the reference mesh
struct Dist { std::vector<int> nrank, erank; std::vector<int> nid, eid; bool dup = true; bool reverse = false; bool regionsAnywhere = false; };
struct RefBuilder : public MeshBuilder {
    const RMesh &m; const Dist &d;
    RefBuilder(const RMesh &m, const Dist &d) : m(m), d(d) {}
    void load() override {
        info::mesh->dimension = m.dim; removeDuplicates = d.dup; int me = info::mpi::rank;
        auto nid = [&](int i) { return d.nid.size() ? d.nid[i] : i; }; auto eid = [&](int i) { return d.eid.size() ? d.eid[i] : i; };
        for (size_t k = 0; k < m.c.size(); k++) { size_t i = d.reverse ? m.c.size() - 1 - k : k; if (d.nrank[i] == me) { nIDs.push_back(nid(i)); coordinates.push_back(Point(m.c[i][0], m.c[i][1], m.c[i][2])); } }
        for (size_t k = 0; k < m.e.size(); k++) { size_t i = d.reverse ? m.e.size() - 1 - k : k; if (d.erank[i] == me) { eIDs.push_back(eid(i)); esize.push_back(m.e[i].n.size()); etype.push_back(m.e[i].code); body.push_back(m.e[i].body); material.push_back(m.e[i].material); for (int n : m.e[i].n) enodes.push_back(nid(n)); } }
        for (auto &r : m.ereg) { auto &v = eregions[r.first]; for (int i : r.second) if ((d.regionsAnywhere ? (d.erank[i] + 1) % info::mpi::size : d.erank[i]) == me) v.push_back(eid(i)); std::sort(v.begin(), v.end()); }
        for (auto &r : m.nreg) { auto &v = nregions[r.first]; for (int i : r.second) if ((d.regionsAnywhere ? (d.nrank[i] + 1) % info::mpi::size : d.nrank[i]) == me) v.push_back(nid(i)); std::sort(v.begin(), v.end()); }
    }
};
}
