// C12: the mesh generator gives the configured grid, whatever is its split to blocks, clusters, and domains
#include "meshverify.h"
#include <unistd.h>
#include <cstdarg>
using namespace ml;
using namespace espreso;

static std::string scratch;
static const int TYPES[] = { HEXA8, TETRA4, PRISMA6, PYRAMID5, HEXA20, TETRA10, PRISMA15, PYRAMID13, SQUARE4, TRIANGLE3, SQUARE8, TRIANGLE6 };
static std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

struct Grid { int B[3] = { 1, 1, 1 }, C[3] = { 1, 1, 1 }, D[3] = { 1, 1, 1 }, E[3] = { 1, 1, 1 }, S[3] = { 0, 0, 0 }; unsigned holes = 0; int n(int d) const { return B[d] * C[d] * D[d] * E[d]; } int size() const { return B[0] * C[0] * B[1] * C[1] * B[2] * C[2]; } int ranks() const { int k = 0; for (int i = 0; i < size(); i++) k += !(holes >> i & 1); return k; } };
struct Reg { char kind; int lo[3], hi[3]; bool xl[3] = { 0, 0, 0 }, xh[3] = { 0, 0, 0 }; int color = 0; };   // kind n(odes) e(dges) f(aces) v(olumes) c(hessboard); in lattice units (2 per element)
struct Case {
    int shape = 0, type = 0, dir = 2, proj = 0, h = 0, chess = 2; bool uc = true, ud = true, glued = true; std::vector<Grid> g; std::vector<std::pair<int, Reg>> r; long seed = 0; int rdv = 0;
    int ranks() const { int k = 0; for (auto &q : g) k += q.ranks(); return k; }
    std::string show() const { static const char *sh[] = { "grid", "set of grids", "tower" }; std::string s = fmt("%s of %s, uniform clusters %d domains %d, projection %d, h %d", sh[shape], ename(TYPES[type]), uc, ud, proj, h); if (shape == 2) s += fmt(", direction %d %s", dir, glued ? "glued" : "free"); for (auto &q : g) s += fmt("; blocks %dx%dx%d clusters %dx%dx%d domains %dx%dx%d elements %dx%dx%d start %d,%d,%d holes %x", q.B[0], q.B[1], q.B[2], q.C[0], q.C[1], q.C[2], q.D[0], q.D[1], q.D[2], q.E[0], q.E[1], q.E[2], q.S[0], q.S[1], q.S[2], q.holes); return s + fmt("; %zu regions", r.size()); }
};
static const double H[][3] = { { .5, .5, .5 }, { .25, .5, 1 }, { .1, .3, .2 }, { .3333333, 1, .7 }, { 40, 100, 60 } };
static bool two(const Case &c) { return TYPES[c.type] == SQUARE4 || TYPES[c.type] == TRIANGLE3 || TYPES[c.type] == SQUARE8 || TYPES[c.type] == TRIANGLE6; }
static bool isquad(const Case &c) { return linear(TYPES[c.type]) != TYPES[c.type]; }
static P3 project(const Case &c, P3 p) { if (c.proj == 1) return { p[0] + .25 * p[1], p[1], p[2] }; if (c.proj == 2) return { 2 * p[0], p[1] * (two(c) ? 1 : 1) + .5 * p[0], two(c) ? p[2] : p[2] - .125 * p[1] }; return p; }
static P3 unproject(const Case &c, P3 p) { if (c.proj == 1) return { p[0] - .25 * p[1], p[1], p[2] }; if (c.proj == 2) { double x = p[0] / 2, y = p[1] - .5 * x; return { x, y, two(c) ? p[2] : p[2] + .125 * y }; } return p; }

typedef std::array<int, 3> I3;
struct Cells { std::map<I3, int> rank; std::map<I3, long> domain; std::vector<int> grid; };      // cell -> process and domain within the process
static const int GAP = 1000;   // nodes of glued grids are not shared: the grids are moved from each other before the comparison
static int total(const Case &c, int g, int d) { return c.g[g].n(d); }
static I3 origin(const Case &c, int g) { I3 o; for (int d = 0; d < 3; d++) o[d] = c.g[g].S[d]; if (c.shape == 2 && c.glued) for (int k = 0; k < g; k++) o[c.dir] += total(c, k, c.dir) + GAP; return o; }
static bool cells(const Case &c, Cells &x) {
    int rank = 0;
    for (size_t g = 0; g < c.g.size(); g++) {
        auto &q = c.g[g]; I3 o = origin(c, g); int id = 0; int NC[3], W[3]; for (int d = 0; d < 3; d++) { NC[d] = q.B[d] * q.C[d]; W[d] = q.D[d] * q.E[d]; }
        for (int z = 0; z < NC[2]; z++) for (int y = 0; y < NC[1]; y++) for (int xx = 0; xx < NC[0]; xx++, id++) {
            if (q.holes >> id & 1) continue; int cl[3] = { xx, y, z };
            for (int k = 0; k < W[2]; k++) for (int j = 0; j < W[1]; j++) for (int i = 0; i < W[0]; i++) { int l[3] = { i, j, k }; I3 p; for (int d = 0; d < 3; d++) p[d] = o[d] + cl[d] * W[d] + l[d]; if (!x.rank.insert({ p, rank }).second) return false; x.domain[p] = (l[2] / q.E[2] * q.D[1] + l[1] / q.E[1]) * q.D[0] + l[0] / q.E[0]; }
            rank++;
        }
    }
    return true;
}
static double vol(const P3 &a, const P3 &b, const P3 &c, const P3 &d) { double u[3], v[3], w[3]; for (int i = 0; i < 3; i++) { u[i] = b[i] - a[i]; v[i] = c[i] - a[i]; w[i] = d[i] - a[i]; } return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])) / 6; }
static double measure(int code, const std::vector<P3> &p) {
    auto T = [&](int a, int b, int c, int d) { return vol(p[a], p[b], p[c], p[d]); }; auto A = [&](int a, int b, int c) { return ((p[b][0] - p[a][0]) * (p[c][1] - p[a][1]) - (p[b][1] - p[a][1]) * (p[c][0] - p[a][0])) / 2; };
    switch (linear(code)) {
    case TETRA4: return T(0, 1, 2, 3);
    case PYRAMID5: return T(0, 1, 2, 4) + T(0, 2, 3, 4);
    case PRISMA6: return T(0, 1, 2, 3) + T(1, 4, 5, 3) + T(1, 5, 2, 3);
    case HEXA8: return T(0, 1, 3, 4) + T(1, 2, 3, 6) + T(1, 4, 5, 6) + T(3, 4, 6, 7) + T(1, 3, 4, 6);
    case TRIANGLE3: return A(0, 1, 2);
    case SQUARE4: return A(0, 1, 2) + A(0, 2, 3);
    } return 0;
}
static std::vector<EKey> faceKeys(const EKey &k) { // boundary faces (edges in 2D) with mid-side nodes
    std::vector<EKey> v; El e; e.code = k.first; for (int i = 0; i < enn(e.code); i++) e.n.push_back(i); bool q = linear(k.first) != k.first; auto qe = qedges(linear(k.first));
    for (auto f : faces(e)) { int cd = f.size() == 2 ? LINE2 : f.size() == 3 ? TRIANGLE3 : SQUARE4; EKey r; for (int i : f) r.second.push_back(k.second[i]); if (q) { cd = quad(cd); for (size_t i = 0; i < qe.size(); i++) if (std::count(f.begin(), f.end(), qe[i].first) && std::count(f.begin(), f.end(), qe[i].second)) r.second.push_back(k.second[ecn(k.first) + i]); } r.first = cd; v.push_back(sorted(r)); }
    return v;
}
static std::vector<EKey> edgeKeys(const EKey &k) { std::vector<EKey> v; bool q = linear(k.first) != k.first; auto qe = qedges(linear(k.first)); for (size_t i = 0; i < qe.size(); i++) { EKey r; r.first = q ? LINE3 : LINE2; r.second = { k.second[qe[i].first], k.second[qe[i].second] }; if (q) r.second.push_back(k.second[ecn(k.first) + i]); v.push_back(sorted(r)); } return v; }

static std::string num(double v) { return fmt("%.12g", v); }
static std::string config(const Case &c) {
    static const char *ax = "XYZ"; std::string s = "INPUT_TYPE GENERATOR; GENERATOR { UNIFORM_CLUSTERS " + std::string(c.uc ? "TRUE" : "FALSE") + "; UNIFORM_DOMAINS " + (c.ud ? "TRUE" : "FALSE") + "; ";
    auto grid = [&](size_t g) {
        auto &q = c.g[g]; std::string t = std::string("ELEMENT_TYPE ") + ename(TYPES[c.type]) + "; ";
        for (int d = 0; d < 3; d++) { double h = H[c.h][d]; bool flat = two(c) && d == 2; t += fmt("START_%c %s; LENGTH_%c %s; BLOCKS_%c %d; CLUSTERS_%c %d; DOMAINS_%c %d; ELEMENTS_%c %d; ", ax[d], num(q.S[d] * h).c_str(), ax[d], num(flat ? 1 : h * q.C[d] * q.D[d] * q.E[d]).c_str(), ax[d], q.B[d], ax[d], q.C[d], ax[d], q.D[d], ax[d], q.E[d]); }
        if (c.proj) { if (c.proj == 1) t += "PROJECTION_X X + 0.25 * Y; "; else t += std::string("PROJECTION_X 2 * X; PROJECTION_Y Y + 0.5 * X; ") + (two(c) ? "" : "PROJECTION_Z Z - 0.125 * Y; "); }
        t += fmt("CHESSBOARD_SIZE %d; ", c.chess);
        if (q.holes) { t += "BLOCKS { "; for (int i = 0; i < 32; i++) if (q.holes >> i & 1) t += std::to_string(i) + " FALSE; "; t += "} "; }
        for (int k = 0; k < 4; k++) {
            std::string b; for (size_t i = 0; i < c.r.size(); i++) { auto &r = c.r[i].second; if (c.r[i].first != (int)g || !strchr(k == 0 ? "n" : k == 1 ? "e" : k == 2 ? "f" : "vc", r.kind)) continue; b += "R" + std::to_string(i) + " "; if (r.kind == 'c') b += r.color ? "CHESSBOARD_BLACK" : "CHESSBOARD_WHITE"; else for (int d = 0; d < 3; d++) b += fmt("%s%s%s , %s%s", d ? " " : "", r.xl[d] ? "(" : "<", num(two(c) && d == 2 ? 0 : r.lo[d] * H[c.h][d] / 2).c_str(), num(two(c) && d == 2 ? 0 : r.hi[d] * H[c.h][d] / 2).c_str(), r.xh[d] ? ")" : ">"); b += "; "; }
            if (b.size()) t += std::string(k == 0 ? "NODES" : k == 1 ? "EDGES" : k == 2 ? "FACES" : "ELEMENTS") + " { " + b + "} ";
        }
        return t;
    };
    if (c.shape == 0) s += "SHAPE GRID; GRID { " + grid(0) + "} ";
    else { s += c.shape == 1 ? "SHAPE GRID_SET; GRID_SET { " : "SHAPE GRID_TOWER; GRID_TOWER { DIRECTION " + std::string(1, ax[c.dir]) + "; COMPOSITION " + (c.glued ? "GLUED" : "FREE") + "; "; s += "GRIDS { "; for (size_t g = 0; g < c.g.size(); g++) s += std::to_string(g) + " { " + grid(g) + "} "; s += "} } "; }
    return s + "} ";
}

static std::string runCase(Case c, mc::Stats &st) {
    Cells x; if (!cells(c, x)) return "harness: grids overlap";
    bool D2 = two(c); int quadr = isquad(c);
    // regions without members are not configured
    auto inside = [&](const Reg &r, const P3 &p) { for (int d = 0; d < (D2 ? 2 : 3); d++) if (p[d] < r.lo[d] || p[d] > r.hi[d] || (r.xl[d] && p[d] == r.lo[d]) || (r.xh[d] && p[d] == r.hi[d])) return false; return true; };
    std::string dir = scratch + "/" + std::to_string(getpid()), ecf = dir + "/e.ecf"; mkdir(dir.c_str(), 0755);
    { std::ofstream f(ecf); f << config(c) << "INPUT { CONVERT_DATABASE TRUE; DECOMPOSITION { PARALLEL_DECOMPOSER PARMETIS; DOMAINS 2; } } OUTPUT { PATH results; LOG_DIR " << dir << "/results; } PHYSICS " << (c.seed % 2 ? "STRUCTURAL_MECHANICS" : "HEAT_TRANSFER") << "; "; }
    mc::Opt o; o.n = c.ranks(); o.rendezvous = c.rdv; o.leftover = true; o.out = dir + "/out.txt"; o.cpulimit = 30;
    auto e = mc::run(o, {}, [&](int) { if (chdir(dir.c_str())) {} setenv("OMP_NUM_THREADS", "1", 1); setupRank(ecf); info::mesh->load(); info::mesh->preprocess(); mc::report(dump()); finishRank(); }, st);
    mc::counter("cases", 1);
    if (e.bad()) { std::ifstream f(o.out); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str(), tail; for (size_t p = t.find("ERROR"); p != std::string::npos && tail.size() < 600; p = t.find("ERROR", p + 1)) tail += t.substr(p, t.find("\n", p) - p) + "\n"; if (t.size()) tail += t.substr(t.size() > 3000 ? t.size() - 3000 : 0); return c.show() + "\n" + e.msg + "\n" + tail + "\n" + config(c); }
    std::vector<RankMesh> R; for (auto &s : e.report) { bool ok; R.push_back(undump(s, ok)); if (!ok) return "harness: broken dump"; }
    std::string f = [&]() -> std::string {
        std::set<I3> lattice;
        std::vector<int> gridOf; for (size_t g = 0; g < c.g.size(); g++) for (int k = 0; k < c.g[g].ranks(); k++) gridOf.push_back(g);
        for (auto &m : R) for (auto &d : m.nodes) { P3 p = unproject(c, d.c); for (int k = 0; k < 3; k++) { if (D2 && k == 2) { if (p[k] != 0) return fmt("node (%g,%g,%g) of a plane mesh is not in the plane", d.c[0], d.c[1], d.c[2]); continue; } double u = TYPES[c.type] == PYRAMID13 ? 2 : 1, v = p[k] / H[c.h][k] * 2, w = std::round(v * u) / u; if (std::fabs(v - w) > 1e-4) return fmt("node (%.9g,%.9g,%.9g) is not a node of the grid", d.c[0], d.c[1], d.c[2]); d.c[k] = w + 0.; if (c.shape == 2 && c.glued && k == c.dir) d.c[k] += 2 * GAP * gridOf[&m - R.data()]; } }
        Expect exp; exp.dim = D2 ? 2 : 3; std::map<I3, double> filled; std::map<I3, long> count; std::map<EKey, I3> cellOf; std::map<EKey, int> frank;
        for (size_t r = 0; r < R.size(); r++) {
            auto &m = R[r]; std::vector<long> dbegin(m.domElems.begin(), m.domElems.end()); std::map<long, std::set<long>> dd; size_t dom = 0;
            for (size_t i = 0; i < m.elems.size(); i++) {
                auto &el = m.elems[i]; if (el.code != TYPES[c.type]) return "element of a wrong type " + std::string(ename(el.code)); if ((int)el.n.size() != enn(el.code)) return "wrong number of nodes of an element"; for (long k : el.n) if (k < 0 || k >= (long)m.nodes.size()) return "node out of range";
                auto k = key(m, el.code, el.n); P3 a = k.second[0], b = a; for (int q = 0; q < ecn(el.code); q++) for (int d = 0; d < 3; d++) { a[d] = std::min(a[d], k.second[q][d]); b[d] = std::max(b[d], k.second[q][d]); }
                P3 cen = { 0, 0, 0 }; for (int q = 0; q < ecn(el.code); q++) for (int d = 0; d < 3; d++) cen[d] += k.second[q][d] / ecn(el.code);
                I3 cell; for (int d = 0; d < 3; d++) cell[d] = D2 && d == 2 ? 0 : (int)std::floor(cen[d] / 2); if (!x.rank.count(cell)) return "element outside of the grid: " + show(k);
                for (int d = 0; d < (D2 ? 2 : 3); d++) if (a[d] < 2 * cell[d] || b[d] > 2 * cell[d] + 2) return "element exceeds a cell of the grid: " + show(k);
                if (quadr) { auto qe = qedges(linear(el.code)); for (size_t q = 0; q < qe.size(); q++) for (int d = 0; d < 3; d++) if (std::fabs(2 * k.second[ecn(el.code) + q][d] - k.second[qe[q].first][d] - k.second[qe[q].second][d]) > 0.01) return "mid-side node is not in the middle: " + show(k); }
                double v = measure(el.code, k.second); if (!(v > 1e-9)) return fmt("element with measure %g: ", v) + show(k); filled[cell] += v; count[cell]++;
                exp.elems[k].push_back({ -1, -1 }); exp.material[k] = 0; for (auto &p : k.second) exp.nodes.insert(p); cellOf[k] = cell;
                if (c.uc && (int)r != x.rank[cell]) return fmt("element of cluster %d is on process %zu: ", x.rank[cell], r) + show(k);
                if (c.uc && c.ud) { while (dom + 1 < dbegin.size() && (long)i >= dbegin[dom + 1]) dom++; dd[dom].insert(x.domain[cell]); }
            }
            if (c.uc && c.ud) { std::set<long> used; for (auto &q : dd) { if (q.second.size() != 1) return fmt("a domain of process %zu has elements of %zu domains of the grid", r, q.second.size()); used.insert(*q.second.begin()); } if (used.size() != dd.size()) return fmt("one domain of the grid is divided on process %zu", r); }
        }
        std::set<long> cnts; for (auto &q : x.rank) { double v = filled.count(q.first) ? filled[q.first] : 0; if (std::fabs(v - (D2 ? 4 : 8)) > 1e-6) return fmt("cell (%d,%d,%d) is filled by elements of measure %g instead of %d", q.first[0], q.first[1], q.first[2], v, D2 ? 4 : 8); cnts.insert(count[q.first]); } if (cnts.size() != 1) return "cells are divided to different numbers of elements";
        // conforming: a side of an element is a side of one other element or it is on the border of the grid
        std::map<EKey, int> sides; std::map<EKey, EKey> owner; for (auto &q : exp.elems) for (auto &s : faceKeys(q.first)) { sides[s]++; owner.insert({ s, q.first }); }
        auto outer = [&](const EKey &s) { for (int d = 0; d < (D2 ? 2 : 3); d++) { bool plane = true; for (auto &p : s.second) plane &= p[d] == s.second[0][d]; if (!plane) continue; int v = (int)s.second[0][d]; if (v % 2) return false; I3 cell = cellOf[owner[s]], o = cell; o[d] = v == 2 * cell[d] ? cell[d] - 1 : cell[d] + 1; return !x.rank.count(o); } return false; };
        for (auto &s : sides) if (s.second > 2 || (s.second == 2) == outer(s.first)) return fmt("side shared by %d elements: ", s.second) + show(s.first);
        // regions
        for (size_t i = 0; i < c.r.size(); i++) {
            auto &r = c.r[i].second; std::string nm = "R" + std::to_string(i); const Grid &G = c.g[c.r[i].first]; I3 og = origin(c, c.r[i].first);
            auto layers = [&](const P3 &lo, int d) { int k = 0; for (double v = 0; v <= 2; v += TYPES[c.type] == PYRAMID13 ? .5 : quadr || TYPES[c.type] == PYRAMID5 ? 1 : 2) { double t = lo[d] + v; k += !(t < r.lo[d] || t > r.hi[d] || (r.xl[d] && t == r.lo[d]) || (r.xh[d] && t == r.hi[d])); } return k; };
            auto inCell = [&](const I3 &cell, int skip) { P3 lo = { 2. * cell[0], 2. * cell[1], 2. * cell[2] }; for (int d = 0; d < (D2 ? 2 : 3); d++) if (!(skip >> d & 1) && layers(lo, d) < 2) return false; return true; };
            int flat = 0; for (int d = 0; d < 3; d++) if (r.lo[d] == r.hi[d]) flat |= 1 << d;
            auto onPlane = [&](const EKey &s) { for (int d = 0; d < (D2 ? 2 : 3); d++) if (flat >> d & 1) for (auto &p : s.second) if (p[d] != r.lo[d]) return false; return true; };
            if (r.kind == 'n') { auto &q = exp.nreg[nm]; for (auto &p : exp.nodes) if (inside(r, p)) q.insert(p); }
            else if (r.kind == 'v') { auto &q = exp.ereg[nm]; for (auto &z : cellOf) if (inCell(z.second, 0)) q.insert(z.first); }
            else if (r.kind == 'c') { auto &q = exp.ereg[nm]; for (auto &z : cellOf) { int s = 0; for (int d = 0; d < (D2 ? 2 : 3); d++) s += (z.second[d] - og[d]) * c.chess / G.n(d); if (s % 2 == r.color) q.insert(z.first); } }
            else if (r.kind == 'f' || D2) { auto &q = exp.breg[nm]; for (auto &z : sides) if (onPlane(z.first) && inCell(cellOf[owner[z.first]], flat)) q.insert(z.first); }
            else { auto &q = exp.breg[nm]; for (auto &z : cellOf) for (auto &s : edgeKeys(z.first)) if (onPlane(s) && inCell(z.second, flat)) q.insert(s); }
        }
        mc::counter("elements", cellOf.size()); mc::counter("regions", c.r.size());
        exp.materials = true; Opts op; return verify(exp, R, op);
    }();
    return f.size() ? c.show() + "\n" + f + "\n" + config(c) : "";
}

static void regions(Case &c, int k) {
    bool D2 = two(c); bool holes = false; for (auto &g : c.g) holes |= g.holes; int gi = k % c.g.size(); I3 o = origin(c, gi); int lo[3], hi[3]; for (int d = 0; d < 3; d++) { lo[d] = 2 * o[d]; hi[d] = 2 * (o[d] + c.g[gi].n(d)); }
    if (D2) lo[2] = hi[2] = 0;
    if (c.shape) return;
    auto part = [&](Reg &r, int d, int m) { int n = c.g[gi].n(d); r.lo[d] = lo[d]; r.hi[d] = hi[d]; switch (m % 5) { case 1: r.hi[d] = lo[d] + 2 * ((n + 1) / 2); break; case 2: r.lo[d] = hi[d] - 2 * ((n + 1) / 2); break; case 3: r.lo[d] = lo[d] - 2; r.hi[d] = hi[d] + 3; break; case 4: if (n > 3) { r.lo[d] += 2; r.hi[d] -= 2; } break; } };
    auto add = [&](Reg r) { c.r.push_back({ gi, r }); };
    int S = D2 ? 2 : 3;
    for (int q = 0; q < 2; q++) { // sides
        int d = (k + q) % S; Reg r; r.kind = D2 ? 'e' : 'f'; for (int i = 0; i < 3; i++) if (i != d) { part(r, i, k + q + i); } if (D2) r.lo[2] = r.hi[2] = 0; r.lo[d] = r.hi[d] = (k + q) / S % 2 ? hi[d] : lo[d]; if (!holes) add(r);
        r.kind = 'n'; for (int i = 0; i < S; i++) if (i != d && c.g[gi].n(i) > 2) { r.xl[i] = (k + i) % 3 == 0; r.xh[i] = (k + i) % 4 == 1; } if (!holes) add(r);
    }
    if (!holes) { Reg r; r.kind = 'v'; for (int i = 0; i < 3; i++) part(r, i, k + i); if (D2) r.lo[2] = r.hi[2] = 0; add(r); }
    bool div = true; for (int d = 0; d < S; d++) div &= c.g[gi].n(d) % c.chess == 0; if (div) { Reg r; r.kind = 'c'; r.color = k % 2; Cells x; cells(c, x); bool any = false; for (auto &q : x.rank) { int s = 0; for (int d = 0; d < S; d++) s += (q.first[d] - o[d]) * c.chess / c.g[gi].n(d); any |= s % 2 == r.color; } if (any) add(r); }
}
static std::vector<Case> cases(bool T) {
    std::vector<Case> v; long seed = 0;
    auto push = [&](Case c) { for (auto &g : c.g) if (two(c)) { g.B[2] = g.C[2] = g.D[2] = g.E[2] = 1; g.S[2] = 0; } if (c.ranks() < 1 || c.ranks() > (T ? 12 : 8)) return; c.seed = seed++; c.rdv = c.seed % 2; regions(c, c.seed); v.push_back(c); };
    for (int type = 0; type < 12; type++) {
        bool D2 = type >= 8; int lim = T ? 12 : 8;
        // all splits to blocks and clusters
        for (int bz = 1; bz <= (D2 ? 1 : 2); bz++) for (int by = 1; by <= 2; by++) for (int bx = 1; bx <= 3; bx++) for (int cz = 1; cz <= (D2 ? 1 : 2); cz++) for (int cy = 1; cy <= 2; cy++) for (int cx = 1; cx <= 3; cx++) {
            if (bx * by * bz * cx * cy * cz > lim) continue; int k = bx + 3 * by + 5 * bz + 7 * cx + 11 * cy + 13 * cz + type; for (int q = 0; q < (T ? 4 : 1); q++, k++) {
                Case c; c.type = type; Grid g; int B[] = { bx, by, bz }, C[] = { cx, cy, cz }; for (int d = 0; d < 3; d++) { g.B[d] = B[d]; g.C[d] = C[d]; g.D[d] = 1 + (k >> d) % 2; g.E[d] = 1 + (k + d) % 3; g.S[d] = (k % 3 - 1) * (d + 1); } c.h = k % 5; c.proj = k / 2 % 3; c.uc = k % 4 != 3; c.ud = k % 3 != 2; if (!c.uc) { c.ud = false; for (int d = 0; d < 3; d++) g.E[d] += 1; } c.chess = 2 + k % 2; c.g = { g }; push(c);
            }
        }
        // blocks turned off: all subsets
        if (type % 4 < (T ? 4 : 2)) for (unsigned h = 1; h < 64; h++) { if (h == 63) continue; Case c; c.type = type; Grid g; g.B[0] = h % 2 ? 3 : 1; g.C[0] = h % 2 ? 1 : 3; g.B[1] = 2; for (int d = 0; d < 3; d++) { g.D[d] = 1 + (h + d) % 2; g.E[d] = 1 + (h >> d) % 2; } g.holes = h; c.h = h % 5; c.chess = 2; c.g = { g }; push(c); }
        // sets of separated grids and towers
        for (int n = 2; n <= 3; n++) for (int k = 0; k < (T ? 48 : 12); k++) {
            Case c; c.type = type; c.shape = 1; c.h = k % 5; int at = 0; for (int i = 0; i < n; i++) { Grid g; g.C[(k + i) % 2] = 1 + (k + i) % 3; for (int d = 0; d < 3; d++) { g.D[d] = 1 + (k >> d) % 2; g.E[d] = 1 + (k + d + i) % 2; } g.S[0] = at; at += g.n(0) + 1; g.S[1] = i; c.g.push_back(g); } push(c);
            Case t; t.type = type; t.shape = 2; t.h = k % 5; t.dir = k % (D2 ? 2 : 3); Grid g; for (int d = 0; d < 3; d++) { g.C[d] = 1 + (k >> d) % 2; g.D[d] = 1 + (k / 2 + d) % 2; g.E[d] = 1 + (k + d) % 2; } for (int i = 0; i < n; i++) { Grid q = g; q.C[t.dir] = 1; q.E[t.dir] = 1 + (k + i) % 3; t.g.push_back(q); } push(t);
        }
    }
    return v;
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C12"; chk::Check ck(prop, argc, argv); ck.level = "model_checking";
    char tmpl[] = "/tmp/mc-gen-XXXXXX"; scratch = mkdtemp(tmpl); auto v = cases(ck.thorough()); int rc;
    if (const char *d = getenv("TASK")) { mc::Stats st; Case c = v.at(atol(d)); if (const char *u = getenv("UC")) c.uc = atoi(u); printf("%s\n", runCase(c, st).c_str()); rc = 0; }
    else if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runCase(v.at(atol(l.c_str() + 5)), st); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
    else {
        auto res = mc::parallel(v.size(), getenv("JOBS") ? atoi(getenv("JOBS")) : 8, [&](long k, mc::Stats &st) { return runCase(v[k], st); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
        for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), f.second);
        ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
        if ((size_t)res.done < v.size()) ck.exhaustive = false;
        for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
        ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi", "METIS and ParMETIS as installed" };
        rc = ck.finish();
    }
    if (scratch.compare(0, 12, "/tmp/mc-gen-") == 0) { if (system(("rm -rf '" + scratch + "'").c_str())) {} }
    return rc;
}
