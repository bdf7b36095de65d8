// C04, C05, C06: the distributed mesh built from every enumerated distribution of every enumerated mesh
#include "meshverify.h"
#include <unistd.h>
using namespace ml;
using namespace espreso;

static std::string scratch;

struct Case {
    int fam = 0, kind = 0, nx = 3, ny = 2, nz = 2; bool quad = false; int bodies = 1; int variant = 0;   // variant of regions
    int n = 1, dist = 0; unsigned ebits = 0, nbits = 0; std::string dec = "NONE", opts; int domains = 2; int limit = -1; bool rdv = false, feti = false; int dup = 0, ids = 0, threads = 1;
    std::string show() const {
        static const char *kn[] = { "hexa", "tetra", "prism", "pyramid", "mixed", "square", "triangle", "mixed2d" };
        std::string s = std::string(kn[kind]) + " " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + (quad ? " quadratic" : "") + ", bodies " + std::to_string(bodies) + ", regions " + std::to_string(variant) + ", ranks " + std::to_string(n) + ", distribution " + std::to_string(dist) + ", ids " + std::to_string(ids) + ", duplicates " + std::to_string(dup) + ", decomposer " + dec + ", domains " + std::to_string(domains) + " " + opts + (rdv ? " unbuffered" : "") + (feti ? " feti" : "");
        if (dist == 100) s += " ebits " + std::to_string(ebits) + " nbits " + std::to_string(nbits);
        if (threads > 1) s += " threads " + std::to_string(threads);
        if (limit >= 0) s += " limit " + std::to_string(limit);
        return s;
    }
};

static RMesh merge(const RMesh &a, const RMesh &b, double dx, double dy, double dz) {
    RMesh r = a; std::map<int, int> map;
    for (size_t i = 0; i < b.c.size(); i++) { P3 p = { b.c[i][0] + dx, b.c[i][1] + dy, b.c[i][2] + dz }; map[i] = r.node(p); }
    for (auto e : b.e) { for (auto &n : e.n) n = map[n]; r.e.push_back(e); }
    return r;
}
static void regions(RMesh &m, int variant) {
    double mx = 0; for (auto &p : m.c) mx = std::max(mx, p[0]);
    if (variant == 3) return;                                                                   // no region at all
    addBoundary(m, "X0", 0, 0); addBoundary(m, "Y0", 1, 0); addBoundary(m, "XMAX", 0, mx);
    addNodeRegion(m, "NX", [](const P3 &p) { return p[0] == 0.5; }); addNodeRegion(m, "CORNER", [](const P3 &p) { return p[0] == 0 && p[1] == 0 && p[2] == 0; });
    addElemRegion(m, "EVEN", [](int i) { return i % 2 == 0; });
    if (variant >= 1) { // everything is covered, and overlaps
        addElemRegion(m, "ODD", [](int i) { return i % 2 == 1; }); addElemRegion(m, "FIRST", [](int i) { return i < 3; }); addElemRegion(m, "SINGLE", [](int i) { return i == 1; });
        auto both = m.ereg["X0"]; both.insert(both.end(), m.ereg["Y0"].begin(), m.ereg["Y0"].end()); m.ereg["XY"] = both;
    }
    if (variant == 2) for (int k = 0; k < 40; k++) { addNodeRegion(m, "N" + std::to_string(k), [&](const P3 &p) { return ((int)(p[0] * 4 + 1) * 7 + (int)(p[1] * 4) * 5 + (int)(p[2] * 4) * 3 + k) % 5 == 0; }); addElemRegion(m, "E" + std::to_string(k), [&](int i) { return (i + k) % 3 == 0 || i == 0; }); }
}
static RMesh mesh(const Case &c) {
    RMesh m = grid(c.kind, c.nx, c.ny, c.nz), b = m;
    double lx = c.nx * 0.5, ly = c.ny * 0.5;
    if (c.bodies == 2) m = merge(m, b, lx + 1, 0, 0);                       // separated
    if (c.bodies == 3) { m = merge(m, b, lx, ly, 0); m = merge(m, b, 2 * lx + 1, 0, 0); }      // two touch along an edge (2D: in a point)
    if (c.bodies == 4) m = merge(m, b, lx, 0, 0);                           // connected: still a single body
    if (c.bodies == 5) { RMesh one = grid(c.kind == KMIX ? KHEXA : c.kind == KMIX2 ? KSQ : c.kind, 1, 1, 1); { RMesh t; t.dim = one.dim; El e = one.e[0]; for (auto &q : e.n) q = t.node(one.c[q]); t.e.push_back(e); one = t; } for (int i = 0; i < 5; i++) m = merge(i % 2 ? one : m, i % 2 ? m : one, i % 2 ? lx * (i == 1 ? 2 : 0) + 3 + 2 * i : lx + 50 + 2 * i, 0, 0); } // isolated elements, before and after the main part
    return m;
}
// quadratic boundary faces: created before the midpoints are added
static RMesh build(const Case &c) {
    Case l = c; l.quad = false; RMesh m = mesh(l); RMesh base = m; size_t ne = m.e.size(); (void)ne; regions(m, c.variant); if (c.opts.find("MATERIALS") != std::string::npos || (!c.feti && c.variant == 1)) for (size_t i = 0; i < m.e.size(); i++) m.e[i].material = (i / 3) % 2; if (c.quad) m = quadratic(m); return m;
}

// C04: the same mesh with repeated nodes and elements. mode bits: 1 every element has its own copies of nodes, 2 copies are moved within the tolerance, 4 elements are repeated, 8 boundary elements are repeated
static RMesh explode(const RMesh &m, int mode, double tol) {
    RMesh r; r.dim = m.dim; std::vector<std::vector<int>> copies(m.c.size());
    auto copy = [&](int n, int k) { P3 p = m.c[n]; if (mode & 2) { static const double s[] = { 0, 0.3, -0.3, 0.15, -0.2 }; p[0] += s[k % 5] * tol; p[1] += s[(k + 2) % 5] * tol; if (m.dim == 3) p[2] += s[(k + 3) % 5] * tol; } r.c.push_back(p); copies[n].push_back(r.c.size() - 1); return (int)r.c.size() - 1; };
    if (!(mode & 1)) for (size_t i = 0; i < m.c.size(); i++) copy(i, 0);
    std::vector<int> first(m.e.size()); std::vector<std::vector<int>> all(m.e.size());
    for (size_t i = 0; i < m.e.size(); i++) {
        El e = m.e[i]; if (mode & 1) for (auto &n : e.n) n = (copies[n].size() < 6 || (i % 2)) ? copy(n, copies[n].size()) : copies[n].back(); else for (auto &n : e.n) n = copies[n][0];
        all[i].push_back(r.e.size()); r.e.push_back(e);
        bool vol = edim(e.code) == m.dim; if ((vol && (mode & 4) && i % 3 == 0) || (!vol && (mode & 8) && i % 2 == 0)) { if (mode & 1) for (auto &n : e.n) { int o = 0; for (size_t q = 0; q < m.c.size(); q++) if (std::find(copies[q].begin(), copies[q].end(), n) != copies[q].end()) o = q; n = copy(o, copies[o].size()); } all[i].push_back(r.e.size()); r.e.push_back(e); if ((mode & 16) && i % 2 == 0) { all[i].push_back(r.e.size()); r.e.push_back(e); } }
    }
    for (size_t i = 0; i < m.c.size(); i++) if (copies[i].empty()) copy(i, 0);
    for (auto &q : m.ereg) for (size_t k = 0; k < q.second.size(); k++) { auto &a = all[q.second[k]]; r.ereg[q.first].push_back(a[k % a.size()]); if (k % 4 == 3) for (int x : a) r.ereg[q.first].push_back(x); }
    for (auto &q : r.ereg) { std::sort(q.second.begin(), q.second.end()); q.second.erase(std::unique(q.second.begin(), q.second.end()), q.second.end()); }
    for (auto &q : m.nreg) for (size_t k = 0; k < q.second.size(); k++) { auto &a = copies[q.second[k]]; r.nreg[q.first].push_back(a[k % a.size()]); if (k % 3 == 2) for (int x : a) r.nreg[q.first].push_back(x); }
    for (auto &q : r.nreg) { std::sort(q.second.begin(), q.second.end()); q.second.erase(std::unique(q.second.begin(), q.second.end()), q.second.end()); }
    return r;
}

static Dist dist(const Case &c, const RMesh &m) {
    Dist d; int n = c.n; size_t N = m.c.size(), E = m.e.size(); unsigned h = 12345; auto rnd = [&] { h = h * 1103515245u + 12345u; return (h >> 16) & 0x7fff; };
    for (size_t i = 0; i < N; i++) { int r; switch (c.dist) { case 0: r = i * n / N; break; case 1: r = 0; break; case 2: r = n - 1; break; case 3: r = i % n; break; case 4: r = n - 1 - (int)(i * n / N); break; case 5: r = 0; break; case 6: case 7: case 8: r = rnd() % n; break; case 100: r = (c.nbits >> i & 1) % n; break; default: r = (i / 2) % n; } d.nrank.push_back(r); }
    for (size_t i = 0; i < E; i++) { int r; switch (c.dist) { case 0: r = i * n / E; break; case 1: r = 0; break; case 2: r = n - 1; break; case 3: r = i % n; break; case 4: r = i * n / E; break; case 5: r = n - 1; break; case 6: case 7: case 8: r = rnd() % n; break; case 100: r = edim(m.e[i].code) == m.dim ? (c.ebits >> (i % 16) & 1) % n : (i + c.ebits) % n; break; default: r = (i / 3) % n; } d.erank.push_back(r); }
    d.regionsAnywhere = c.dist == 7; d.reverse = c.dist == 8;
    if (c.ids) { d.nid.resize(N); d.eid.resize(E); for (size_t i = 0; i < N; i++) switch (c.ids) { case 1: d.nid[i] = 3 * i + 7; break; case 2: d.nid[i] = N - 1 - i; break; case 3: d.nid[i] = i * 2 + (i > N / 2 ? 1000 : 0); break; } for (size_t i = 0; i < E; i++) switch (c.ids) { case 1: d.eid[i] = 2 * i + 5; break; case 2: d.eid[i] = E - 1 - i; break; case 3: d.eid[i] = i + (i > E / 2 ? 500 : 0); break; } }
    return d;
}

static std::vector<RankMesh> collect(const mc::Exec &e, bool snap, std::string &err) {
    std::vector<RankMesh> R; for (auto &s : e.report) { bool ok; R.push_back(undump(s, ok)); if (!ok) err = "harness: broken dump"; }
    if (snap) for (auto &m : R) for (auto &d : m.nodes) for (auto &x : d.c) { double y = std::round(x * 8) / 8; if (std::fabs(x - y) < 1e-4) x = y; }
    return R;
}

static std::string runCase(const std::string &prop, const Case &c, mc::Stats &st) {
    RMesh m = build(c); Expect x = expect(m); x.materials = !c.feti && !c.dup; double tol = 1e-8; if (c.opts.find("DUPLICATION_TOLERANCE 1e-5") != std::string::npos) tol = 1e-5;
    RMesh in = c.dup ? explode(m, c.dup, tol) : m; Dist d = dist(c, in); d.dup = c.dup || prop != "C05" || c.variant % 2 == 0;
    std::string dir = scratch + "/" + std::to_string(getpid()), ecf = dir + "/e.ecf"; mkdir(dir.c_str(), 0755);
    { std::ofstream f(ecf); f << "INPUT { FORMAT ENSIGHT; PATH x; " << (c.feti ? "" : "CONVERT_DATABASE TRUE; ") << (c.limit >= 0 ? "THIRD_PARTY_SCALABILITY_LIMIT " + std::to_string(c.limit) + "; " : "") << (c.opts.find("DUPLICATION") == 0 ? c.opts : "") << " DECOMPOSITION { PARALLEL_DECOMPOSER " << c.dec << "; DOMAINS " << c.domains << "; " << (c.opts.find("DUPLICATION") == 0 ? "" : c.opts) << " } } OUTPUT { PATH results; LOG_DIR " << dir << "/results; } PHYSICS HEAT_TRANSFER; " << (c.feti ? "HEAT_TRANSFER { LOAD_STEPS 1; MATERIALS { 1 { THERMAL_CONDUCTIVITY { MODEL ISOTROPIC; KXX 1; } } } MATERIAL_SET { ALL_ELEMENTS 1; } LOAD_STEPS_SETTINGS { 1 { SOLVER FETI; } } }" : ""); }
    mc::Opt o; o.n = c.n; o.rendezvous = c.rdv; o.out = dir + "/out.txt"; o.leftover = true; o.cpulimit = 60;
    auto e = mc::run(o, {}, [&](int) { if (chdir(dir.c_str())) {} setenv("OMP_NUM_THREADS", std::to_string(c.threads).c_str(), 1); setupRank(ecf); RefBuilder b(in, d); b.load(); b.build(); info::mesh->preprocess(); mc::report(dump()); finishRank(); }, st);
    if (e.bad()) {
        std::ifstream f(o.out); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
        // a mesh that is too small (with respect to the number of its boundary elements) for the number of processes is rejected
        int few = c.dup & 16 ? 16 : c.dup & 12 ? 9 : c.bodies == 5 ? 6 : 4; bool rejected = t.find(std::string("quit computation: process") + " without any elements") != std::string::npos || t.find(std::string("PARMETIS") + " ERROR part is NULL") != std::string::npos || (c.bodies != 5 && t.find(std::string("PARMETIS") + "_ERROR while partitiate") != std::string::npos);
        if (rejected && m.volumes() < few * c.n) { mc::counter("rejected_too_few_elements", 1); return ""; }
        std::string tail; for (size_t p = t.find("ERROR"); p != std::string::npos && tail.size() < 600; p = t.find("ERROR", p + 1)) tail += t.substr(p, t.find('\n', p) - p) + "\n";
        return c.show() + "\n" + e.msg + "\n" + tail + t.substr(t.size() > (getenv("MC_BT") ? 6000u : 600u) ? t.size() - (getenv("MC_BT") ? 6000u : 600u) : 0);
    }
    std::string err; auto R = collect(e, c.dup & 2, err); if (err.size()) return c.show() + "\n" + err;
    Opts op; op.bodies = op.domains = prop == "C06"; op.feti = c.feti; if (prop == "C06") { op.separateRegions = c.opts.find("SEPARATE_REGIONS") != std::string::npos; op.separateMaterials = c.opts.find("SEPARATE_MATERIALS") != std::string::npos; op.continuous = c.opts.find("FORCE_CONTINUITY") != std::string::npos && c.n > 1 && c.dec != "NONE" && (c.bodies == 1 || c.bodies == 4); } op.unusedNodes = c.dup & 4; std::string f = verify(x, R, op);
    mc::counter("cases", 1); mc::counter("elements_checked", m.e.size());
    return f.size() ? c.show() + "\n" + f : "";
}

static std::vector<Case> cases(const std::string &prop, bool T) {
    std::vector<Case> v; const char *decs[] = { "NONE", "PARMETIS", "METIS", "HILBERT_CURVE" };
    if (prop == "C05") {
        for (unsigned eb = 0; eb < 16; eb++) for (unsigned nb = 0; nb < (T ? 512u : 32u); nb++) { Case c; c.kind = KSQ; c.nx = c.ny = 2; c.nz = 1; c.n = 2; c.dist = 100; c.ebits = eb; c.nbits = T ? nb : (nb | nb << 5 ^ nb << 3); c.variant = nb % 2; v.push_back(c); }
        for (int k = 0; k < 8; k++) for (int q = 0; q < 2; q++) for (int n = 1; n <= (T ? 8 : 5); n++) for (int ds = 0; ds < 10; ds++) for (int de = 0; de < 4; de++) {
            if (!T && (k * 7 + q * 3 + n + ds + de) % 2) continue; if (n == 1 && (de || (ds && ds != 8))) continue;
            Case c; c.kind = k; c.quad = q; c.n = n; c.dist = ds; c.dec = decs[de]; c.nx = 3; c.ny = k >= KSQ ? 4 : 2; if (n > 4) c.nx = 5; c.variant = (k + ds + n) % 4; c.ids = (ds + de + k) % 4; c.bodies = 1 + (ds + n) % 5; c.rdv = (ds + de) % 3 == 0; if ((k + n + ds) % 7 == 0) c.limit = 1 + (k + n) % 3; v.push_back(c);
        }
    }
    if (prop == "C04") for (int k = 0; k < 8; k++) for (int mode = 1; mode < 32; mode++) for (int n = 1; n <= (T ? 7 : 5); n++) for (int ds = 0; ds < 9; ds++) {
        if ((mode & 2) && !(mode & 1)) continue; if ((mode & 16) && !(mode & 12)) continue; if (!T && (k + mode * 3 + n + ds) % 3) continue; if (n == 1 && ds && ds != 8) continue;
        Case c; c.kind = k; c.quad = (k + mode + ds) % 5 == 0; c.n = n; c.dist = ds; c.dup = mode; c.nx = n > 4 ? 4 : 2; c.ny = k >= KSQ ? 4 : 2; c.variant = (mode + ds) % 3; c.ids = (ds + mode + k) % 4; c.bodies = 1 + (ds + mode) % 4; if ((mode & 2) && (k + ds) % 2) c.opts = "DUPLICATION_TOLERANCE 1e-5;"; c.rdv = n == 3; v.push_back(c);
    }
    if (prop == "C06") for (int k = 0; k < 8; k++) for (int n = 1; n <= (T ? 7 : 5); n++) for (int bd = 1; bd <= 5; bd++) for (int dm = 1; dm <= 5; dm++) for (int de = 0; de < 4; de++) {
        if (n == 1 && de) continue; if (!T && (k + n + bd + dm + de) % 3) continue;
        static const char *opts[] = { "", "FORCE_CONTINUITY TRUE;", "SEPARATE_REGIONS TRUE;", "SEPARATE_ETYPES TRUE;", "METIS_OPTIONS { CONTIG 1; }", "SEQUENTIAL_DECOMPOSER NONE;", "SEPARATE_MATERIALS TRUE;", "PARMETIS_OPTIONS { REFINEMENT TRUE; }" };
        Case c; c.kind = k; c.n = n; c.bodies = bd; c.domains = dm; c.dec = decs[de]; c.dist = (k + n + dm) % 10; c.nx = n > 3 ? 6 : 4; c.ny = k >= KSQ ? 4 : 2; c.nz = 2; c.variant = (k + bd) % 2; c.feti = (k + n + dm) % 2; c.opts = opts[(k + n + bd * 3 + dm + de * 2) % 8]; c.quad = (k + n + bd + dm) % 6 == 0; v.push_back(c);
    }
    for (size_t i = 0; i < v.size(); i++) v[i].threads = 1 + (i / 2) % 3;
    return v;
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C05"; chk::Check ck(prop, argc, argv); ck.level = "model_checking";
    char tmpl[] = "/tmp/mc-mesh-XXXXXX"; scratch = mkdtemp(tmpl);
    auto v = cases(prop, ck.thorough()); int rc;
    if (const char *d = getenv("CASE")) { // debugging: CASE="kind=0 n=2 ..."
        Case c; std::stringstream ss(d); std::string t; while (ss >> t) { std::string k = t.substr(0, t.find('=')), w = t.substr(t.find('=') + 1); int i = atoi(w.c_str());
            if (k == "kind") c.kind = i; if (k == "nx") c.nx = i; if (k == "ny") c.ny = i; if (k == "nz") c.nz = i; if (k == "quad") c.quad = i; if (k == "bodies") c.bodies = i; if (k == "variant") c.variant = i; if (k == "n") c.n = i; if (k == "dist") c.dist = i; if (k == "eb") c.ebits = i; if (k == "nb") c.nbits = i; if (k == "dec") c.dec = w; if (k == "domains") c.domains = i; if (k == "dup") c.dup = i; if (k == "ids") c.ids = i; if (k == "threads") c.threads = i; if (k == "feti") c.feti = i; if (k == "opt") { c.opts = w; std::replace(c.opts.begin(), c.opts.end(), '_', '_'); std::replace(c.opts.begin(), c.opts.end(), '~', ' '); } }
        mc::Stats st; printf("%s\n", runCase(prop, c, st).c_str()); rc = 0;
    } else if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runCase(prop, v.at(atol(l.c_str() + 5)), st); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
    else {
        auto res = mc::parallel(v.size(), 8, [&](long k, mc::Stats &st) { return runCase(prop, v[k], st); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
        for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), f.second);
        ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
        if ((size_t)res.done < v.size()) ck.exhaustive = false;
        for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
        ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi", "the enumerated space is the product of the listed meshes, distributions and decomposers (bounded sizes)" };
        rc = ck.finish();
    }
    std::string cmd = "rm -rf '" + scratch + "'"; if (scratch.compare(0, 13, "/tmp/mc-mesh-") == 0) { if (system(cmd.c_str())) {} }
    return rc;
}
