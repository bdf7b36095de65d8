// C07, C08, C09, C10: the computed solution is the finite-element solution, whatever solver, decomposition and process count
#include "feref.h"
#include "esinfo/stepinfo.h"
#include "analysis/analysis.h"
#include "basis/utilities/stacktimer.h"
#include "config/reader/reader.h"
#include "mcomp.h"
#include "check.h"
#include <unistd.h>
using namespace ml;
using namespace espreso;

static std::string scratch;
// multiplies every expression of loads by (1 + TIME)
static std::string variant(const std::string &s, int tv) {
    if (!tv) return s; std::string r, tok; size_t i = 0;
    // a value is what stands between the key and ';'
    while (i < s.size()) { size_t e = s.find(';', i); if (e == std::string::npos) { r += s.substr(i); break; } size_t b = s.find_last_of("{};", e - 1); b = b == std::string::npos || b < i ? i : b + 1; size_t k = b; while (s[k] == ' ') k++; while (s[k] != ' ') k++; r += s.substr(i, k - i) + " (" + s.substr(k + 1, e - k - 1) + ")*(1 + TIME);"; i = e + 1; }
    return r;
}
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

struct Case {
    int phys = 0, kind = 0, nx = 4, ny = 2, nz = 2; bool quad = false; int mat = 0, load = 0, skew = 0, behaviour = 0, thick = 0;
    int n = 1, dist = 0, threads = 1, domains = 2, bodies = 1, order = 0; std::string dec = "NONE", solver = "FETI", feti = "METHOD TOTAL_FETI;", extra; bool rdv = false; int nl = 0, an = 0, tm = 0, tv = 0, load2 = 0;   // an: 0 one load step, 1 T, 2 ST, 3 TT, 4 SS, 5 nonlinear; tm: time integration; tv: loads change in time
    std::string show() const {
        static const char *kn[] = { "hexa", "tetra", "prism", "pyramid", "mixed", "square", "triangle", "mixed2d" };
        return std::string(phys ? "elasticity " : "heat ") + kn[kind] + " " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + (quad ? " quadratic" : "") + " mat " + std::to_string(mat) + " load " + std::to_string(load) + " skew " + std::to_string(skew) + " behaviour " + std::to_string(behaviour) + " thickness " + std::to_string(thick) + " bodies " + std::to_string(bodies)
            + ", ranks " + std::to_string(n) + " dist " + std::to_string(dist) + " dec " + dec + " domains " + std::to_string(domains) + " threads " + std::to_string(threads) + (order ? " order " + std::to_string(order) : "") + " solver " + solver + " { " + (solver == "FETI" ? feti : "") + " } " + extra + (rdv ? " unbuffered" : "") + (nl ? " nonlinear solver" : "") + (an ? " analysis " + std::to_string(an) + " method " + std::to_string(tm) + " time variant " + std::to_string(tv) + " load2 " + std::to_string(load2) : "");
    }
};

static RMesh mesh(const Case &c) {
    RMesh m = grid(c.kind, c.nx, c.ny, c.nz); double mx = c.nx * 0.5;
    if (c.bodies == 2) { RMesh b = m; int o = m.c.size(); for (auto p : b.c) { p[1] += c.ny * 0.5 + 1; m.c.push_back(p); } for (auto e : b.e) { for (auto &q : e.n) q += o; m.e.push_back(e); } }
    int nvol = m.e.size();
    addBoundary(m, "X0", 0, 0); addBoundary(m, "Y0", 1, 0); addBoundary(m, "XMAX", 0, mx); addBoundary(m, "YMAX", 1, c.ny * 0.5); if (m.dim == 3) addBoundary(m, "Z0", 2, 0);
    for (auto &b : m.e) if (edim(b.code) < m.dim) { auto g = fe::points(m, b); if (fe::outward(m, b, g[0].normal) < 0) { if (b.code == LINE2) std::swap(b.n[0], b.n[1]); else if (b.code == TRIANGLE3) std::swap(b.n[1], b.n[2]); else std::swap(b.n[1], b.n[3]); } }
    addNodeRegion(m, "CORNER", [&](const P3 &p) { return p[0] == mx && p[1] == 0 && p[2] == 0; }); addNodeRegion(m, "NLINE", [&](const P3 &p) { return p[0] == 0.5 && p[1] == 0; });
    addElemRegion(m, "EVEN", [&](int i) { return i < nvol && i % 2 == 0; }); addElemRegion(m, "ODD", [&](int i) { return i < nvol && i % 2 == 1; });
    if (c.quad) m = quadratic(m);
    if (c.phys && c.behaviour == 1) for (auto &p : m.c) p[0] += 1; // radius
    if (c.skew) for (auto &p : m.c) { P3 q = p; p[0] = q[0] + 0.25 * q[1] + (m.dim == 3 ? 0.125 * q[2] : 0); p[1] = 0.75 * q[1]; if (m.dim == 3) p[2] = q[2] * 1.25 + 0.25 * q[0]; }   // affine, elements stay affine
    return m;
}

// Gauss order per direction (of the possibly collapsed square/cube) used by the assembler where its rule is not exact for everything below
static int gauss(int phys, int code) {
    switch (code) { case LINE2: case SQUARE4: case HEXA8: case TETRA4: case PYRAMID5: return 2; case TRIANGLE3: case PRISMA6: return phys ? 2 : 5; case HEXA20: return 3; case SQUARE8: case LINE3: return phys ? 5 : 3; }
    return 5;
}

// ---- heat
struct Heat {
    const Case &c; const RMesh &m; Heat(const Case &c, const RMesh &m) : c(c), m(m) {}
    // conductivity tensor at point of element index e
    void K(int e, const P3 &x, double k[3][3]) const {
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k[i][j] = 0;
        bool even = e % 2 == 0; auto diag = [&](double a, double b, double d) { k[0][0] = a; k[1][1] = b; k[2][2] = d; };
        switch (c.mat) {
        case 0: diag(2, 2, 2); break;
        case 1: even ? diag(1, 1, 1) : diag(10, 10, 10); break;
        case 2: diag(2, 5, 3); break;
        case 3: diag(4, 5, 6); k[0][1] = k[1][0] = 1; k[1][2] = k[2][1] = 0.5; k[0][2] = k[2][0] = -1; if (m.dim == 2) k[1][2] = k[2][1] = k[0][2] = k[2][0] = 0; break;
        case 4: { double v = 2 + x[0] + 0.5 * x[1]; diag(v, v, v); break; }
        case 5: { // rotation about z by 30 degrees of diag(2,5,3)
            double a = 30 * M_PI / 180, cs = std::cos(a), sn = std::sin(a); double R[2][2] = { { cs, -sn }, { sn, cs } }, D[2] = { 2, 5 }; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int q = 0; q < 2; q++) k[i][j] += R[i][q] * D[q] * R[j][q]; k[2][2] = 3; break; }
        case 6: if (even) diag(1, 1, 1); else { double v = 3 + x[1]; diag(v, v, v); } break;     // constant and coordinate dependent
        case 7: if (even) diag(2, 4, 6); else { diag(4, 5, 6); k[0][1] = k[1][0] = 1; k[1][2] = k[2][1] = 0.5; k[0][2] = k[2][0] = -1; if (m.dim == 2) k[1][2] = k[2][1] = k[0][2] = k[2][0] = 0; } break;
        }
    }
    std::string materials() const {
        auto iso = [](std::string v) { return "THERMAL_CONDUCTIVITY { MODEL ISOTROPIC; KXX " + v + "; }"; };
        std::string d3 = m.dim == 3 ? " KZZ 3;" : "", s3 = m.dim == 3 ? " KZZ 6; KYZ 0.5; KXZ 0-1;" : "";
        std::string one, two;
        switch (c.mat) { case 0: one = iso("2"); break; case 1: one = iso("1"); two = iso("10"); break; case 2: one = "THERMAL_CONDUCTIVITY { MODEL DIAGONAL; KXX 2; KYY 5;" + d3 + " }"; break;
            case 3: one = "THERMAL_CONDUCTIVITY { MODEL SYMMETRIC; KXX 4; KYY 5; KXY 1;" + s3 + " }"; break; case 4: one = iso("2 + COORDINATE_X + 0.5*COORDINATE_Y"); break; case 5: one = "COORDINATE_SYSTEM { TYPE CARTESIAN; ROTATION { " + std::string(m.dim == 3 ? "X 0; Y 0; " : "") + "Z 30; } } THERMAL_CONDUCTIVITY { MODEL DIAGONAL; KXX 2; KYY 5;" + d3 + " }"; break; case 6: one = iso("1"); two = iso("3 + COORDINATE_Y"); break;
            case 7: one = "THERMAL_CONDUCTIVITY { MODEL DIAGONAL; KXX 2; KYY 4;" + std::string(m.dim == 3 ? " KZZ 6;" : "") + " }"; two = "THERMAL_CONDUCTIVITY { MODEL SYMMETRIC; KXX 4; KYY 5; KXY 1;" + s3 + " }"; break; }
        if (c.an == 5) one = iso("2 + 0.01*TEMPERATURE");
        return "MATERIALS { 1 { DENS 2; CP 3; " + one + " } " + (two.size() ? "2 { DENS " + std::string(varying() ? "0.5 + COORDINATE_X" : "0.5") + "; CP 4; " + two + " }" : "") + " } MATERIAL_SET { " + (two.size() ? "EVEN 1; ODD 2;" : "ALL_ELEMENTS 1;") + " }";
    }
    double thickness(const P3 &x) const { return m.dim == 3 ? 1 : c.thick == 0 ? 1 : c.thick == 1 ? 2.5 : 1 + x[0]; }
    double rhocp(int e, const P3 &x) const { bool two = c.mat == 1 || c.mat == 6 || c.mat == 7; return two && e % 2 ? 4 * (varying() ? 0.5 + x[0] : 0.5) : 6; }
    bool varying() const { return !c.quad && c.kind != 2 && c.kind != 4; }   // the integration rule is exact for the mass matrix
    double T0(const P3 &x) const { return 20 + 4 * x[0]; }
    double Td(int r, const P3 &x) const { return c.load & 32 ? (r ? 300 + 5 * x[1] : 100 + 10 * x[1] + x[2]) : (r ? 300 : 100); }
    std::string loads() const {
        std::string s = "TEMPERATURE { X0 " + std::string(c.load & 32 ? "100 + 10*COORDINATE_Y + COORDINATE_Z" : "100") + "; " + (c.load & 1 ? std::string("XMAX ") + (c.load & 32 ? "300 + 5*COORDINATE_Y" : "300") + "; " : "") + "} ";
        if (m.dim == 2 && (c.load & 32)) { size_t p; while ((p = s.find(" + COORDINATE_Z")) != std::string::npos) s.erase(p, 15); }
        if (c.load & 2) s += "HEAT_SOURCE { EVEN 50; " + std::string(c.load & 64 ? "ODD 7*COORDINATE_X;" : "") + " } ";
        if (c.load & 4) s += "HEAT_FLUX { Y0 " + std::string(c.load & 8 ? "20 + 5*COORDINATE_X" : "20") + "; } ";
        if (c.load & 16) s += "HEAT_FLOW { YMAX 30; } ";
        return s;
    }
    // M: heat capacity matrix; T: temperatures the conductivity depends on; factor of all loads
    void assemble(fe::System &S, fe::V *M = nullptr, const fe::V *T = nullptr, double factor = 1) const {
        std::set<int> x0, xm; for (int e : m.ereg.at("X0")) x0.insert(m.e[e].n.begin(), m.e[e].n.end()); for (int e : m.ereg.at("XMAX")) xm.insert(m.e[e].n.begin(), m.e[e].n.end());
        int nv = 0; int N = m.c.size();
        for (auto &e : m.e) if (edim(e.code) == m.dim) {
            int id = nv++; for (auto &g : fe::points(m, e, gauss(0, e.code))) {
                double k[3][3]; K(id, g.x, k); if (c.an == 5) { double tg = 0; for (size_t a = 0; a < e.n.size(); a++) tg += g.N[a] * (*T)[e.n[a]]; for (auto &r : k) for (double &v : r) v = 0; for (int i = 0; i < 3; i++) k[i][i] = 2 + 0.01 * tg; } double t = thickness(g.x), q = c.load & 2 ? (id % 2 == 0 ? 50 : c.load & 64 ? 7 * g.x[0] : 0) : 0;
                for (size_t a = 0; a < e.n.size(); a++) { S.f[e.n[a]] += g.w * g.N[a] * q; for (size_t b = 0; b < e.n.size(); b++) { if (M) (*M)[(size_t)e.n[a] * N + e.n[b]] += g.w * t * rhocp(id, g.x) * g.N[a] * g.N[b]; double s = 0; for (int i = 0; i < m.dim; i++) for (int j = 0; j < m.dim; j++) s += g.dN[a][i] * k[i][j] * g.dN[b][j]; S.K[(size_t)e.n[a] * N + e.n[b]] += g.w * t * s; } }
            }
        }
        if (c.load & 4) for (int b : m.ereg.at("Y0")) for (auto &g : fe::points(m, m.e[b], gauss(c.phys, m.e[b].code))) for (size_t a = 0; a < m.e[b].n.size(); a++) S.f[m.e[b].n[a]] += g.w * thickness(g.x) * g.N[a] * (c.load & 8 ? 20 + 5 * g.x[0] : 20);
        if (c.load & 16) { double A = 0; for (int b : m.ereg.at("YMAX")) for (auto &g : fe::points(m, m.e[b], gauss(c.phys, m.e[b].code))) A += g.w; for (int b : m.ereg.at("YMAX")) for (auto &g : fe::points(m, m.e[b], gauss(c.phys, m.e[b].code))) for (size_t a = 0; a < m.e[b].n.size(); a++) S.f[m.e[b].n[a]] += g.w * thickness(g.x) * g.N[a] * 30 / A; }
        for (int n : x0) S.dirichlet[n] = Td(0, m.c[n]); if (c.load & 1) for (int n : xm) S.dirichlet[n] = Td(1, m.c[n]);
        for (double &v : S.f) v *= factor; for (auto &d : S.dirichlet) d.second *= factor;
    }
};

// ---- linear elasticity
struct Elastic {
    const Case &c; const RMesh &m; std::array<std::vector<int>,3> mult; Elastic(const Case &c, const RMesh &m) : c(c), m(m) {}
    int times(int r, int n) const { return mult[r].size() ? mult[r][n] : 1; }   // mult: how many times a force in a node is counted (once, unless a known finding is examined)
    double thickness(const P3 &x) const { return m.dim == 3 || c.behaviour == 1 ? 1 : c.thick == 0 ? 1 : c.thick == 1 ? 2.5 : 1 + x[0]; }
    double E(int e, const P3 &x) const { switch (c.mat) { case 0: return 1000; case 1: return e % 2 == 0 ? 1000 : 3000; case 2: return 1000 + 500 * x[0]; case 3: return e % 2 == 0 ? 1000 : 2000 + 300 * x[1]; } return 0; }
    double nu(int e) const { return c.mat == 1 && e % 2 ? 0.2 : 0.3; }
    double rho(int e, const P3 &x) const { return c.load & 1024 ? 2 + x[0] : c.mat == 1 && e % 2 ? 5 : 2; }
    std::string materials() const {
        auto mat = [&](std::string e, std::string n, std::string r) { return "{ DENS " + (c.load & 1024 ? "2 + COORDINATE_X" : r) + "; CP 1; ELASTICITY_PROPERTIES { MATERIAL_MODEL KIRCHHOFF; MIXY " + n + "; EX " + e + "; } }"; };
        std::string one, two; switch (c.mat) { case 0: one = mat("1000", "0.3", "2"); break; case 1: one = mat("1000", "0.3", "2"); two = mat("3000", "0.2", "5"); break; case 2: one = mat("1000 + 500*COORDINATE_X", "0.3", "2"); break; case 3: one = mat("1000", "0.3", "2"); two = mat("2000 + 300*COORDINATE_Y", "0.3", "2"); break; }
        return "MATERIALS { 1 " + one + " " + (two.size() ? "2 " + two : "") + " } MATERIAL_SET { " + (two.size() ? "EVEN 1; ODD 2;" : "ALL_ELEMENTS 1;") + " }";
    }
    std::string vec(std::string x, std::string y, std::string z) const { return "{ X " + x + "; Y " + y + "; " + (m.dim == 3 ? "Z " + z + "; " : "") + "}"; }
    std::string loads() const {
        std::string s = "DISPLACEMENT { X0 " + vec("0", "0", "0") + " " + (c.load & 1 ? "XMAX { X 0.01; } " : "") + (c.load & 2048 ? "XMAX { " + std::string(c.load & 1 ? "X 0.01; " : "") + "Y 0.01*COORDINATE_Y; } " : "") + "} ";
        if ((c.load & 1) && (c.load & 2048)) { size_t p = s.find("XMAX { X 0.01; } "); s.erase(p, 17); }
        if (c.load & 2) s += "ACCELERATION { ALL_ELEMENTS " + vec("1", c.load & 4 ? "0-3 - COORDINATE_X" : "0-3", "2") + " } ";
        if (c.load & 8) s += "NORMAL_PRESSURE { Y0 " + std::string(c.load & 16 ? "5 + 2*COORDINATE_X" : "5") + "; } ";
        if (c.load & 32) s += "ANGULAR_VELOCITY { ALL_ELEMENTS { X 1; Y 2; Z 3; } } ";
        if (c.load & (64 | 128 | 4096)) s += "FORCE { " + (c.load & 64 ? "CORNER " + vec("3", "4", "5") : "") + (c.load & 4096 ? " YMAX " + vec("1", "2", "3") : "") + (c.load & 128 ? " NLINE " + vec("1", "1 + COORDINATE_X", "2") : "") + " } ";
        if (c.load & 256) s += "PRESSURE { YMAX { PRESSURE " + std::string(c.load & 512 ? "4 + COORDINATE_X" : "4") + "; DIRECTION " + vec("1", "2", "3") + " } } ";
        return s;
    }
    P3 V0(const P3 &x) const { return { 0.1 * x[0], 0.2, 0.3 * x[1] }; }
    void assemble(fe::System &S, fe::V *M = nullptr, double factor = 1) const {
        int D = m.dim, N = m.c.size() * D; bool axi = D == 2 && c.behaviour == 1; int nv = 0;
        auto scale = [&](const fe::GP &g) { return g.w * (axi ? 2 * M_PI * g.x[0] : thickness(g.x)); };
        for (auto &e : m.e) if (edim(e.code) == D) {
            int id = nv++, nn = e.n.size(); for (auto &g : fe::points(m, e, gauss(1, e.code))) {
                double Y = E(id, g.x), v = nu(id), la = Y * v / ((1 + v) * (1 - 2 * v)), mu = Y / 2 / (1 + v), w = scale(g);
                int ns = D == 3 ? 6 : axi ? 4 : 3; std::vector<double> C(ns * ns, 0), B(ns * nn * D, 0);
                if (D == 3) for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) C[i * 6 + j] = la + (i == j ? 2 * mu : 0); C[(i + 3) * 6 + i + 3] = mu; }
                else if (axi) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C[i * 4 + j] = la + (i == j ? 2 * mu : 0); C[15] = mu; }
                else { double l2 = c.behaviour == 0 ? la : Y * v / (1 - v * v); C[0] = C[4] = l2 + 2 * mu; C[1] = C[3] = l2; C[8] = mu; }
                for (int n = 0; n < nn; n++) { auto b = [&](int r, int d) -> double& { return B[r * nn * D + n * D + d]; };
                    if (D == 3) { for (int d = 0; d < 3; d++) b(d, d) = g.dN[n][d]; b(3, 0) = g.dN[n][1]; b(3, 1) = g.dN[n][0]; b(4, 1) = g.dN[n][2]; b(4, 2) = g.dN[n][1]; b(5, 0) = g.dN[n][2]; b(5, 2) = g.dN[n][0]; }
                    else if (axi) { b(0, 0) = g.dN[n][0]; b(1, 1) = g.dN[n][1]; b(2, 0) = g.N[n] / g.x[0]; b(3, 0) = g.dN[n][1]; b(3, 1) = g.dN[n][0]; }
                    else { b(0, 0) = g.dN[n][0]; b(1, 1) = g.dN[n][1]; b(2, 0) = g.dN[n][1]; b(2, 1) = g.dN[n][0]; } }
                std::vector<double> CB(ns * nn * D, 0); for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) if (C[i * ns + j] != 0) for (int k = 0; k < nn * D; k++) CB[i * nn * D + k] += C[i * ns + j] * B[j * nn * D + k];
                for (int a = 0; a < nn * D; a++) for (int b = 0; b < nn * D; b++) { double s = 0; for (int i = 0; i < ns; i++) s += B[i * nn * D + a] * CB[i * nn * D + b]; S.K[(size_t)(e.n[a / D] * D + a % D) * N + e.n[b / D] * D + b % D] += w * s; }
                double body[3] = { 0, 0, 0 }, r = rho(id, g.x);
                if (M) for (int a = 0; a < nn; a++) for (int b = 0; b < nn; b++) for (int d = 0; d < D; d++) (*M)[(size_t)(e.n[a] * D + d) * N + e.n[b] * D + d] += w * r * g.N[a] * g.N[b];
                if (c.load & 2) { double acc[3] = { axi ? 0. : 1., c.load & 4 ? -3 - g.x[0] : -3., 2 }; for (int d = 0; d < D; d++) body[d] += r * acc[d]; }
                if (c.load & 32) { if (D == 3) { double o[3] = { 1, 4, 9 }; for (int d = 0; d < 3; d++) body[d] += r * g.x[d] * (o[(d + 1) % 3] + o[(d + 2) % 3]); } else if (axi) body[0] += r * 4 * g.x[0]; else { body[0] += r * 9 * g.x[0]; body[1] += r * 9 * g.x[1]; } }
                for (int n = 0; n < nn; n++) for (int d = 0; d < D; d++) S.f[e.n[n] * D + d] += w * g.N[n] * body[d];
            }
        }
        if (c.load & 8) for (int b : m.ereg.at("Y0")) { double o = 0; for (auto &g : fe::points(m, m.e[b], gauss(c.phys, m.e[b].code))) { if (o == 0) o = fe::outward(m, m.e[b], g.normal); double p = c.load & 16 ? 5 + 2 * g.x[0] : 5; for (size_t a = 0; a < m.e[b].n.size(); a++) for (int d = 0; d < D; d++) S.f[m.e[b].n[a] * D + d] -= scale(g) * g.N[a] * p * o * g.normal[d]; } }
        if (c.load & 256) for (int b : m.ereg.at("YMAX")) for (auto &g : fe::points(m, m.e[b], gauss(c.phys, m.e[b].code))) { double p = c.load & 512 ? 4 + g.x[0] : 4; for (size_t a = 0; a < m.e[b].n.size(); a++) for (int d = 0; d < D; d++) S.f[m.e[b].n[a] * D + d] += scale(g) * g.N[a] * p * (d + 1); }
        if (c.load & 64) for (int n : m.nreg.at("CORNER")) for (int d = 0; d < D; d++) S.f[n * D + d] += times(0, n) * (3 + d);
        if (c.load & 4096) { std::set<int> ns; for (int b : m.ereg.at("YMAX")) ns.insert(m.e[b].n.begin(), m.e[b].n.end()); for (int n : ns) for (int d = 0; d < D; d++) S.f[n * D + d] += times(1, n) * (d + 1); }
        if (c.load & 128) for (int n : m.nreg.at("NLINE")) for (int d = 0; d < D; d++) S.f[n * D + d] += times(2, n) * (d == 0 ? 1 : d == 1 ? 1 + m.c[n][0] : 2);
        for (int e : m.ereg.at("X0")) for (int n : m.e[e].n) for (int d = 0; d < D; d++) S.dirichlet[n * D + d] = 0;
        for (int e : m.ereg.at("XMAX")) for (int n : m.e[e].n) { if (c.load & 1) S.dirichlet[n * D] = 0.01; if (c.load & 2048) S.dirichlet[n * D + 1] = 0.01 * m.c[n][1]; }
        for (double &v : S.f) v *= factor; for (auto &d : S.dirichlet) d.second *= factor;
    }
};

static const double DT = 0.1; static const int STEPS = 3;
static std::string ecfText(const Case &c, const RMesh &m, const std::string &dir) {
    std::string s = "INPUT { FORMAT ENSIGHT; PATH x; DECOMPOSITION { PARALLEL_DECOMPOSER " + c.dec + "; DOMAINS " + std::to_string(c.domains) + "; } } OUTPUT { PATH " + dir + "/results; LOG_DIR " + dir + "/results; RESULTS_STORE_FREQUENCY NEVER; MONITORS_STORE_FREQUENCY NEVER; STORE_RESULTS ALL; } ";
    static const char *heatm[] = { "METHOD CRANK_NICOLSON; ", "METHOD GALERKIN; ", "METHOD BACKWARD_DIFF; ", "METHOD USER; ALPHA 0.8; " }, *newm[] = { "", "ALPHA 0.3025; DELTA 0.6; ", "ALPHA 0.6; DELTA 0.7; ", "ALPHA 0.5; " };
    auto step = [&](int k, bool transient, int load) {
        Case q = c; q.load = load; std::string loads = variant(c.phys ? Elastic(q, m).loads() : Heat(q, m).loads(), c.tv);
        std::string nl = c.phys ? "NONLINEAR_SOLVER { MAX_ITERATIONS 50; CHECK_DISPLACEMENT TRUE; REQUESTED_DISPLACEMENT_RESIDUAL 1e-9; } " : "NONLINEAR_SOLVER { MAX_ITERATIONS 50; REQUESTED_TEMPERATURE_RESIDUAL 1e-9; } ";
        return std::to_string(k) + " { DURATION_TIME " + (transient ? num(DT * STEPS) : "1") + "; TYPE " + (transient ? "TRANSIENT" : "STEADY_STATE") + "; MODE " + (c.nl || c.an == 5 ? "NONLINEAR; " + nl : "LINEAR; ") + (transient ? "TRANSIENT_SOLVER { TIME_STEP " + num(DT) + "; " + (c.phys ? newm : heatm)[c.tm] + "} " : "") + "SOLVER " + c.solver + "; FETI { PRECISION 1e-11; MAX_ITERATIONS 500; " + c.feti + " } " + loads + " } ";
    };
    bool two = c.an >= 2 && c.an <= 4; std::string steps = std::string("LOAD_STEPS ") + (two ? "2" : "1") + "; LOAD_STEPS_SETTINGS { " + step(1, c.an == 1 || c.an == 3, c.load) + (two ? step(2, c.an != 4, c.load2) : "") + "}";
    if (c.phys == 0) { Heat h(c, m); s += "PHYSICS HEAT_TRANSFER; HEAT_TRANSFER { " + h.materials() + " INITIAL_TEMPERATURE { ALL_ELEMENTS 20 + 4*COORDINATE_X; } " + (m.dim == 2 && c.thick ? "THICKNESS { ALL_ELEMENTS " + std::string(c.thick == 1 ? "2.5" : "1 + COORDINATE_X") + "; } " : "") + steps + " }"; }
    else { static const char *beh[] = { "PLANE_STRAIN", "AXISYMMETRIC", "PLANE_STRESS", "PLANE_STRESS_WITH_THICKNESS" }; Elastic h(c, m); s += "PHYSICS STRUCTURAL_MECHANICS; STRUCTURAL_MECHANICS { " + h.materials() + (c.an ? " INITIAL_VELOCITY { ALL_ELEMENTS " + h.vec("0.1*COORDINATE_X", "0.2", "0.3*COORDINATE_Y") + " } " : "") + (m.dim == 2 ? std::string(" ELEMENT_BEHAVIOUR ") + beh[c.behaviour] + "; " : "") + (m.dim == 2 && c.thick ? "THICKNESS { ALL_ELEMENTS " + std::string(c.thick == 1 ? "2.5" : "1 + COORDINATE_X") + "; } " : "") + steps + " }"; }
    return s;
}

// solution after all load steps: u, its velocity and acceleration, S: the last assembled system
struct Solution { fe::V u, v, w; fe::System S; bool transient = false, ok = true; Solution(int n) : u(n, 0), v(n, 0), w(n, 0), S(n) {} };
static Solution reference(const Case &c, const RMesh &m, const std::array<std::vector<int>,3> &mult) {
    int n = m.c.size() * (c.phys ? m.dim : 1); Solution r(n);
    auto assemble = [&](int load, double t, fe::V *M, const fe::V *T) { r.S = fe::System(n); Case q = c; q.load = load; double f = c.tv ? 1 + t : 1; if (M) M->assign((size_t)n * n, 0); if (c.phys) { Elastic h(q, m); h.mult = mult; h.assemble(r.S, M, f); } else Heat(q, m).assemble(r.S, M, T, f); };
    if (c.an == 5) { // conductivity depends on temperature: fixed point
        for (size_t i = 0; i < m.c.size(); i++) r.u[i] = 20; for (int it = 0; it < 200; it++) { fe::V T = r.u; assemble(c.load, 1, nullptr, &T); r.ok &= r.S.solve(r.u); double d = 0, s = 0; for (int i = 0; i < n; i++) { d = std::max(d, std::fabs(r.u[i] - T[i])); s = std::max(s, std::fabs(T[i])); } if (d < 1e-12 * s) break; }
        return r;
    }
    double t0 = 0; bool first = true;
    auto steady = [&](int load) { assemble(load, t0 + 1, nullptr, nullptr); r.ok &= r.S.solve(r.u); r.transient = false; t0 += 1; first = false; };
    auto transient = [&](int load) {
        if (first) { if (c.phys) { Elastic h(c, m); for (size_t i = 0; i < m.c.size(); i++) { auto v = h.V0(m.c[i]); for (int d = 0; d < m.dim; d++) r.v[i * m.dim + d] = v[d]; } } else { Heat h(c, m); assemble(load, 0, nullptr, nullptr); for (size_t i = 0; i < m.c.size(); i++) r.u[i] = h.T0(m.c[i]); for (auto &d : r.S.dirichlet) r.u[d.first] = d.second; } }
        static const double al[] = { .5, 2. / 3, 1, .8 }, nmA[] = { .25, .3025, .6, .5 }, nmD[] = { .5, .6, .7, .5 };
        double gamma = nmD[c.tm], beta = nmA[c.tm];
        for (int k = 1; k <= STEPS; k++) {
            fe::V M, x(n), u; assemble(load, t0 + k * DT, &M, nullptr); auto add = [&](double s) { for (size_t i = 0; i < M.size(); i++) r.S.K[i] += s * M[i]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.S.f[i] += M[(size_t)i * n + j] * x[j]; };
            fe::System plain = r.S;
            if (c.phys == 0) { double a = al[c.tm]; for (int i = 0; i < n; i++) x[i] = r.u[i] / (a * DT) + (1 - a) / a * r.v[i]; add(1 / (a * DT)); r.ok &= r.S.solve(u); for (int i = 0; i < n; i++) r.v[i] = (u[i] - r.u[i]) / (a * DT) - (1 - a) / a * r.v[i]; r.u = u; }
            else { double a0 = 1 / (beta * DT * DT), a2 = 1 / (beta * DT), a3 = 1 / (2 * beta) - 1; for (int i = 0; i < n; i++) x[i] = a0 * r.u[i] + a2 * r.v[i] + a3 * r.w[i]; add(a0); r.ok &= r.S.solve(u); for (int i = 0; i < n; i++) { double w = a0 * (u[i] - r.u[i]) - a2 * r.v[i] - a3 * r.w[i]; r.v[i] += DT * (1 - gamma) * r.w[i] + DT * gamma * w; r.w[i] = w; } r.u = u; }
            r.S = plain;
        }
        r.transient = true; t0 += STEPS * DT; first = false;
    };
    switch (c.an) { case 0: steady(c.load); break; case 1: transient(c.load); break; case 2: steady(c.load); transient(c.load2); break; case 3: transient(c.load); transient(c.load2); break; case 4: steady(c.load); steady(c.load2); break; }
    return r;
}

static void rankMain(const Case &c, const RMesh &m, const Dist &d, const std::string &dir, const std::string &ecf) {
    if (chdir(dir.c_str())) {} setenv("OMP_NUM_THREADS", std::to_string(c.threads).c_str(), 1); stacktimer::init();
    setupRank(ecf); mcomp::set(c.threads, c.order); RefBuilder b(m, d); b.load(); b.build(); info::mesh->preprocess(); info::mesh->output->updateMesh();
    Analysis a; a.run();
    Out o; auto nd = info::mesh->nodes; o.i(nd->size); for (esint i = 0; i < nd->size; i++) { auto &p = nd->coordinates->datatarray()[i]; o.d(p.x); o.d(p.y); o.d(p.z); }
    std::vector<NodeData*> data; for (auto x : nd->data) if (x->data.size() && x->name.size()) data.push_back(x);
    o.i(data.size()); for (auto x : data) { o.str(x->name); o.i(x->dimension); o.i(x->data.size()); for (auto v : x->data) o.d(v); }
    auto es = info::mesh->elements; o.i(es->epointers->datatarray().size()); for (auto e = es->nodes->begin(); e != es->nodes->end(); ++e) { P3 q = { 0, 0, 0 }; for (auto n : *e) { auto &p = nd->coordinates->datatarray()[n]; q[0] += p.x / e->size(); q[1] += p.y / e->size(); q[2] += p.z / e->size(); } for (double v : q) o.d(v); }
    std::vector<ElementData*> ed; for (auto x : es->data) if (x->data.size() && x->name.size()) ed.push_back(x);
    o.i(ed.size()); for (auto x : ed) { o.str(x->name); o.i(x->dimension); o.i(x->data.size()); for (auto v : x->data) o.d(v); }
    for (const char *name : { "CORNER", "YMAX", "NLINE" }) { std::vector<esint> ns; for (auto r : info::mesh->boundaryRegions) if (r->name == name && r->nodes) ns.assign(r->nodes->datatarray().begin(), r->nodes->datatarray().end()); o.i(ns.size()); for (esint n : ns) { auto &p = nd->coordinates->datatarray()[n]; o.d(p.x); o.d(p.y); o.d(p.z); } }
    if (getenv("SHOWR")) { fprintf(stderr, "regions %ld team %d intervals %zu:", mcomp::regions, mcomp::team, es->eintervals.size()); for (auto &v : es->eintervals) fprintf(stderr, " %d-%d d%d t%d", (int)v.begin, (int)v.end, (int)v.domain, (int)v.thread); fprintf(stderr, "\n"); }
    mc::report(o.s); finishRank(); stacktimer::finish();
}
typedef std::map<std::array<long,3>, std::vector<double>> Field;
static std::array<long,3> key(const double *p) { return { std::lround(p[0] * 1e6), std::lround(p[1] * 1e6), std::lround(p[2] * 1e6) }; }
struct Result { std::map<std::string, Field> node, elem; std::map<std::array<long,3>, int> mult[3]; std::string err; };
static Result collect(const mc::Exec &e, bool degenerate) {
    Result r; for (auto &s : e.report) {
        In i(s); for (int what = 0; what < 2; what++) { long n = i.i(); std::vector<std::array<long,3>> k; for (long q = 0; q < n; q++) { double p[3] = { i.d(), i.d(), i.d() }; k.push_back(key(p)); }
            long nd = i.i(); for (long d = 0; d < nd; d++) { std::string name = i.str(); long dim = i.i(), sz = i.i(); if (sz != dim * n) { r.err = "size of " + name + " does not match"; return r; } Field &f = (what ? r.elem : r.node)[name];
                for (long q = 0; q < n; q++) { std::vector<double> v; for (long j = 0; j < dim; j++) v.push_back(i.d()); auto it = f.find(k[q]); if (it != f.end()) { if (!(degenerate && name.compare(0, 4, "AVG_") == 0)) for (long j = 0; j < dim; j++) if (!(std::fabs(it->second[j] - v[j]) <= 1e-9 * (1 + std::fabs(v[j])))) r.err = "processes disagree on " + name + " at a shared node: " + num(it->second[j]) + " and " + num(v[j]); } else f[k[q]] = v; } } }
        for (int q = 0; q < 3; q++) for (long n = i.i(); n > 0; n--) { double p[3] = { i.d(), i.d(), i.d() }; r.mult[q][key(p)]++; }
        if (!i.ok()) r.err = "harness: broken report";
    }
    return r;
}

// compares everything the run produced with the reference solution
static std::string compareAll(const Case &c, const RMesh &m, Result &r, const std::array<std::vector<int>,3> &mult) {
    size_t N = m.c.size(); int dof = c.phys ? m.dim : 1; Solution sol = reference(c, m, mult); fe::V &u = sol.u; fe::System &S = sol.S; if (!sol.ok) return "harness: singular reference";
    if (getenv("DUMP")) { for (auto &f : r.node) printf("node %s\n", f.first.c_str()); for (auto &f : r.elem) printf("elem %s\n", f.first.c_str()); }
    std::string bad; double worst = 0;
    // compare a field with reference values given at points
    auto compare = [&](bool elem, const std::string &name, const std::vector<P3> &at, int dim, const fe::V &ref, double tol, double floor = 1e-3) {
        auto &fs = elem ? r.elem : r.node; auto fi = fs.find(name); if (bad.size()) return; if (fi == fs.end()) { bad = "result " + name + " is missing"; return; } Field &f = fi->second;
        double scale = floor; for (double v : ref) scale = std::max(scale, std::fabs(v)); double w = 0; std::string where;
        for (size_t i = 0; i < at.size(); i++) { auto it = f.find(key(at[i].data())); if (it == f.end()) { bad = std::string(elem ? "an element" : "a node") + " without result " + name; return; } if ((int)it->second.size() < dim) { bad = "result " + name + " has a wrong dimension"; return; }
            for (int q = 0; q < dim; q++) { double er = std::fabs(it->second[q] - ref[i * dim + q]) / scale; if (std::isnan(er)) er = INFINITY; if (!(er <= w)) { w = er; where = std::string(elem ? "element at (" : "node (") + num(at[i][0]) + ", " + num(at[i][1]) + ", " + num(at[i][2]) + ") component " + std::to_string(q) + ": " + num(it->second[q]) + " expected " + num(ref[i * dim + q]); } } }
        mc::counter("fields_compared", 1); mc::counter("values_compared", at.size() * dim); if (getenv("SHOW")) printf("worst %s %g\n", name.c_str(), w); worst = std::max(worst, w);
        if (!(w <= tol)) bad = name + " is not the one of the configured problem: relative difference " + num(w) + " at " + where;
    };
    compare(false, c.phys ? "DISPLACEMENT" : "TEMPERATURE", m.c, dof, u, 1e-6);
    if (c.phys && sol.transient) { compare(false, "VELOCITY", m.c, dof, sol.v, 1e-6); compare(false, "ACCELERATION", m.c, dof, sol.w, 1e-6); }
    // derived results where every reasonable average over the element agrees (affine elements, constant coefficients)
    bool plain = !c.quad && c.kind != 2 && c.kind != 3 && c.kind != 4; std::vector<P3> cen; std::vector<int> vol; for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) == m.dim) { vol.push_back(i); P3 q = { 0, 0, 0 }; for (int x : m.e[i].n) for (int d = 0; d < 3; d++) q[d] += m.c[x][d] / m.e[i].n.size(); cen.push_back(q); }
    if (!c.phys && plain) { fe::V G, F; Heat h(c, m); bool cst = c.mat != 4 && c.mat != 6 && c.an != 5;
        for (size_t i = 0; i < vol.size(); i++) { auto &e = m.e[vol[i]]; auto gp = fe::points(m, e, 2); double g[3] = { 0, 0, 0 }, k[3][3]; for (auto &x : gp) for (size_t a = 0; a < e.n.size(); a++) for (int d = 0; d < m.dim; d++) g[d] += x.dN[a][d] * u[e.n[a]] / gp.size(); h.K(i, gp[0].x, k); for (int d = 0; d < m.dim; d++) { G.push_back(g[d]); double s = 0; for (int q = 0; q < m.dim; q++) s += k[d][q] * g[q]; F.push_back(s); } }
        compare(true, "GRADIENT", cen, m.dim, G, 1e-6); if (cst) compare(true, "FLUX", cen, m.dim, F, 1e-6); }
    if (c.phys) { fe::V Ku(N * dof, 0); for (size_t i = 0; i < N * dof; i++) for (size_t j = 0; j < N * dof; j++) Ku[i] += S.K[i * N * dof + j] * u[j]; if (!sol.transient) compare(false, "REACTION_FORCES", m.c, dof, Ku, 1e-6); if ((c.an >= 2 ? c.load2 : c.load) & ~(1 | 2048)) compare(false, "FORCE", m.c, dof, S.f, 1e-6); }
    if (c.phys && c.kind == 0 && !c.quad) { fe::V St, Sn; Elastic h(c, m); // Green strain and second Piola-Kirchhoff stress
        for (size_t i = 0; i < vol.size(); i++) { auto &e = m.e[vol[i]]; auto gp = fe::points(m, e, 2); double sn[6] = { 0 }, ss[6] = { 0 }; for (auto &x : gp) { double F[3][3], E[3][3]; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { F[a][b] = a == b; for (size_t q = 0; q < e.n.size(); q++) F[a][b] += u[e.n[q] * 3 + a] * x.dN[q][b]; } for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { E[a][b] = a == b ? -.5 : 0; for (int q = 0; q < 3; q++) E[a][b] += .5 * F[q][a] * F[q][b]; }
                double Y = h.E(i, x.x), v = h.nu(i), la = Y * v / ((1 + v) * (1 - 2 * v)), mu = Y / 2 / (1 + v), tr = E[0][0] + E[1][1] + E[2][2]; static const int A[6] = { 0, 1, 2, 0, 1, 0 }, B[6] = { 0, 1, 2, 1, 2, 2 }; for (int q = 0; q < 6; q++) { sn[q] += E[A[q]][B[q]] / gp.size(); ss[q] += (2 * mu * E[A[q]][B[q]] + (q < 3 ? la * tr : 0)) / gp.size(); } }
            Sn.insert(Sn.end(), sn, sn + 6); St.insert(St.end(), ss, ss + 6); }
        compare(true, "COMPONENT_STRAIN", cen, 6, Sn, 1e-6); compare(true, "COMPONENT_STRESS", cen, 6, St, 1e-6); }
    if (getenv("SHOW")) printf("worst %g\n", worst);
    return bad;
}


static std::string runCase(const Case &c, mc::Stats &st) {
    RMesh m = mesh(c); Dist d; int n = c.n; size_t N = m.c.size(), E = m.e.size(); for (size_t i = 0; i < N; i++) d.nrank.push_back(c.dist == 0 ? i * n / N : i % n); for (size_t i = 0; i < E; i++) d.erank.push_back(c.dist == 0 ? i * n / E : (i / 2) % n);
    std::string dir = scratch + "/" + std::to_string(getpid()), ecf = dir + "/e.ecf"; mkdir(dir.c_str(), 0755);
    { std::ofstream f(ecf); f << ecfText(c, m, dir); }
    mc::Opt o; o.n = n; o.rendezvous = c.rdv; o.out = dir + "/out.txt"; o.cpulimit = 60;
    auto e = mc::run(o, {}, [&](int) { rankMain(c, m, d, dir, ecf); }, st);
    if (e.bad()) { std::ifstream f(o.out); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str(); std::string tail; for (size_t p = t.find("ERROR"); p != std::string::npos && tail.size() < 600; p = t.find("ERROR", p + 1)) tail += t.substr(p, t.find('\n', p) - p) + "\n"; unsigned L = getenv("MC_BT") ? 6000 : 800; return c.show() + "\n" + e.msg + "\n" + tail + t.substr(t.size() > L ? t.size() - L : 0); }
    if (getenv("SHOW")) { std::ifstream f(o.out); std::stringstream ss; ss << f.rdbuf(); printf("%s\n", ss.str().c_str()); }
    Result r = collect(e, c.kind != 0 && c.kind != 5); if (r.err.size()) return c.show() + "\n" + r.err;
    std::string bad = compareAll(c, m, r, {});
    if (bad.size() && c.phys && c.n > 1 && (c.load & (64 | 128 | 4096))) { // known finding: forces of nodes shared by processes are counted per process
        std::array<std::vector<int>,3> mult; for (int q = 0; q < 3; q++) for (auto &p : m.c) mult[q].push_back(r.mult[q][key(p.data())]); if (getenv("SHOW")) for (size_t q = 0; q < m.c.size(); q++) { auto &F = r.node["FORCE"][key(m.c[q].data())]; printf("FORCE at %g %g %g: %g %g, times %d %d %d\n", m.c[q][0], m.c[q][1], m.c[q][2], F[0], F[1], mult[0][q], mult[1][q], mult[2][q]); } if (compareAll(c, m, r, mult).empty()) { mc::counter("known_force_shared_nodes", 1); bad.clear(); }
    }
    mc::counter("solutions_compared", 1); return bad.size() ? c.show() + "\n" + bad : "";
}

static std::vector<Case> cases(const std::string &prop, bool th) {
    std::vector<Case> v; auto kinds = [](int k) { return k == 0 || k == 1 || k == 5 || k == 6; };
    auto size = [](Case &c) { c.nx = 4; c.ny = c.kind >= 5 ? 3 : 2; c.nz = c.kind >= 5 ? 1 : c.kind == 0 ? 2 : 1; if (c.quad) { c.nx = 4; c.ny = c.kind >= 5 ? 2 : 1; c.nz = 1; } };
    int phys = prop == "C09" ? 1 : 0; (void)phys;
    if (prop == "C08" || prop == "C09") {
        int nmat = phys ? 4 : 8; int all = phys ? 8190 : 127;
        std::vector<int> loads = phys ? std::vector<int>{ 2, 1 | 8 | 2048, 4096 + 2046, 4 | 2 | 32 | 1024 | 64 } : std::vector<int>{ 1, 127, 2 | 4 | 16 | 64, 1 | 2 | 32 };
        auto ok = [&](const Case &c) { if (!phys && (c.mat == 4 || c.mat == 6) && (c.kind == 2 || c.kind == 4)) return false; if (c.quad && (!kinds(c.kind) || (c.kind == 6 && c.thick == 2))) return false; if (phys && c.thick && (c.load & (8 | 256))) return false; if (c.kind < 5 && (c.thick || c.behaviour)) return false; if (phys && c.behaviour == 1 && c.thick) return false; if (phys && c.behaviour == 1 && c.quad) return false; if (c.behaviour == 3 && phys && c.thick == 0) return false; return true; };
        auto push = [&](const Case &c) { if (ok(c)) v.push_back(c); };
        // physics: every element type, material and 2D variant
        for (int kind = 0; kind < 8; kind++) for (int quad = 0; quad < 2; quad++) for (int mat = 0; mat < nmat; mat++) for (int load : loads) for (int skew = 0; skew < 2; skew++) for (int beh = 0; beh < (phys ? 4 : 1); beh++) for (int thick = 0; thick < 3; thick++) {
            if (!th && kind < 5 && skew == 0 && load != loads[2]) continue; if (!th && kind >= 5 && skew == 0 && thick) continue;
            Case c; c.phys = phys; c.kind = kind; c.quad = quad; c.mat = mat; c.load = load; c.skew = skew; c.behaviour = beh; c.thick = thick; c.n = 2; c.domains = 2; size(c); push(c);
        }
        // every combination of loads
        for (int kind : { 0, 5 }) for (int load = 1; load <= (phys ? 8191 : 127); load++) {
            if (phys && !th) { int bits = __builtin_popcount(load); if (bits > 2) continue; }
            if (phys && ((load & 4 && !(load & 2)) || (load & 16 && !(load & 8)) || (load & 512 && !(load & 256)))) continue; if (!phys && ((load & 8 && !(load & 4)) || (load & 64 && !(load & 2)))) continue; if (phys && load == 1024) continue;
            Case c; c.phys = phys; c.kind = kind; c.mat = phys ? 1 : 3; c.load = load; c.skew = 1; c.n = 1; c.domains = 2; c.nx = 3; c.ny = 2; c.nz = kind ? 1 : 1; push(c);
        }
        // distribution, decomposition and thread schedules
        for (int kind = 0; kind < 8; kind++) for (int n = 1; n <= (th ? 4 : 3); n++) for (int dist = 0; dist < 2; dist++) for (int dom = 1; dom <= 3; dom++) for (const char *dec : { "NONE", "METIS", "PARMETIS" }) for (int thr : { 1, 2, 3 }) for (int ord = 0; ord < mcomp::orders(thr); ord++) {
            if (!th && ((kind + n + dist + dom + (dec[0] == 'M') + ord) % 2 || (thr == 3 && (kind + n + dist + dom + ord) % 3))) continue;
            Case c; c.phys = phys; c.kind = kind; c.mat = phys ? 3 : kind == 2 || kind == 4 ? 7 : 6; c.load = all - (phys ? 0 : 0); c.skew = 1; c.n = n; c.dist = dist; c.domains = dom; c.dec = dec; c.threads = thr; c.order = ord; c.nx = 5; c.ny = 3; c.nz = 1; push(c);
        }
    }
    if (prop == "C10") {
        for (int phys = 0; phys < 2; phys++) for (int an = 1; an <= 5; an++) for (int kind = 0; kind < 8; kind++) for (int quad = 0; quad < 2; quad++) for (int mat : { 1, phys ? 3 : 6 }) for (int tm = 0; tm < 4; tm++) for (int tv = 0; tv < 2; tv++) for (int n = 1; n <= 3; n++) for (int thick = 0; thick < 3; thick++) for (int beh = 0; beh < (phys ? 4 : 1); beh++) {
            if (an == 4) continue; if (an == 5 && (tm || mat != 1)) continue; if (phys && an == 5) continue; if (!phys && mat == 6 && (kind == 2 || kind == 4)) continue;
            if (quad && !kinds(kind)) continue; if (kind < 5 && (thick || beh)) continue; if (phys && beh == 1 && (thick || quad)) continue; if (phys && beh == 3 && thick == 0) continue; if (quad && thick == 2) continue;
            if (!th && (an + kind + quad + mat + tm + 2 * tv + n + thick + beh) % 4) continue;
            Case c; c.phys = phys; c.kind = kind; c.quad = quad; c.mat = an == 5 ? 0 : mat; c.an = an; c.tm = tm; c.tv = tv; c.n = n; c.thick = thick; c.behaviour = beh; c.skew = 1; c.load = phys ? (thick ? 2 : 2 | 8) | (quad || kind == 2 || kind == 4 || kind == 6 || kind == 7 || beh == 1 ? 0 : 1024) : 2 | 4 | 32; c.load2 = phys ? 1 | 2 | (c.load & 1024) : 1 | 16 | 2; c.domains = 1 + n % 2; size(c); if (n == 3) { c.nx = 6; if (quad && kind < 5) continue; } v.push_back(c);
        }
    }
    if (prop == "C10") {
        const char *methods[] = { "TOTAL_FETI", "HYBRID_FETI" }, *duals[] = { "IMPLICIT", "EXPLICIT", "EXPLICIT_GENERALSCHUR_CPU", "IMPLICIT_GENERALSPARSESOLVER_CPU" }, *pros[] = { "ORTHOGONAL", "CONJUGATE" }, *pres[] = { "NONE", "LUMPED", "DIRICHLET", "DIRICHLET_IMPLICIT", "DIRICHLET_GENERALSCHUR_CPU" }, *its[] = { "PCG", "orthogonalPCG", "SMALBE", "MPRGP" };
        for (int phys = 0; phys < 2; phys++) for (int kind : { 0, 5 }) for (int an : { 1, 3 }) for (int tv = 0; tv < 2; tv++) for (int me = 0; me < 2; me++) for (int du = 0; du < 4; du++) for (int pj = 0; pj < 2; pj++) for (int pr = 0; pr < 5; pr++) for (int it = 0; it < 4; it++) for (int n = 1; n <= 3; n++) for (int dom = 1; dom <= 3; dom++) {
            if (me == 1 && du == 1) continue; if (pj && (it == 1 || it == 2)) continue; /* CONJUGATE is implemented for PCG and MPRGP only */ if (!th && (an == 3) != ((du + pj + pr + it + n + dom + tv + phys) % 5 == 0)) continue; if (!th && tv != (du + pr + n) % 2) continue; if (!th && (phys + (kind ? 1 : 0) + me + du + pr + it + n + dom) % 3) continue;
            Case c; c.phys = phys; c.kind = kind; c.mat = 1; c.an = an; c.tm = phys ? 0 : it; c.tv = tv; c.load = phys ? 2 | 8 : 2 | 4 | 1; c.load2 = phys ? 1 | 2 : 1 | 16 | 2; c.skew = 1; c.n = n; c.domains = dom; c.nx = n == 3 ? 5 : 4; c.ny = kind || n == 3 ? 3 : 2; c.nz = 1; c.feti = std::string("METHOD ") + methods[me] + "; DUAL_OPERATOR " + duals[du] + "; PROJECTOR " + pros[pj] + "; PRECONDITIONER " + pres[pr] + "; ITERATIVE_SOLVER " + its[it] + ";"; v.push_back(c);
        }
    }
    if (prop == "C07") {
        // every supported combination of solver options
        const char *methods[] = { "TOTAL_FETI", "HYBRID_FETI" }, *duals[] = { "IMPLICIT", "EXPLICIT", "EXPLICIT_GENERALSCHUR_CPU", "IMPLICIT_GENERALSPARSESOLVER_CPU" }, *opts[] = { "DEFAULT", "WITH_FACTORS", "FULL", "WITH_FACTORS|FULL" }, *pres[] = { "NONE", "LUMPED", "DIRICHLET", "DIRICHLET_IMPLICIT", "DIRICHLET_GENERALSCHUR_CPU" }, *its[] = { "PCG", "orthogonalPCG", "SMALBE" }, *regs[] = { "ANALYTIC", "ALGEBRAIC", "SVD" };
        auto feti = [&](int me, int du, int op, int pr, int it, int re) { return std::string("METHOD ") + methods[me] + "; DUAL_OPERATOR " + duals[du] + "; PROJECTOR ORTHOGONAL; PROJECTOR_OPT " + opts[op] + "; PRECONDITIONER " + pres[pr] + "; ITERATIVE_SOLVER " + its[it] + "; REGULARIZATION " + regs[re] + ";"; };
        for (int nl = 0; nl < 2; nl++) for (int phys = 0; phys < 2 - nl; phys++) for (int kind : { 0, 5 }) for (int me = 0; me < 2; me++) for (int du = 0; du < 4; du++) for (int op = 0; op < 4; op++) for (int pr = 0; pr < 5; pr++) for (int it = 0; it < 3; it++) for (int re = 0; re < 3; re++) for (int n = 1; n <= 3; n++) for (int dom = 1; dom <= 3; dom++) {
            if (me == 1 && du == 1) continue;
            if (!th && (re != (du + op + pr + it + n + dom + nl) % 3 || op != (me + du + pr + it + 2 * phys + n * dom + (kind ? 1 : 0)) % 4)) continue; if (!th && nl && (n + dom + pr) % 4) continue;
            Case c; c.phys = phys; c.kind = kind; c.mat = 1; c.load = phys ? 2 | 8 : 2 | 4 | 1; c.skew = 1; c.n = n; c.domains = dom; c.nx = n == 3 ? 5 : 4; c.ny = kind || n == 3 ? 3 : 2; c.nz = 1; c.nl = nl; c.feti = feti(me, du, op, pr, it, re); v.push_back(c);
        }
        // decomposition, input distribution, number and order of threads, more bodies
        for (int phys = 0; phys < 2; phys++) for (int kind : { 0, 6 }) for (int me = 0; me < 2; me++) for (int it = 0; it < 3; it++) for (int pr : { 0, 2 }) for (int bodies = 1; bodies <= 2; bodies++) for (const char *dec : { "NONE", "METIS", "PARMETIS" }) for (int n = 1; n <= 4; n++) for (int dom : { 1, 2, 4 }) for (int thr = 1; thr <= 3; thr++) for (int ord = 0; ord < mcomp::orders(thr); ord++) {
            if (!th && (phys + me + it + pr / 2 + bodies + (dec[0] == 'M') + n + dom + thr + ord) % 16) continue;
            Case c; c.phys = phys; c.kind = kind; c.mat = 1; c.load = phys ? 2 | 8 : 2 | 4 | 1; c.skew = 1; c.n = n; c.domains = dom; c.nx = 6; c.ny = 3; c.nz = 1; c.bodies = bodies; c.dec = dec; c.threads = thr; c.order = ord; c.dist = n > 1 && thr == 2; c.feti = feti(me, 0, 0, pr, it, 0); v.push_back(c);
        }
    }
    return v;
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C08"; chk::Check ck(prop, argc, argv); ck.level = "model_checking"; int rc = 0;
    char tmpl[] = "/tmp/mc-solve-XXXXXX"; scratch = mkdtemp(tmpl);
    if (const char *d = getenv("CASE")) {
        Case c; std::stringstream ss(d); std::string t; while (ss >> t) { std::string k = t.substr(0, t.find('=')), w = t.substr(t.find('=') + 1); int i = atoi(w.c_str()); std::replace(w.begin(), w.end(), '~', ' ');
            if (k == "phys") c.phys = i; if (k == "kind") c.kind = i; if (k == "nx") c.nx = i; if (k == "ny") c.ny = i; if (k == "nz") c.nz = i; if (k == "quad") c.quad = i; if (k == "mat") c.mat = i; if (k == "load") c.load = i; if (k == "skew") c.skew = i; if (k == "beh") c.behaviour = i; if (k == "thick") c.thick = i; if (k == "n") c.n = i; if (k == "dist") c.dist = i; if (k == "threads") c.threads = i; if (k == "domains") c.domains = i; if (k == "bodies") c.bodies = i; if (k == "dec") c.dec = w; if (k == "solver") c.solver = w; if (k == "feti") c.feti = w; if (k == "extra") c.extra = w; if (k == "rdv") c.rdv = i; if (k == "order") c.order = i; if (k == "nl") c.nl = i; if (k == "an") c.an = i; if (k == "tm") c.tm = i; if (k == "tv") c.tv = i; if (k == "load2") c.load2 = i; }
        mc::Stats st; std::string f = runCase(c, st); printf("%s\n", f.size() ? f.c_str() : "OK");
    } else {
        auto v = cases(prop, ck.thorough());
        if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runCase(v.at(atol(l.c_str() + 5)), st); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
        else {
            auto res = mc::parallel(v.size(), 8, [&](long k, mc::Stats &st) { return runCase(v[k], st); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
            for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), f.second);
            ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
            for (auto &c : res.counters) if (c.first == "known_force_shared_nodes") ck.violation("force-shared-nodes", "forces in nodes shared by processes are counted by every process");
            if ((size_t)res.done < v.size()) ck.exhaustive = false;
            for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
            ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi", "team members of an OpenMP region run one after another, in every enumerated order", "the enumerated space is the product of the listed problems and configurations (bounded sizes)" };
            rc = ck.finish();
        }
    }
    std::string cmd = "rm -rf '" + scratch + "'"; if (scratch.compare(0, 14, "/tmp/mc-solve-") == 0) { if (system(cmd.c_str())) {} }
    return rc;
}
