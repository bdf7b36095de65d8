// Independent finite-element reference: shape functions obtained by inverting the Vandermonde matrix of the element's
// monomial basis, over-integrated Gauss quadrature, dense assembly and dense LU. Nothing is shared with the code under test.
#pragma once
#include "meshlib.h"

namespace fe {
using namespace ml;
typedef std::vector<double> V;

// monomials (exponents) and reference nodes
inline std::vector<std::array<int,3>> monomials(int code) {
    std::vector<std::array<int,3>> r; auto tp = [&](int n, int dim, auto f) { for (int a = 0; a <= n; a++) for (int b = 0; b <= (dim > 1 ? n : 0); b++) for (int c = 0; c <= (dim > 2 ? n : 0); c++) if (f(a, b, c)) r.push_back({ a, b, c }); };
    auto sl = [](int a, int b, int c) { return (a > 1 ? a : 0) + (b > 1 ? b : 0) + (c > 1 ? c : 0); };
    switch (code) {
    case LINE2: tp(1, 1, [](int, int, int) { return true; }); break;
    case LINE3: tp(2, 1, [](int, int, int) { return true; }); break;
    case TRIANGLE3: tp(1, 2, [](int a, int b, int) { return a + b <= 1; }); break;
    case TRIANGLE6: tp(2, 2, [](int a, int b, int) { return a + b <= 2; }); break;
    case SQUARE4: tp(1, 2, [](int, int, int) { return true; }); break;
    case SQUARE8: tp(2, 2, [&](int a, int b, int c) { return sl(a, b, c) <= 2; }); break;
    case TETRA4: tp(1, 3, [](int a, int b, int c) { return a + b + c <= 1; }); break;
    case TETRA10: tp(2, 3, [](int a, int b, int c) { return a + b + c <= 2; }); break;
    case HEXA8: tp(1, 3, [](int, int, int) { return true; }); break;
    case HEXA20: tp(2, 3, [&](int a, int b, int c) { return sl(a, b, c) <= 2; }); break;
    case PRISMA6: tp(1, 3, [](int a, int b, int) { return a + b <= 1; }); break;
    case PRISMA15: tp(2, 3, [](int a, int b, int c) { return (a + b <= 2 && c <= 1) || (a + b <= 1 && c == 2); }); break;
    }
    return r;
}
inline std::vector<P3> refnodes(int code) {
    std::vector<P3> c; int l = linear(code);
    switch (l) {
    case LINE2: c = { {-1,0,0},{1,0,0} }; break;
    case TRIANGLE3: c = { {0,0,0},{1,0,0},{0,1,0} }; break;
    case SQUARE4: c = { {-1,-1,0},{1,-1,0},{1,1,0},{-1,1,0} }; break;
    case TETRA4: c = { {0,0,0},{1,0,0},{0,1,0},{0,0,1} }; break;
    case PRISMA6: c = { {0,0,-1},{1,0,-1},{0,1,-1},{0,0,1},{1,0,1},{0,1,1} }; break;
    case HEXA8: c = { {-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1} }; break;
    }
    if (l != code) for (auto &q : qedges(l)) c.push_back({ (c[q.first][0] + c[q.second][0]) / 2, (c[q.first][1] + c[q.second][1]) / 2, (c[q.first][2] + c[q.second][2]) / 2 });
    return c;
}
// dense solve, A row-major n x n, several right sides in columns of B (n x m); partial pivoting
inline bool lu(int n, V &A, int m, V &B) {
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A[(size_t)i * n + k]) > std::fabs(A[(size_t)p * n + k])) p = i;
        if (A[(size_t)p * n + k] == 0) return false;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A[(size_t)p * n + j], A[(size_t)k * n + j]); for (int j = 0; j < m; j++) std::swap(B[(size_t)p * m + j], B[(size_t)k * m + j]); }
        for (int i = k + 1; i < n; i++) { double f = A[(size_t)i * n + k] / A[(size_t)k * n + k]; if (f == 0) continue; for (int j = k; j < n; j++) A[(size_t)i * n + j] -= f * A[(size_t)k * n + j]; for (int j = 0; j < m; j++) B[(size_t)i * m + j] -= f * B[(size_t)k * m + j]; }
    }
    for (int k = n - 1; k >= 0; k--) for (int j = 0; j < m; j++) { double s = B[(size_t)k * m + j]; for (int i = k + 1; i < n; i++) s -= A[(size_t)k * n + i] * B[(size_t)i * m + j]; B[(size_t)k * m + j] = s / A[(size_t)k * n + k]; }
    return true;
}
struct Basis { int code, dim, nn; std::vector<std::array<int,3>> mono; V coef; std::vector<std::pair<P3, double>> gp; std::vector<V> N; std::vector<std::array<V,3>> dN; };
inline double pw(double x, int e) { double r = 1; while (e-- > 0) r *= x; return r; }
inline const Basis& basis(int code, int order = 5) {
    static std::map<int, Basis> cache; auto it = cache.find(code * 10 + order); if (it != cache.end()) return it->second;
    if (code == PYRAMID5) { // hexahedron with the top face collapsed to the apex
        Basis b = basis(HEXA8, order); b.code = code; b.nn = 5; auto fold = [](V &v) { for (int i = 5; i < 8; i++) v[4] += v[i]; v.resize(5); };
        for (auto &N : b.N) fold(N); for (auto &d : b.dN) for (auto &v : d) fold(v); return cache[code * 10 + order] = b;
    }
    Basis b; b.code = code; b.dim = edim(code); b.nn = enn(code); b.mono = monomials(code); auto rn = refnodes(code); int n = b.nn;
    V A(n * n), I(n * n, 0); for (int i = 0; i < n; i++) { I[i * n + i] = 1; for (int j = 0; j < n; j++) A[i * n + j] = pw(rn[i][0], b.mono[j][0]) * pw(rn[i][1], b.mono[j][1]) * pw(rn[i][2], b.mono[j][2]); }
    lu(n, A, n, I); b.coef = I; // coef[j*n+i]: monomial j of shape function i
    static const double gx5[5] = { -0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640 }, gw5[5] = { 0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891 }, gx2[2] = { -0.5773502691896257, 0.5773502691896257 }, gw2[2] = { 1, 1 }, gx3[3] = { -0.7745966692414834, 0, 0.7745966692414834 }, gw3[3] = { 5. / 9, 8. / 9, 5. / 9 };
    const double *gx = order == 2 ? gx2 : order == 3 ? gx3 : gx5, *gw = order == 2 ? gw2 : order == 3 ? gw3 : gw5; int q = order == 2 || order == 3 ? order : 5;
    int l = linear(code);
    for (int i = 0; i < q; i++) for (int j = 0; j < (b.dim > 1 ? q : 1); j++) for (int k = 0; k < (b.dim > 2 ? q : 1); k++) {
        double u = (1 + gx[i]) / 2, v = (1 + gx[j]) / 2, w = (1 + gx[k]) / 2, wu = gw[i] / 2, wv = gw[j] / 2, ww = gw[k] / 2;
        switch (l) {
        case LINE2: b.gp.push_back({ { gx[i], 0, 0 }, gw[i] }); break;
        case SQUARE4: b.gp.push_back({ { gx[i], gx[j], 0 }, gw[i] * gw[j] }); break;
        case PYRAMID5: case HEXA8: b.gp.push_back({ { gx[i], gx[j], gx[k] }, gw[i] * gw[j] * gw[k] }); break;
        case TRIANGLE3: b.gp.push_back({ { v * (1 - u), u, 0 }, wu * wv * (1 - u) }); break;
        case PRISMA6: b.gp.push_back({ { v * (1 - u), u, gx[k] }, wu * wv * (1 - u) * gw[k] }); break;
        case TETRA4: b.gp.push_back({ { w * (1 - u) * (1 - v), v * (1 - u), u }, wu * wv * ww * (1 - u) * (1 - u) * (1 - v) }); break;
        }
    }
    for (auto &g : b.gp) { V N(n, 0); std::array<V,3> d; for (auto &x : d) x.assign(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double c = b.coef[j * n + i]; auto &e = b.mono[j]; double x = pw(g.first[0], e[0]), y = pw(g.first[1], e[1]), z = pw(g.first[2], e[2]); N[i] += c * x * y * z; if (e[0]) d[0][i] += c * e[0] * pw(g.first[0], e[0] - 1) * y * z; if (e[1]) d[1][i] += c * x * e[1] * pw(g.first[1], e[1] - 1) * z; if (e[2]) d[2][i] += c * x * y * e[2] * pw(g.first[2], e[2] - 1); } b.N.push_back(N); b.dN.push_back(d); }
    return cache[code * 10 + order] = b;
}
struct GP { P3 x; double w; V N; std::vector<P3> dN; P3 normal; };      // w includes the determinant; normal: unit, by node order
// integration points of a volume element
inline std::vector<GP> points(const RMesh &m, const El &e, int order = 5) {
    const Basis &b = basis(e.code, order); std::vector<GP> r; int D = b.dim;
    for (size_t g = 0; g < b.gp.size(); g++) {
        GP p; p.x = { 0, 0, 0 }; double J[3][3] = { {0,0,0},{0,0,0},{0,0,0} }; p.N = b.N[g];
        for (int n = 0; n < b.nn; n++) for (int d = 0; d < 3; d++) { p.x[d] += b.N[g][n] * m.c[e.n[n]][d]; for (int a = 0; a < D; a++) J[a][d] += b.dN[g][a][n] * m.c[e.n[n]][d]; }
        if (D == m.dim) {
            double det, I[3][3] = { {0,0,0},{0,0,0},{0,0,0} };
            if (D == 2) { det = J[0][0] * J[1][1] - J[0][1] * J[1][0]; I[0][0] = J[1][1] / det; I[0][1] = -J[0][1] / det; I[1][0] = -J[1][0] / det; I[1][1] = J[0][0] / det; }
            else { det = 0; for (int i = 0; i < 3; i++) det += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, c = (j + 2) % 3, d = (i + 1) % 3, f = (i + 2) % 3; I[i][j] = (J[a][d] * J[c][f] - J[a][f] * J[c][d]) / det; } }
            p.w = b.gp[g].second * std::fabs(det); p.dN.resize(b.nn);
            for (int n = 0; n < b.nn; n++) for (int d = 0; d < 3; d++) { p.dN[n][d] = 0; for (int a = 0; a < D; a++) p.dN[n][d] += I[d][a] * b.dN[g][a][n]; }
        } else if (D == 2) { P3 c = { J[0][1] * J[1][2] - J[0][2] * J[1][1], J[0][2] * J[1][0] - J[0][0] * J[1][2], J[0][0] * J[1][1] - J[0][1] * J[1][0] }; double a = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]); p.w = b.gp[g].second * a; p.normal = { c[0] / a, c[1] / a, c[2] / a }; }
        else { double a = std::sqrt(J[0][0] * J[0][0] + J[0][1] * J[0][1]); p.w = b.gp[g].second * a; p.normal = { J[0][1] / a, -J[0][0] / a, 0 }; }
        r.push_back(p);
    }
    return r;
}
// outward orientation of a boundary element with respect to its volume element
inline double outward(const RMesh &m, const El &b, const P3 &normal) {
    for (auto &e : m.e) if (edim(e.code) == m.dim) for (auto f : faces(e)) {
        std::vector<int> k(b.n.begin(), b.n.begin() + ecn(b.code)), q = f; std::sort(k.begin(), k.end()); std::sort(q.begin(), q.end()); if (k != q) continue;
        P3 c = { 0, 0, 0 }, o = { 0, 0, 0 }; for (int i = 0; i < ecn(e.code); i++) for (int d = 0; d < 3; d++) c[d] += m.c[e.n[i]][d] / ecn(e.code); for (int i : f) for (int d = 0; d < 3; d++) o[d] += m.c[i][d] / f.size();
        double s = 0; for (int d = 0; d < 3; d++) s += normal[d] * (o[d] - c[d]); return s > 0 ? 1 : -1;
    }
    return 1;
}
struct System { int n; V K, f; std::map<int, double> dirichlet; System(int n) : n(n), K((size_t)n * n, 0), f(n, 0) {}
    // K u = f with prescribed values
    bool solve(V &u) const { V A = K, b = f; for (auto &d : dirichlet) { for (int i = 0; i < n; i++) { b[i] -= A[(size_t)i * n + d.first] * d.second; A[(size_t)i * n + d.first] = 0; } } for (auto &d : dirichlet) { for (int j = 0; j < n; j++) A[(size_t)d.first * n + j] = 0; A[(size_t)d.first * n + d.first] = 1; b[d.first] = d.second; } if (!lu(n, A, 1, b)) return false; u = b; return true; }
};
}
