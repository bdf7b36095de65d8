// C03: databases in all supported formats, cut among processes and threads at every position, give the mesh they describe
#include "meshverify.h"
#include "config/ecf/input/input.h"
#include "basis/io/inputfile.h"
#include "basis/io/loader.h"
#include "input/parsers/ansyscdb/ansyscdb.h"
#include "input/parsers/ansyscdb/parser/blockend.h"
#include "input/parsers/ansyscdb/parser/cm.h"
#include "input/parsers/ansyscdb/parser/cmblock.h"
#include "input/parsers/ansyscdb/parser/eblock.h"
#include "input/parsers/ansyscdb/parser/esel.h"
#include "input/parsers/ansyscdb/parser/nsel.h"
#include "input/parsers/ansyscdb/parser/et.h"
#include "input/parsers/ansyscdb/parser/nblock.h"
#include "input/parsers/ensight/ensight.h"
#include "input/parsers/vtklegacy/vtklegacy.h"
#include "input/parsers/netgen/netgen.h"
#include "input/parsers/neper/neper.h"
#include <unistd.h>
#include <cstdarg>
using namespace ml;
using namespace espreso;

// The size of the smallest part of a file read by a process is 64 KiB; it is decreased in order to cut small files at every position.
static size_t g_chunk = 64 * 1024, g_overlap = 1024;
namespace espreso {
InputFilePack::InputFilePack(size_t minchunk, size_t overlap): fileindex((size_t)-1), minchunk(std::min(minchunk, g_chunk)), overlap(std::min(overlap, g_overlap)) { }
}

static std::string scratch;
static std::string fmt(const char *f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

enum Format { ENSA, ENSB, VTK, NETGEN, NEPER, CDB, PACK, NFMT };
static const char *fname[] = { "EnSight (ASCII)", "EnSight (binary)", "VTK legacy", "Netgen", "Neper", "ANSYS CDB", "files" };
static const char *fecf[] = { "ENSIGHT", "ENSIGHT", "VTK_LEGACY", "NETGEN", "NEPER", "ANSYS_CDB", "ENSIGHT" };

struct Case {
    int format = 0, kind = 0, nx = 2, ny = 1, nz = 1; bool quad = false; int variant = 0; int n = 1, limit = 0; size_t chunk = 64 * 1024, overlap = 1024, stripe = 0; int loader = 0, threads = 1; bool rdv = false, crlf = false, full = false; std::vector<size_t> sizes;
    std::string show() const {
        static const char *kn[] = { "hexa", "tetra", "prism", "pyramid", "mixed", "square", "triangle", "mixed2d" }, *ln[] = { "MPI", "MPI_COLLECTIVE", "POSIX" };
        std::string s = std::string(fname[format]) + ": ";
        if (format == PACK) { s += "sizes"; for (size_t z : sizes) s += " " + std::to_string(z); }
        else s += std::string(kn[kind]) + " " + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + (quad ? " quadratic" : "") + ", variant " + std::to_string(variant);
        s += ", processes " + std::to_string(n) + ", readers limit " + std::to_string(limit) + ", least part " + std::to_string(chunk) + ", overlap " + std::to_string(overlap) + ", stripe " + std::to_string(stripe) + ", loader " + ln[loader] + ", threads " + std::to_string(threads) + (crlf ? ", CRLF" : "") + (rdv ? ", unbuffered" : "") + (full ? ", complete loading" : "");
        return s;
    }
};

static RMesh build(const Case &c) {
    RMesh m = grid(c.kind, c.nx, c.ny, c.nz); double mx = 0; for (auto &p : m.c) mx = std::max(mx, p[0]);
    addBoundary(m, "X0", 0, 0); addBoundary(m, "XMAX", 0, mx);
    addNodeRegion(m, "NX", [](const P3 &p) { return p[0] == 0.5; }); addNodeRegion(m, "CORNER", [](const P3 &p) { return p[0] == 0 && p[1] == 0 && p[2] == 0; });
    addElemRegion(m, "EVEN", [](int i) { return i % 2 == 0; }); addElemRegion(m, "ODD", [](int i) { return i % 2 == 1; });
    for (size_t i = 0; i < m.e.size(); i++) m.e[i].material = c.format == CDB ? (i / 2) % 3 : 0;
    if (c.quad) m = quadratic(m);
    for (auto &p : m.c) { p[0] = p[0] * 0.375 - 0.75; p[1] = p[1] * 12.5 + 1; if (m.dim == 3) p[2] = p[2] * 0.0625; }
    return m;
}

struct Db { std::vector<std::pair<std::string, std::string>> files; std::string path; RMesh m; long nodes = 0; std::string ecf; };

static std::vector<int> order(const RMesh &m, int variant) { // arbitrary order of elements in files
    std::vector<int> o(m.e.size()); std::iota(o.begin(), o.end(), 0); if (variant % 2) std::reverse(o.begin(), o.end()); return o;
}
static Db ensight(const Case &c, bool binary) {
    Db d; d.m = build(c); RMesh &m = d.m; std::string g;
    static const char *tn[] = { "point", "bar2", "tria3", "quad4", "tetra4", "pyramid5", "penta6", "hexa8", "bar3", "tria6", "quad8", "tetra10", "pyramid13", "penta15", "hexa20" };
    static const char *ids[] = { "off", "given", "assign", "ignore" }; int nid = c.variant % 4, eid = (c.variant / 4) % 4;
    auto str = [&](const std::string &s) { if (binary) { std::string t = s; t.resize(80, 0); g += t; } else g += s + "\n"; };
    auto in = [&](int v) { if (binary) g.append((const char*)&v, 4); else g += fmt("%10d", v); };
    auto nl = [&] { if (!binary) g += "\n"; };
    auto fl = [&](float v) { if (binary) g.append((const char*)&v, 4); else g += fmt("%12.5e\n", v); };
    if (binary) str("C Binary"); str("EnSight Gold geometry format"); str("----------------------------"); str(std::string("node id ") + ids[nid]); str(std::string("element id ") + ids[eid]);
    static const char *names[][6] = { { "X0", "XMAX", "EVEN", "ODD", "NX", "CORNER" }, { "particles", "endpoint", "quad4block", "tetra_4", "points", "coordinates_x" } };
    const char **nm = names[(c.variant / 16) % 2];
    if ((c.variant / 16) % 2) { static const char *from[] = { "X0", "XMAX", "EVEN", "ODD" }; std::map<std::string, std::vector<int>> e, n; for (int i = 0; i < 4; i++) e[nm[i]] = m.ereg[from[i]]; n[nm[4]] = m.nreg["NX"]; n[nm[5]] = m.nreg["CORNER"]; m.ereg = e; m.nreg = n; }
    int part = 0; std::vector<int> po = { 0, 1, 2, 3, 4, 5 }; if ((c.variant / 32) % 2) po = { 4, 2, 0, 5, 1, 3 };
    for (int p : po) {
        bool node = p >= 4; auto &list = node ? m.nreg[nm[p]] : m.ereg[nm[p]];
        std::vector<int> nodes; std::map<int, int> loc; auto add = [&](int n) { if (loc.insert({ n, (int)nodes.size() }).second) nodes.push_back(n); };
        if (node) for (int i : list) add(i); else for (int i : list) for (int n : m.e[i].n) add(n);
        if (c.variant & 64) { std::reverse(nodes.begin(), nodes.end()); for (size_t i = 0; i < nodes.size(); i++) loc[nodes[i]] = i; }
        str("part"); in(++part); nl(); str(nm[p]); str("coordinates"); in(nodes.size()); nl(); d.nodes += nodes.size();
        if (nid == 1 || nid == 3) for (int n : nodes) { in(n + 1); nl(); }
        for (int k = 0; k < 3; k++) for (int n : nodes) fl(m.c[n][k]);
        if (node) { str("point"); in(list.size()); nl(); if (eid == 1 || eid == 3) for (int i : list) { in(i + 1); nl(); } for (int i : list) { in(loc[i] + 1); nl(); } }
        else { std::vector<int> codes; for (int i : list) if (std::find(codes.begin(), codes.end(), m.e[i].code) == codes.end()) codes.push_back(m.e[i].code); for (int code : codes) { int k = 0; for (int i : list) k += m.e[i].code == code; str(tn[code]); in(k); nl(); if (eid == 1 || eid == 3) for (int i : list) if (m.e[i].code == code) { in(i + 1); nl(); } for (int i : list) if (m.e[i].code == code) { for (int n : m.e[i].n) in(loc[n] + 1); nl(); } } }
    }
    d.files = { { "m.case", "# comment\n\nFORMAT\ntype: ensight gold\n\nGEOMETRY\nmodel: m.geo\n\nVARIABLES\n" }, { "m.geo", g } }; d.path = "m.case"; return d;
}
static Db vtk(const Case &c) {
    Db d; d.m = build(c); RMesh &m = d.m; static const int vt[] = { 1, 3, 5, 9, 10, 14, 13, 12, 21, 22, 23, 24, 27, 26, 25 };
    std::vector<std::pair<std::string, int>> parts; for (auto &r : m.ereg) parts.push_back({ r.first, 0 }); for (auto &r : m.nreg) parts.push_back({ r.first, 1 });
    for (auto &p : parts) {
        auto &list = p.second ? m.nreg[p.first] : m.ereg[p.first]; std::vector<int> nodes; std::map<int, int> loc; auto add = [&](int n) { if (loc.insert({ n, (int)nodes.size() }).second) nodes.push_back(n); };
        if (p.second) for (int i : list) add(i); else for (int i : list) for (int n : m.e[i].n) add(n);
        if (c.variant & 1) { std::reverse(nodes.begin(), nodes.end()); for (size_t i = 0; i < nodes.size(); i++) loc[nodes[i]] = i; }
        std::string s = "# vtk DataFile Version 2.0\nEXAMPLE\nASCII\nDATASET UNSTRUCTURED_GRID\n" + std::string(c.variant & 2 ? "\n\n" : "") + fmt("POINTS %d float\n", (int)nodes.size()); d.nodes += nodes.size();
        size_t k = 0; for (int n : nodes) { s += fmt(c.variant & 4 ? "%.9e %.9e %.9e" : "%g %g %g", m.c[n][0], m.c[n][1], m.c[n][2]); s += (c.variant & 8) && ++k % 3 ? " " : "\n"; } if (s.back() == ' ') s.back() = '\n';
        size_t size = 0; for (int i : list) size += 1 + (p.second ? 1 : m.e[i].n.size()); s += std::string(c.variant & 2 ? "\n" : "") + fmt("CELLS %d %d\n", (int)list.size(), (int)size);
        for (int i : list) { if (p.second) s += fmt("1 %d\n", loc[i]); else { s += fmt("%d", (int)m.e[i].n.size()); for (int n : m.e[i].n) s += fmt(" %d", loc[n]); s += "\n"; } }
        s += std::string(c.variant & 2 ? "\n" : "") + fmt("CELL_TYPES %d\n", (int)list.size()); for (int i : list) s += fmt("%d\n", p.second ? 1 : vt[m.e[i].code]);
        if (c.variant & 16) { s += fmt("\nPOINT_DATA %d\nSCALARS a float 1\nLOOKUP_TABLE default\n", (int)nodes.size()); for (size_t i = 0; i < nodes.size(); i++) s += fmt("%g\n", i * 0.5); s += fmt("CELL_DATA %d\nSCALARS b int 1\nLOOKUP_TABLE default\n", (int)list.size()); for (size_t i = 0; i < list.size(); i++) s += fmt("%d\n", (int)i); }
        d.files.push_back({ "m." + p.first + ".vtk", s });
    }
    d.path = "m.*.vtk"; return d;
}
static Db netgen(const Case &c) {
    Db d; d.m = build(c); RMesh &m = d.m; d.nodes = m.c.size(); m.nreg.clear(); std::vector<std::string> er = { "EVEN", "ODD" }, br = { "X0", "XMAX" };
    std::map<std::string, std::vector<int>> reg; std::string s = fmt("%d\n", (int)m.c.size()); const char *sep = c.variant & 1 ? "   " : " ";
    for (auto &p : m.c) s += fmt("%s%.10g%s%.10g%s%.10g\n", c.variant & 1 ? "  " : "", p[0], sep, p[1], sep, p[2]);
    int ne = 0, nb = 0; for (auto &e : m.e) (e.code == TETRA4 ? ne : nb)++;
    auto find = [&](int i, std::vector<std::string> &v) { for (size_t k = 0; k < v.size(); k++) if (std::find(m.ereg[v[k]].begin(), m.ereg[v[k]].end(), i) != m.ereg[v[k]].end()) return (int)k + 1; return (int)v.size() + 1; };
    s += fmt("%d\n", ne); for (int i : order(m, c.variant / 2)) if (m.e[i].code == TETRA4) { int r = find(i, er); s += fmt("%s%d", c.variant & 1 ? "   " : "", r); for (int n : m.e[i].n) s += sep + std::to_string(n + 1); s += "\n"; reg["ELEMENTS_" + std::to_string(r)].push_back(i); }
    s += fmt("%d\n", nb); for (int i : order(m, c.variant / 2)) if (m.e[i].code == TRIANGLE3) { int r = find(i, br); s += fmt("%s%d", c.variant & 1 ? "   " : "", r); for (int n : m.e[i].n) s += sep + std::to_string(n + 1); s += "\n"; reg["BOUNDARY_" + std::to_string(r)].push_back(i); }
    m.ereg = reg; d.files = { { "m.mesh", s } }; d.path = "m.mesh"; return d;
}
static Db neper(const Case &c) {
    Db d; d.m = build(c); RMesh &m = d.m; d.nodes = m.c.size(); static const int gt[] = { 15, 1, 2, 3, 4, 0, 6, 5, 8, 9, 16, 11, 0, 18, 17 };
    std::vector<int> id(m.c.size()); for (size_t i = 0; i < id.size(); i++) id[i] = c.variant & 1 ? (int)(m.c.size() - i) * 3 + 4 : i + 1;
    std::string s = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$MeshVersion\n2.2.1\n$EndMeshVersion\n" + fmt("$Nodes\n%d\n", (int)m.c.size()); for (size_t i = 0; i < m.c.size(); i++) s += fmt("%d %.12f %.12f %.12f\n", id[i], m.c[i][0], m.c[i][1], m.c[i][2]);
    s += "$EndNodes\n"; std::map<std::string, std::vector<int>> er; int npoly = c.variant & 2 ? 12 : 2; std::string el; int k = 0, ne = 0;
    auto add = [&](const El &e, int tag) { el += fmt("%d %d 3 %d %d 0", ++ne, gt[e.code], tag, tag); std::vector<int> n = e.n; if (e.code == TETRA10) std::swap(n[8], n[9]); if (e.code == HEXA20) { std::vector<int> g = { 0,1,2,3,4,5,6,7, 8,11,16,9,17,10,18,19,12,15,13,14 }; std::vector<int> t; for (int q : g) t.push_back(e.n[q]); n = t; } if (e.code == PRISMA15) { std::vector<int> g = { 0,1,2,3,4,5, 6,8,12,7,13,14,9,11,10 }, t; for (int q : g) t.push_back(e.n[q]); n = t; } for (int q : n) el += fmt(" %d", id[q]); el += "\n"; };
    for (int i = 0; i < 3; i++) { El e; e.code = POINT1; e.n = { i }; add(e, i + 1); }
    std::vector<El> keep; std::vector<int> map(m.e.size(), -1); for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) < 3) add(m.e[i], i + 1);
    for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) == 3) { int t = 1 + k++ % npoly; add(m.e[i], t); map[i] = keep.size(); er["poly" + std::to_string(t)].push_back(keep.size()); keep.push_back(m.e[i]); }
    s += fmt("$Elements\n%d\n", ne) + el + "$EndElements\n"; npoly = std::min(npoly, (int)er.size());
    std::map<std::string, std::vector<int>> nr = m.nreg; for (auto &q : m.ereg) if (q.first[0] == 'X') { std::set<int> v; for (int i : q.second) for (int n : m.e[i].n) v.insert(n); nr[q.first].assign(v.begin(), v.end()); }
    m.nreg = nr; m.e = keep; s += fmt("$NSets\n%d\n", (int)nr.size()); for (auto &q : nr) { s += q.first + fmt("\n%d\n", (int)q.second.size()); for (int n : q.second) s += fmt("%d\n", id[n]); } s += "$EndNSets\n";
    if (c.variant & 4) { s += "$Fasets\n1\nf0\n2\n7 1 2 3\n8 2 3 4\n$EndFasets\n"; }
    s += fmt("$PhysicalNames\n%d\n", npoly); for (int i = 1; i <= npoly; i++) s += fmt("3 %d poly%d\n", i, i); s += "$EndPhysicalNames\n";
    s += fmt("$ElsetOrientations\n%d rodrigues:active\n", npoly); for (int i = 1; i <= npoly; i++) s += fmt("%d    %.12f    %.12f   %.12f\n", i, 0.25 * i, -0.5, 1.0 / i); s += "$EndElsetOrientations\n";
    if (c.variant & 8) { s += fmt("$Groups\nelset\n%d\n", npoly); for (int i = 1; i <= npoly; i++) { int g = 1 + i % 2; s += fmt("%d %d\n", i, g); auto &v = er["GROUP_" + std::to_string(g)]; auto &w = er["poly" + std::to_string(i)]; v.insert(v.end(), w.begin(), w.end()); std::sort(v.begin(), v.end()); } s += "$EndGroups\n"; }
    if (c.full) for (auto it = er.begin(); it != er.end(); ) it = it->first[0] == 'p' ? er.erase(it) : std::next(it); // regions are replaced by orientations of elements
    m.ereg = er; d.files = { { "m.msh", s } }; d.path = "m.msh"; return d;
}
static Db cdb(const Case &c) {
    Db d; d.m = build(c); RMesh &m = d.m; d.nodes = m.c.size(); d.ecf = "KEEP_MATERIAL_SETS TRUE; "; int w = c.variant & 1 ? 10 : 8, step = c.variant & 2 ? 3 : 1; auto U = [&](std::string s) { if (c.variant & 4) for (auto &x : s) x = toupper(x); return s; };
    std::string s = "/COM,ANSYS RELEASE 18.0\n/PREP7\n/NOPR\n"; auto id = [&](int n) { return n * step + 5; }; auto eid = [&](int n) { return n * step + 2; };
    auto shape = [&](int code) { switch (code) { case TRIANGLE3: case SQUARE4: return 182; case TRIANGLE6: case SQUARE8: return 183; case TETRA4: return c.variant & 8 ? 285 : 185; case TETRA10: return c.variant & 8 ? 187 : 186; case PYRAMID5: case PRISMA6: case HEXA8: return 185; case PYRAMID13: case PRISMA15: case HEXA20: return 186; } return 0; };
    std::vector<int> types; for (auto &e : m.e) if (edim(e.code) == m.dim) { int t = shape(e.code); if (std::find(types.begin(), types.end(), t) == types.end()) types.push_back(t); }
    for (size_t i = 0; i < types.size(); i++) s += U("et") + fmt(",%d,%d\n", (int)i + 1, types[i]);
    s += U("nblock") + fmt(",3,,%d,%d\n(3i%d,6e21.13e3)\n", id(m.c.size() - 1), (int)m.c.size(), w);
    for (size_t i = 0; i < m.c.size(); i++) { s += fmt("%*d%*d%*d", w, id(i), w, 0, w, 0); int last = 3; if (c.variant & 16) while (last && m.c[i][last - 1] == 0) --last; for (int k = 0; k < last; k++) { std::string t = fmt("%.13e", m.c[i][k]); size_t e = t.find('e'); t = t.substr(0, e) + "E" + t[e + 1] + "0" + t.substr(e + 2); s += std::string(21 - t.size(), ' ') + t; } s += "\n"; }
    s += "N,R5.3,LOC,       -1,\n" + U("eblock") + fmt(",19,%s,%d,%d\n(19i%d)\n", "solid", eid(m.e.size()), m.volumes(), w);
    auto nodes = [&](int code, const std::vector<int> &n) -> std::vector<int> {
        auto P = [&](std::initializer_list<int> l) { std::vector<int> v; for (int i : l) v.push_back(n[i]); return v; };
        switch (code) { case TRIANGLE3: return P({ 0,1,2,2 }); case TRIANGLE6: return P({ 0,1,2,2,3,4,2,5 }); case TETRA4: return c.variant & 8 ? n : P({ 0,1,2,2,3,3,3,3 }); case PYRAMID5: return P({ 0,1,2,3,4,4,4,4 }); case PRISMA6: return P({ 0,1,2,2,3,4,5,5 });
        case TETRA10: return c.variant & 8 ? n : P({ 0,1,2,2,3,3,3,3, 4,5,2,6,3,3,3,3,7,8,9,9 }); case PYRAMID13: return P({ 0,1,2,3,4,4,4,4, 5,6,7,8,4,4,4,4,9,10,11,12 }); case PRISMA15: return P({ 0,1,2,2,3,4,5,5, 6,7,2,8,9,10,5,11,12,13,14,14 }); }
        return n;
    };
    for (int i : order(m, c.variant / 32)) { auto &e = m.e[i]; if (edim(e.code) != m.dim) continue; auto v = nodes(e.code, e.n); int t = std::find(types.begin(), types.end(), shape(e.code)) - types.begin() + 1; int head[] = { e.material + 1, t, 1, 1, 0, 0, 0, 0, (int)v.size(), 0, eid(i) }; for (int h : head) s += fmt("%*d", w, h); for (size_t k = 0; k < v.size(); k++) { if (k == 8) s += "\n"; s += fmt("%*d", w, id(v[k])); } s += "\n"; }
    s += fmt("%*d\n", w, -1);
    std::vector<int> bnd; for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) < m.dim) bnd.push_back(i);
    if (m.dim == 3) { s += U("eblock") + fmt(",10,,,%d\n(15i%d)\n", (int)bnd.size(), w); for (int i : bnd) { auto &e = m.e[i]; auto v = nodes(e.code, e.n); int head[] = { eid(i), 1, 1, e.material + 1, 0 }; for (int h : head) s += fmt("%*d", w, h); for (int n : v) s += fmt("%*d", w, id(n)); s += "\n"; } s += fmt("%*d\n", w, -1); }
    else { std::vector<El> keep; for (auto &e : m.e) if (edim(e.code) == m.dim) keep.push_back(e); m.e = keep; m.ereg.erase("X0"); m.ereg.erase("XMAX"); }
    auto block = [&](const std::string &name, const char *type, std::vector<int> v) { std::sort(v.begin(), v.end()); std::vector<int> o; for (size_t i = 0; i < v.size(); ) { size_t k = i; while (k + 1 < v.size() && v[k + 1] == v[k] + 1) ++k; o.push_back(v[i]); if (k > i + 1 || (k > i && (c.variant & 64))) o.push_back(-v[k]); else if (k > i) o.push_back(v[k]); i = k + 1; } s += U("cmblock") + fmt(",%s,%s,%d\n(8i10)\n", name.c_str(), type, (int)o.size()); for (size_t i = 0; i < o.size(); i++) s += fmt("%10d", o[i]) + ((i + 1) % 8 == 0 || i + 1 == o.size() ? "\n" : ""); };
    for (auto &r : m.nreg) { std::vector<int> v; for (int i : r.second) v.push_back(id(i)); block(r.first, "NODE", v); }
    for (auto &r : m.ereg) { std::vector<int> v; for (int i : r.second) v.push_back(eid(i)); block(r.first, "ELEM", v); }
    { std::vector<int> v; for (size_t i = 0; i < m.c.size(); i++) if (i % 7 != 3) { v.push_back(id(i)); m.nreg["MANY"].push_back(i); } block("MANY", "NODE", v); }
    if (m.dim == 2 || types.size() > 1) for (size_t t = 0; t < types.size(); t++) { s += U("esel,s,type") + fmt(",,%d\n", (int)t + 1) + U("cm") + fmt(",TYPE%d,ELEM\n", (int)t + 1); for (size_t i = 0; i < m.e.size(); i++) if (edim(m.e[i].code) == m.dim && shape(m.e[i].code) == types[t]) m.ereg["TYPE" + std::to_string(t + 1)].push_back(i); }
    s += "esel,all\nFINISH\n"; d.files = { { "m.dat", s } }; d.path = "m.dat"; return d;
}

static double R4(double x) { double y = std::round(x * 1e6) / 1e6; return y == 0 ? 0 : y; }

// arrays given by the loader, before the mesh is built
static std::string dumpLoader(MeshBuilder &b) {
    Out o; o.vi(b.nIDs); o.i(b.coordinates.size()); for (auto &p : b.coordinates) { o.d(p.x); o.d(p.y); o.d(p.z); } o.vi(b.eIDs); o.vi(b.esize); o.vi(b.etype); o.vi(b.enodes); o.vi(b.material); o.vi(b.body);
    o.i(b.eregions.size()); for (auto &r : b.eregions) { o.str(r.first); o.vi(r.second); } o.i(b.nregions.size()); for (auto &r : b.nregions) { o.str(r.first); o.vi(r.second); }
    o.i(b.orientation.size()); for (auto &r : b.orientation) { o.str(r.first); o.d(r.second.x); o.d(r.second.y); o.d(r.second.z); }
    return o.s;
}
static std::string checkLoader(const Case &c, const Db &db, const mc::Exec &e) {
    std::map<long, P3> node; std::map<EKey, std::vector<std::pair<long, int>>> elem; std::map<long, EKey> byid; long nodes = 0, elems = 0; std::map<std::string, std::vector<long>> er, nr; std::vector<std::pair<long, std::pair<int, std::pair<int, std::vector<long>>>>> raw; std::string names0;
    for (size_t r = 0; r < e.report.size(); r++) {
        std::string R = "process " + std::to_string(r) + ": "; In i(e.report[r]); auto nid = i.vi(); long nc = i.i(); std::vector<P3> co; for (long k = 0; k < nc; k++) { P3 p; for (int d = 0; d < 3; d++) p[d] = R4(i.d()); co.push_back(p); }
        auto eid = i.vi(), es = i.vi(), et = i.vi(), en = i.vi(), mat = i.vi(), body = i.vi(); if (nid.size() != co.size()) return R + std::to_string(nid.size()) + " node numbers for " + std::to_string(co.size()) + " coordinates";
        if (eid.size() != es.size() || es.size() != et.size() || mat.size() != es.size() || body.size() != es.size()) return R + "inconsistent sizes of element data";
        for (size_t k = 0; k < nid.size(); k++) { if (!node.insert({ nid[k], co[k] }).second) return R + "node number " + std::to_string(nid[k]) + " is repeated"; nodes++; }
        size_t off = 0; for (size_t k = 0; k < es.size(); k++) { if (off + es[k] > en.size()) return R + "missing nodes of elements"; raw.push_back({ eid[k], { et[k], { mat[k], std::vector<long>(en.begin() + off, en.begin() + off + es[k]) } } }); off += es[k]; elems++; } if (off != en.size()) return R + "redundant nodes of elements";
        std::string names; long q = i.i(); for (long k = 0; k < q; k++) { auto s = i.str(); names += s + ","; auto v = i.vi(); er[s].insert(er[s].end(), v.begin(), v.end()); if (!std::is_sorted(v.begin(), v.end())) return R + "numbers of elements of region " + s + " are not sorted"; } names += ";"; q = i.i(); for (long k = 0; k < q; k++) { auto s = i.str(); names += s + ","; auto v = i.vi(); nr[s].insert(nr[s].end(), v.begin(), v.end()); }
        q = i.i(); if (q != (c.format == NEPER ? (c.variant & 2 ? std::min<long>(12, db.m.volumes()) : 2) : 0)) return R + "wrong number of orientations"; for (long k = 0; k < q; k++) { auto s = i.str(); double x = i.d(), y = i.d(), z = i.d(); int p = atoi(s.c_str() + 4); if (s != "poly" + std::to_string(p) || std::fabs(x - 0.25 * p) > 1e-9 || y != -0.5 || std::fabs(z - 1.0 / p) > 1e-9) return R + "wrong orientation of " + s; }
        if (!i.ok()) return "harness: broken report"; if (r == 0) names0 = names; else if (names != names0) return R + "names of regions '" + names + "' differ from process 0: '" + names0 + "'";
    }
    if (nodes != db.nodes) return std::to_string(nodes) + " nodes instead of " + std::to_string(db.nodes);
    std::set<P3> have, exp; for (auto &q : node) have.insert(q.second); for (auto p : db.m.c) { for (auto &x : p) x = R4(x); exp.insert(p); } for (auto &p : have) if (!exp.count(p)) return fmt("node (%g,%g,%g) is not in the database", p[0], p[1], p[2]);
    for (auto &p : exp) if (!have.count(p)) { bool used = c.format != ENSA && c.format != ENSB && c.format != VTK; for (auto &q : db.m.e) for (int n : q.n) { P3 t = db.m.c[n]; for (auto &x : t) x = R4(x); used |= t == p; } if (used) return fmt("node (%g,%g,%g) is lost", p[0], p[1], p[2]); }
    for (auto &q : raw) { EKey k; k.first = q.second.first; if (k.first < 0 || k.first >= NCODES) return "unknown element code"; for (long n : q.second.second.second) { if (!node.count(n)) return "element with unknown node " + std::to_string(n); k.second.push_back(node[n]); } elem[k].push_back({ q.first, q.second.second.first }); if (!byid.insert({ q.first, k }).second) return "element number " + std::to_string(q.first) + " is repeated"; }
    auto key6 = [&](const El &x) { EKey k = key(db.m, x); for (auto &p : k.second) for (auto &v : p) v = R4(v); return k; };
    if (elems != (long)db.m.e.size()) return std::to_string(elems) + " elements instead of " + std::to_string(db.m.e.size());
    for (auto &x : db.m.e) { auto k = key6(x); if (!elem.count(k)) return "lost element " + show(k); if (elem[k].size() != 1) return "repeated element"; if (elem[k][0].second != x.material) return "element with a wrong material " + std::to_string(elem[k][0].second) + ": " + show(k); }
    for (auto &q : db.m.ereg) { if (!er.count(q.first)) return "lost region " + q.first; std::set<EKey> a, b; for (int i : q.second) a.insert(key6(db.m.e[i])); if (er[q.first].size() != a.size()) return "region " + q.first + " has " + std::to_string(er[q.first].size()) + " elements instead of " + std::to_string(a.size()); for (long i : er[q.first]) { if (!byid.count(i)) return "region " + q.first + " with an unknown element " + std::to_string(i); b.insert(byid[i]); } if (a != b) return "wrong elements of region " + q.first; }
    for (auto &q : db.m.nreg) { if (!nr.count(q.first)) return "lost region " + q.first; std::set<P3> a, b; for (int i : q.second) { P3 p = db.m.c[i]; for (auto &x : p) x = R4(x); a.insert(p); } if (nr[q.first].size() != a.size()) return "region " + q.first + " has " + std::to_string(nr[q.first].size()) + " nodes instead of " + std::to_string(a.size()); for (long i : nr[q.first]) { if (!node.count(i)) return "region " + q.first + " with an unknown node " + std::to_string(i); b.insert(node[i]); } if (a != b) return "wrong nodes of region " + q.first; }
    for (auto &q : er) if (!db.m.ereg.count(q.first)) return "unexpected region " + q.first; for (auto &q : nr) if (!db.m.nreg.count(q.first)) return "unexpected region " + q.first;
    return "";
}

static std::string content(size_t k, size_t size) { std::string s(size, 0); for (size_t i = 0; i < size; i++) s[i] = (char)(33 + (i * 7 + i / 90 * 5 + k * 11) % 90); return s; }

static std::string runCase(const Case &c, mc::Stats &st) {
    Db db; switch (c.format) { case ENSA: db = ensight(c, false); break; case ENSB: db = ensight(c, true); break; case VTK: db = vtk(c); break; case NETGEN: db = netgen(c); break; case NEPER: db = neper(c); break; case CDB: db = cdb(c); break; case PACK: for (size_t i = 0; i < c.sizes.size(); i++) db.files.push_back({ "f" + std::to_string(i), content(i, c.sizes[i]) }); break; }
    std::string dir = scratch + "/" + std::to_string(getpid()), data = dir + "/data", ecf = dir + "/e.ecf"; mkdir(dir.c_str(), 0755); if (system(("rm -rf '" + data + "'").c_str())) {} mkdir(data.c_str(), 0755);
    for (auto &f : db.files) { std::ofstream o(data + "/" + f.first, std::ios::binary); if (c.crlf) { for (char x : f.second) { if (x == '\n') o << '\r'; o << x; } } else o << f.second; }
    static const char *ln[] = { "MPI", "MPI_COLLECTIVE", "POSIX" };
    { std::ofstream f(ecf); f << "INPUT { FORMAT " << fecf[c.format] << "; PATH " << data << "/" << db.path << "; CONVERT_DATABASE TRUE; LOADER " << ln[c.loader] << "; " << (c.stripe ? "STRIPE_SIZE " + std::to_string(c.stripe) + "; " : "") << (c.limit ? "THIRD_PARTY_SCALABILITY_LIMIT " + std::to_string(c.limit) + "; " : "") << db.ecf << "DECOMPOSITION { PARALLEL_DECOMPOSER NONE; DOMAINS 2; } } OUTPUT { PATH results; LOG_DIR " << dir << "/results; } PHYSICS HEAT_TRANSFER; "; }
    mc::Opt o; o.n = c.n; o.rendezvous = c.rdv; o.out = dir + "/out.txt"; o.leftover = true; o.cpulimit = 30; g_chunk = c.chunk; g_overlap = c.overlap;
    auto e = mc::run(o, {}, [&](int) {
        if (chdir(dir.c_str())) {} setenv("OMP_NUM_THREADS", std::to_string(c.threads).c_str(), 1); setupRank(ecf);
        if (c.format == PACK) {
            Out out; InputFilePack pack(c.chunk, c.overlap); std::vector<std::string> p; for (auto &f : db.files) p.push_back(data + "/" + f.first); pack.commitFiles(p); pack.prepare(); pack.read();
            while (pack.next()) { out.i(pack.distribution[info::mpi::rank]); out.i(pack.distribution[info::mpi::rank + 1]); out.i(pack.distribution.back()); out.str(std::string(pack.begin, pack.end)); out.str(std::string(pack.end, pack.hardend)); }
            pack.clear(); mc::report(out.s);
        } else if (c.full) { info::mesh->dimension = db.m.dim; info::mesh->load(); info::mesh->preprocess(); mc::report(dump()); }
        else {
            MeshBuilder *b = NULL; switch (c.format) { case ENSA: case ENSB: b = new EnsightLoader(info::ecf->input); break; case VTK: b = new VTKLegacyLoader(info::ecf->input); break; case NETGEN: b = new NetgenNeutralLoader(info::ecf->input); break; case NEPER: b = new NeperLoader(info::ecf->input); break; case CDB: b = new AnsysCDBLoader(info::ecf->input); break; }
            b->load(); mc::report(dumpLoader(*b)); delete b;
        }
        finishRank();
    }, st);
    if (e.bad()) { std::ifstream f(o.out); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str(); std::string tail; for (size_t p = t.find("ERROR"); p != std::string::npos && tail.size() < 600; p = t.find("ERROR", p + 1)) tail += t.substr(p, t.find('\n', p) - p) + "\n"; return c.show() + "\n" + e.msg + "\n" + tail + t.substr(t.size() > (getenv("MC_BT") ? 6000u : 400u) ? t.size() - (getenv("MC_BT") ? 6000u : 400u) : 0); }
    mc::counter("cases", 1); std::string f;
    if (c.format == PACK) {
        std::vector<In> in; for (auto &s : e.report) in.emplace_back(s);
        for (size_t k = 0; k < c.sizes.size() && f.empty(); k++) { const std::string &t = db.files[k].second; size_t pos = 0; for (int r = 0; r < c.n && f.empty(); r++) { size_t a = in[r].i(), b = in[r].i(), tot = in[r].i(); std::string d = in[r].str(), v = in[r].str(), who = "process " + std::to_string(r) + ", file " + std::to_string(k) + ": "; if (a != b && a != pos) f = who + fmt("its part starts at %zu instead of %zu", a, pos); else if (tot != t.size()) f = who + "wrong size of the file"; else if (b < a || d.size() != b - a || d != t.substr(a, b - a)) f = who + "wrong data"; else if (v.size() != c.overlap) f = who + "wrong size of the overlap"; else if (b > a) { std::string x = t.substr(b, c.overlap); size_t own = std::min(x.size(), std::max(c.chunk, (size_t)1)); if (v.substr(0, std::min(own, c.overlap)) != x.substr(0, std::min(own, c.overlap))) f = who + "wrong data behind its part"; pos = b; } } if (f.empty() && pos != t.size()) f = fmt("file %zu: only %zu of %zu characters were read", k, pos, t.size()); }
        mc::counter("chunks", c.n * c.sizes.size());
    } else if (c.full) {
        std::vector<RankMesh> R; for (auto &s : e.report) { bool ok; R.push_back(undump(s, ok)); if (!ok) return "harness: broken dump"; }
        for (auto &m : R) for (auto &d : m.nodes) for (auto &x : d.c) x = R4(x); RMesh m = db.m; for (auto &p : m.c) for (auto &x : p) x = R4(x); Expect x = expect(m); x.materials = c.format == CDB; Opts op; op.bodies = op.domains = false; f = verify(x, R, op);
    } else f = checkLoader(c, db, e);
    return f.size() ? c.show() + "\n" + f : "";
}

static std::vector<Case> cases(bool T) {
    std::vector<Case> v;
    auto supports = [](int f, int k, bool q) { if (f == NETGEN) return k == KTETRA && !q; if (f == NEPER) return k == KHEXA || k == KTETRA || k == KPRISM; if (f == VTK && q && k == KTETRA) return true; return true; };
    // parts of files: all sizes of files up to the bound
    for (int n = 1; n <= (T ? 7 : 5); n++) for (int lim = 1; lim <= n; lim++) for (int ch = 0; ch < 3; ch++) for (int ov = 0; ov < 2; ov++) for (size_t s = 1; s <= (T ? 160u : 60u); s += T ? 1 : 1 + (n + lim + ch) % 3) for (int files = 1; files <= 3; files++) {
        Case c; c.format = PACK; c.n = n; c.limit = lim; c.chunk = ch == 0 ? 4 : ch == 1 ? 7 : 16; c.overlap = ov ? c.chunk : c.chunk / 2; c.stripe = ch == 1 ? 10 : 1 + (s + files) % 5 * 4; c.loader = (s + n + files) % 3; c.sizes = { s }; if (files > 1) c.sizes.push_back(1 + (s * 7 + lim) % 50); if (files > 2) c.sizes.insert(c.sizes.begin(), 1 + (s * 3 + n) % 20); if (!T && (s + files + ov + ch) % 2) continue; v.push_back(c);
    }
    // small databases cut at all positions
    for (int f = ENSA; f < PACK; f++) for (int k = 0; k < 8; k++) for (int q = 0; q < 2; q++) if (supports(f, k, q)) for (int n = 1; n <= (T ? 6 : 4); n++) for (int i = 0; i < (n == 1 ? 6 : T ? 200 : 16); i++) {
        Case c; c.format = f; c.kind = k; c.quad = q; c.n = n; c.overlap = f == CDB ? 600 : f == ENSB ? 200 : 350; c.chunk = c.overlap + (i * 13 + k * 5 + n * 7 + q * 3) % 211; c.variant = (i * 7 + k * 3 + n * 5 + q) % 128; c.nx = 2 + (i + k) % 3; c.ny = 1 + (i + q) % 2; c.nz = 1 + (n + k) % 2; c.limit = i % 3 == 0 ? 0 : 1 + (i + k) % n; c.loader = i % 3; c.threads = 1 + (i + k + n) % 3; c.stripe = 1; c.rdv = i % 5 == 0; v.push_back(c);
        if (i % 5 == 2) { c.full = true; c.nx += 4; c.ny += 1; v.push_back(c); }
        if (i % 8 == 3 && f != ENSA && f != ENSB && f != NETGEN) { c.full = false; c.crlf = true; v.push_back(c); }
    }
    return v;
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C03"; chk::Check ck(prop, argc, argv); ck.level = "model_checking";
    char tmpl[] = "/tmp/mc-load-XXXXXX"; scratch = mkdtemp(tmpl); auto v = cases(ck.thorough()); int rc; if (const char *f = getenv("FORMAT")) { std::vector<Case> w; for (auto &c : v) if (c.format == atoi(f)) w.push_back(c); v = w; }
    if (const char *d = getenv("TASK")) { mc::Stats st; Case c = v.at(atol(d)); if (const char *x = getenv("CHUNK")) c.chunk = atol(x); if (const char *x = getenv("THREADS")) c.threads = atol(x); printf("%s\n", runCase(c, st).c_str()); if (getenv("KEEP")) { printf("%s\n", scratch.c_str()); return 0; } rc = 0; }
    else if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runCase(v.at(atol(l.c_str() + 5)), st); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
    else {
        auto res = mc::parallel(v.size(), getenv("JOBS") ? atoi(getenv("JOBS")) : 8, [&](long k, mc::Stats &st) { return runCase(v[k], st); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
        for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), f.second);
        ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; ck.num["messages"] = res.stats.msgs; ck.num["collectives"] = res.stats.colls; for (auto &c : res.counters) ck.num[c.first] = c.second;
        if ((size_t)res.done < v.size()) ck.exhaustive = false;
        for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
        ck.assumptions = { "MPI semantics (including MPI I/O) as implemented by /verif/mcmpi", "the least part of a file read by a process is decreased from 64 KiB to hundreds of bytes in order to cut small databases at all positions" };
        rc = ck.finish();
    }
    if (scratch.compare(0, 13, "/tmp/mc-load-") == 0) { if (system(("rm -rf '" + scratch + "'").c_str())) {} }
    return rc;
}
