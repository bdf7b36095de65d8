// Comparison of the dumped distributed mesh with the reference mesh.
#pragma once
#include "meshlib.h"

namespace ml {
typedef std::pair<int, std::vector<P3>> EKey;                 // element code + node coordinates in order
inline std::string show(const EKey &k) { std::string s = ename(k.first); for (auto &p : k.second) { char b[80]; snprintf(b, sizeof b, " (%g,%g,%g)", p[0], p[1], p[2]); s += b; } return s; }
inline EKey key(const RMesh &m, const El &e) { EKey k; k.first = e.code; for (int n : e.n) k.second.push_back(m.c[n]); return k; }
inline EKey key(const RankMesh &m, int code, const std::vector<long> &n) { EKey k; k.first = code; for (long i : n) k.second.push_back(m.nodes[i].c); return k; }
inline EKey sorted(EKey k) { std::sort(k.second.begin(), k.second.end()); return k; }

struct Expect {
    int dim = 3;
    bool nameless = true;
    std::map<EKey, std::vector<std::pair<int,int>>> elems;     // volume elements -> (body, material) ignored when -1
    std::set<P3> nodes;
    std::map<std::string, std::set<EKey>> ereg;                // element regions
    std::map<std::string, std::set<EKey>> breg;                // boundary regions (sorted node sets)
    std::map<std::string, std::set<P3>> nreg;
    bool materials = false;
    std::map<EKey, int> material;
    int omitMid = 0;
};
inline Expect expect(const RMesh &m) {
    Expect x; x.dim = m.dim;
    for (auto &e : m.e) if (edim(e.code) == m.dim) { auto k = key(m, e); x.elems[k].push_back({ e.body, e.material }); x.material[k] = e.material; for (int n : e.n) x.nodes.insert(m.c[n]); }
    for (auto &r : m.ereg) { if (r.second.empty()) continue; int d = edim(m.e[r.second[0]].code); for (int i : r.second) { if (d == m.dim) x.ereg[r.first].insert(key(m, m.e[i])); else x.breg[r.first].insert(sorted(key(m, m.e[i]))); } }
    for (auto &r : m.nreg) for (int i : r.second) if (x.nodes.count(m.c[i])) x.nreg[r.first].insert(m.c[i]);
    return x;
}

struct Opts { bool bodies = true; bool faceNeighbors = true; bool domains = true; bool stats = true; bool feti = false; bool separateRegions = false, separateMaterials = false, continuous = false; bool unusedNodes = false; };

inline std::string verify(const Expect &x, const std::vector<RankMesh> &R, Opts opt = {}) {
    int n = R.size(); auto S = [](long v) { return std::to_string(v); };
#define FAIL(text) return std::string(text)
    // elements: every element exactly once, on exactly one process
    std::map<EKey, std::vector<std::pair<int,int>>> where; long total = 0;
    for (int r = 0; r < n; r++) {
        auto &m = R[r]; if (m.dim != x.dim) FAIL("wrong dimension");
        for (auto &e : m.elems) { if ((int)e.n.size() != enn(e.code)) FAIL("element with a wrong number of nodes on rank " + S(r)); for (long k : e.n) if (k < 0 || k >= (long)m.nodes.size()) FAIL("element with a node out of range on rank " + S(r)); }
        for (size_t k = 0; k < m.elems.size(); k++) { auto q = key(m, m.elems[k].code, m.elems[k].n); where[q].push_back({ r, (int)k }); total++; if (!x.elems.count(q)) FAIL("rank " + S(r) + " has an element that is not in the input: " + show(q)); if (x.materials && x.material.at(q) != m.elems[k].material) FAIL("element with a wrong material: " + show(q)); }
    }
    for (auto &q : x.elems) { if (!where.count(q.first)) FAIL("lost element " + show(q.first)); if (where[q.first].size() != 1) FAIL("element stored " + S(where[q.first].size()) + " times: " + show(q.first)); }
    // element numbering: ranks own consecutive intervals
    long off = 0; std::vector<long> eoff(n + 1);
    for (int r = 0; r < n; r++) { auto &m = R[r]; eoff[r] = off; if (m.ed.size != (long)m.elems.size() || m.ed.offset != off || m.ed.next != off + m.ed.size || m.ed.total != total) FAIL("wrong element distribution on rank " + S(r) + ": offset " + S(m.ed.offset) + " size " + S(m.ed.size) + " next " + S(m.ed.next) + " total " + S(m.ed.total) + ", expected offset " + S(off) + " size " + S(m.elems.size()) + " total " + S(total)); off += m.elems.size(); }
    eoff[n] = off;
    auto codes = [&](const std::vector<std::map<long, long>> &cnt, const std::vector<const std::vector<CodeInfo>*> &ci, const std::string &what) -> std::string {
        std::map<long, long> tot, o; for (auto &c : cnt) for (auto &q : c) tot[q.first] += q.second;
        for (int r = 0; r < n; r++) for (auto &c : *ci[r]) { auto it = cnt[r].find(c.code); long sz = it == cnt[r].end() ? 0 : it->second; if (c.size != sz || c.total != tot[c.code] || (sz && c.offset != o[c.code])) return what + ": wrong distribution of " + ename(c.code) + " on rank " + S(r) + " (offset " + S(c.offset) + " size " + S(c.size) + " total " + S(c.total) + ", expected " + S(o[c.code]) + "," + S(sz) + "," + S(tot[c.code]) + ")"; o[c.code] += sz; }
        return "";
    };
    { std::vector<std::map<long, long>> cnt(n); std::vector<const std::vector<CodeInfo>*> ci; for (int r = 0; r < n; r++) { for (auto &e : R[r].elems) cnt[r][e.code]++; ci.push_back(&R[r].codes); } auto s = codes(cnt, ci, "elements"); if (s.size()) return s; }
    // nodes
    std::map<P3, std::vector<int>> nw;
    for (int r = 0; r < n; r++) { std::set<P3> used, have; for (auto &e : R[r].elems) for (long k : e.n) used.insert(R[r].nodes[k].c); for (auto &d : R[r].nodes) { if (!have.insert(d.c).second) FAIL("two nodes with the same coordinates on rank " + S(r)); nw[d.c].push_back(r); } if (opt.unusedNodes ? !std::includes(have.begin(), have.end(), used.begin(), used.end()) : used != have) FAIL("rank " + S(r) + " stores " + S(have.size()) + " nodes but its elements use " + S(used.size())); }
    { std::set<P3> all; for (auto &q : nw) all.insert(q.first); if (all != x.nodes) FAIL("wrong set of nodes: " + S(all.size()) + " instead of " + S(x.nodes.size())); }
    std::map<P3, long> nid; std::set<long> ids; long noff = 0, ntotal = nw.size();
    for (int r = 0; r < n; r++) {
        auto &m = R[r]; std::vector<long> nb; std::set<long> sn; long halo = 0;
        for (size_t k = 0; k < m.nodes.size(); k++) {
            auto &d = m.nodes[k]; auto &w = nw[d.c]; if (std::vector<long>(w.begin(), w.end()) != d.ranks) { std::string t; for (long q : d.ranks) t += " " + S(q); std::string u; for (long q : w) u += " " + S(q); FAIL("rank " + S(r) + ": node is held by ranks" + u + " but its list says" + t); }
            for (int q : w) if (q != r) sn.insert(q);
            auto it = nid.insert({ d.c, d.id }).first; if (it->second != d.id) FAIL("one node has different IDs on different processes"); ids.insert(d.id);
            if (w[0] < r) halo++; if ((w[0] < r) != ((long)k < m.uniq.nhalo)) FAIL("rank " + S(r) + ": nodes of lower ranks are not stored first");
        }
        nb.assign(sn.begin(), sn.end()); if (nb != m.neigh) FAIL("rank " + S(r) + ": wrong neighbours"); std::set<long> me = sn; me.insert(r); if (std::vector<long>(me.begin(), me.end()) != m.neighMe) FAIL("rank " + S(r) + ": wrong neighboursWithMe");
        long own = m.nodes.size() - halo; if (m.uniq.nhalo != halo || m.uniq.size != own || m.uniq.offset != noff || m.uniq.total != ntotal) FAIL("rank " + S(r) + ": wrong unique node distribution (halo " + S(m.uniq.nhalo) + " offset " + S(m.uniq.offset) + " size " + S(m.uniq.size) + " total " + S(m.uniq.total) + ", expected " + S(halo) + "," + S(noff) + "," + S(own) + "," + S(ntotal) + ")"); noff += own;
    }
    if ((long)ids.size() != ntotal) FAIL("different nodes share one ID");
    // face neighbours
    std::map<std::vector<P3>, std::vector<long>> fm;
    if (opt.faceNeighbors) {
        auto each = [&](int r, size_t k, std::function<void(std::vector<P3>)> f) { El e; e.code = R[r].elems[k].code; e.n.assign(R[r].elems[k].n.begin(), R[r].elems[k].n.end()); for (auto &q : faces(e)) { std::vector<P3> v; for (int i : q) v.push_back(R[r].nodes[i].c); std::sort(v.begin(), v.end()); f(v); } };
        for (int r = 0; r < n; r++) for (size_t k = 0; k < R[r].elems.size(); k++) each(r, k, [&](std::vector<P3> v) { fm[v].push_back(eoff[r] + k); });
        for (int r = 0; r < n; r++) for (size_t k = 0; k < R[r].elems.size(); k++) { std::multiset<long> e, g(R[r].elems[k].nb.begin(), R[r].elems[k].nb.end()); each(r, k, [&](std::vector<P3> v) { long o = -1; for (long q : fm[v]) if (q != eoff[r] + (long)k) o = q; e.insert(o); }); if (e != g) { std::string t = "rank " + S(r) + " element " + S(eoff[r] + k) + ": wrong face neighbours, has"; for (long q : g) t += " " + S(q); t += ", expected"; for (long q : e) t += " " + S(q); return t; } }
    }
    // regions
    auto nodeinfo = [&](int r, const DReg &d, const std::set<P3> &exp, std::map<std::string, long> &noffs, const std::string &what) -> std::string {
        std::set<P3> loc, e; for (long k : d.nodes) { if (k < 0 || k >= (long)R[r].nodes.size()) return what + ": node index out of range on rank " + S(r); if (!loc.insert(R[r].nodes[k].c).second) return what + ": node listed twice on rank " + S(r); }
        if (!std::is_sorted(d.nodes.begin(), d.nodes.end())) return what + ": nodes are not sorted on rank " + S(r);
        long halo = 0; for (auto &p : exp) { auto &w = nw[p]; if (std::find(w.begin(), w.end(), r) != w.end()) { e.insert(p); if (w[0] < r) halo++; } }
        if (loc != e) return what + ": rank " + S(r) + " lists " + S(loc.size()) + " nodes, expected " + S(e.size());
        long own = e.size() - halo; long &o = noffs[d.name];
        if (d.ni.nhalo != halo || d.ni.size != own || (own && d.ni.offset != o) || d.ni.total != (long)exp.size()) return what + ": wrong node numbering on rank " + S(r) + " (halo " + S(d.ni.nhalo) + " offset " + S(d.ni.offset) + " size " + S(d.ni.size) + " total " + S(d.ni.total) + ", expected " + S(halo) + "," + S(o) + "," + S(own) + "," + S(exp.size()) + ")";
        o += own; return "";
    };
    std::map<std::string, long> noffs; std::map<std::string, std::map<P3, long>> npos;
    auto position = [&](int r, const DReg &d, const std::string &what) -> std::string { // unique consistent numbering of region nodes
        if (d.ni.pos.size() != d.nodes.size()) return what + ": node positions missing on rank " + S(r);
        for (size_t k = 0; k < d.nodes.size(); k++) { auto &p = R[r].nodes[d.nodes[k]].c; auto it = npos[d.name].insert({ p, d.ni.pos[k] }).first; if (it->second != d.ni.pos[k]) return what + ": a shared node has different positions on different processes"; }
        return "";
    };
    for (int r = 0; r < n; r++) { std::set<std::string> names; for (auto &d : R[r].er) if (!names.insert(d.name).second) FAIL("element region " + d.name + " twice"); for (auto &q : x.ereg) if (!names.count(q.first)) { std::string l; for (auto &z : names) l += z + " "; FAIL("element region " + q.first + " is missing on rank " + S(r) + ": " + l); } if (!names.count("ALL_ELEMENTS")) FAIL("ALL_ELEMENTS is missing"); for (size_t k = 0; k < R[r].er.size(); k++) if (R[r].er[k].name != R[0].er[k].name || R[r].er.size() != R[0].er.size()) FAIL("element regions differ between processes"); }
    std::set<EKey> named; for (auto &q : x.ereg) named.insert(q.second.begin(), q.second.end());
    for (size_t k = 0; k < R[0].er.size(); k++) {
        std::string nm = R[0].er[k].name; std::set<EKey> exp, got; std::string what = "element region " + nm;
        if (nm == "ALL_ELEMENTS") for (auto &q : x.elems) exp.insert(q.first); else if (nm == "NAMELESS_ELEMENT_SET") { for (auto &q : x.elems) if (!named.count(q.first)) exp.insert(q.first); } else { auto it = x.ereg.find(nm); if (it == x.ereg.end()) FAIL("unexpected " + what); exp = it->second; }
        std::set<P3> en; for (auto &q : exp) en.insert(q.second.begin(), q.second.end()); std::vector<std::map<long, long>> cnt(n); std::vector<const std::vector<CodeInfo>*> ci; long o = 0;
        for (int r = 0; r < n; r++) { auto &d = R[r].er[k]; if (!std::is_sorted(d.elems.begin(), d.elems.end())) FAIL(what + ": elements are not sorted on rank " + S(r)); for (long e : d.elems) { if (e < 0 || e >= (long)R[r].elems.size()) FAIL(what + ": element out of range"); cnt[r][R[r].elems[e].code]++; if (!got.insert(key(R[r], R[r].elems[e].code, R[r].elems[e].n)).second) FAIL(what + ": element listed twice"); } ci.push_back(&d.codes); }
        if (got != exp) FAIL(what + ": contains " + S(got.size()) + " elements, expected " + S(exp.size()) + (got.size() == exp.size() ? " (different ones)" : ""));
        for (int r = 0; r < n; r++) { auto &d = R[r].er[k]; if (opt.stats && (d.d.size != (long)d.elems.size() || d.d.total != (long)exp.size() || (d.elems.size() && d.d.offset != o))) FAIL(what + ": wrong distribution on rank " + S(r) + " (offset " + S(d.d.offset) + " size " + S(d.d.size) + " total " + S(d.d.total) + ", expected " + S(o) + "," + S(d.elems.size()) + "," + S(exp.size()) + ")"); o += d.elems.size(); auto s = nodeinfo(r, d, en, noffs, what); if (s.size()) return s; s = position(r, d, what); if (s.size()) return s; }
        auto s = codes(cnt, ci, what); if (s.size()) return s;
        std::set<long> pp; for (auto &q : npos[nm]) pp.insert(q.second); if (pp.size() != npos[nm].size() || (pp.size() && (*pp.begin() != 0 || *pp.rbegin() != (long)pp.size() - 1))) FAIL(what + ": node positions are not 0..n-1");
    }
    for (int r = 0; r < n; r++) { std::set<std::string> names; for (auto &d : R[r].br) if (!names.insert(d.name).second) FAIL("boundary region " + d.name + " twice"); for (auto &q : x.breg) if (!names.count(q.first)) FAIL("boundary region " + q.first + " is missing on rank " + S(r)); for (auto &q : x.nreg) if (!names.count(q.first)) FAIL("node region " + q.first + " is missing on rank " + S(r)); if (!names.count("ALL_NODES")) FAIL("ALL_NODES is missing"); if (R[r].br.size() != R[0].br.size()) FAIL("boundary regions differ between processes"); for (size_t k = 0; k < R[r].br.size(); k++) if (R[r].br[k].name != R[0].br[k].name) FAIL("boundary regions differ between processes"); }
    noffs.clear(); npos.clear();
    for (size_t k = 0; k < R[0].br.size(); k++) {
        std::string nm = R[0].br[k].name, what = "boundary region " + nm; std::set<EKey> surf; std::set<EKey> exp, got; std::set<P3> en; bool bel = false;
        if (nm == "ALL_NODES") en = x.nodes; else if (x.nreg.count(nm)) en = x.nreg.at(nm); else if (x.breg.count(nm)) { exp = x.breg.at(nm); bel = true; for (auto &q : exp) en.insert(q.second.begin(), q.second.end()); } else if (nm == "SURFACE") {
            bel = true;
            for (int r = 0; r < n; r++) for (size_t e = 0; e < R[r].elems.size(); e++) { El el; el.code = linear(R[r].elems[e].code); el.n.assign(R[r].elems[e].n.begin(), R[r].elems[e].n.end()); RMesh t; for (auto &q : R[r].nodes) t.c.push_back(q.c); for (auto &f : faces(el)) { std::vector<P3> v; for (int i : f) v.push_back(R[r].nodes[i].c); std::sort(v.begin(), v.end()); if (fm[v].size() == 1) { int c = f.size() == 2 ? LINE2 : f.size() == 3 ? TRIANGLE3 : SQUARE4; surf.insert({ c, v }); } } }
            exp = surf; for (int r = 0; r < n; r++) for (auto &b : R[r].br[k].be) for (long q : b.n) en.insert(R[r].nodes[q].c);
        } else if (nm.compare(0, 9, "NAMELESS_") == 0) continue; else FAIL("unexpected " + what);
        std::vector<std::map<long, long>> cnt(n); std::vector<const std::vector<CodeInfo>*> ci; long o = 0;
        for (int r = 0; r < n; r++) {
            auto &d = R[r].br[k]; if (bel && exp.size() && d.dim != edim(exp.begin()->first)) FAIL(what + ": wrong dimension " + S(d.dim) + " on rank " + S(r)); if (!bel && d.be.size()) FAIL(what + ": node region with elements"); ci.push_back(&d.codes);
            for (auto &b : d.be) {
                for (long q : b.n) if (q < 0 || q >= (long)R[r].nodes.size()) FAIL(what + ": node out of range on rank " + S(r)); cnt[r][b.code]++; auto bk = nm == "SURFACE" ? sorted(key(R[r], linear(b.code), std::vector<long>(b.n.begin(), b.n.begin() + ecn(b.code)))) : sorted(key(R[r], b.code, b.n)); if (!got.insert(bk).second) FAIL(what + ": boundary element stored twice: " + show(bk)); if (!exp.count(bk)) FAIL(what + ": wrong boundary element " + show(bk));
                if (b.member.size() >= 2 && edim(b.code) == x.dim - 1) { long e = b.member[0], f = b.member[1]; if (e < 0 || e >= (long)R[r].elems.size()) FAIL(what + ": parent element is not local on rank " + S(r)); std::set<long> en2(R[r].elems[e].n.begin(), R[r].elems[e].n.end()); for (long q : b.n) if (!en2.count(q)) FAIL(what + ": wrong parent element on rank " + S(r)); if (f < 0 || f >= (long)R[r].elems[e].nb.size()) FAIL(what + ": wrong parent face"); if (opt.faceNeighbors) { std::vector<P3> fk; for (int q = 0; q < ecn(b.code); q++) fk.push_back(R[r].nodes[b.n[q]].c); std::sort(fk.begin(), fk.end()); long o2 = -1; for (long q : fm[fk]) if (q != eoff[r] + e) o2 = q; if (R[r].elems[e].nb[f] != o2) FAIL(what + ": wrong parent face index on rank " + S(r)); } }
            }
        }
        if (bel && got != exp) FAIL(what + ": contains " + S(got.size()) + " elements, expected " + S(exp.size()));
        for (int r = 0; r < n; r++) { auto &d = R[r].br[k]; if (bel && opt.stats) { if (d.d.size != (long)d.be.size() || d.d.total != (long)exp.size() || (d.be.size() && d.d.offset != o)) FAIL(what + ": wrong distribution on rank " + S(r) + " (offset " + S(d.d.offset) + " size " + S(d.d.size) + " total " + S(d.d.total) + ", expected " + S(o) + "," + S(d.be.size()) + "," + S(exp.size()) + ")"); } o += d.be.size(); auto s = nodeinfo(r, d, en, noffs, what); if (s.size()) return s; s = position(r, d, what); if (s.size()) return s; }
        if (bel) { auto s = codes(cnt, ci, what); if (s.size()) return s; }
        std::set<long> pp; for (auto &q : npos[nm]) pp.insert(q.second); if (pp.size() != npos[nm].size() || (pp.size() && (*pp.begin() != 0 || *pp.rbegin() != (long)pp.size() - 1))) FAIL(what + ": node positions are not 0..n-1");
    }
    // bodies: connected components of the face-neighbour graph
    if (opt.faceNeighbors && opt.bodies) {
        std::vector<long> comp(total); std::iota(comp.begin(), comp.end(), 0); std::function<long(long)> find = [&](long a) { while (comp[a] != a) a = comp[a] = comp[comp[a]]; return a; };
        for (auto &q : fm) for (size_t i = 1; i < q.second.size(); i++) comp[find(q.second[i])] = find(q.second[0]);
        std::map<long, long> label; std::set<long> roots, used; std::vector<long> bodyOf(total);
        for (int r = 0; r < n; r++) for (size_t k = 0; k < R[r].elems.size(); k++) { long c = find(eoff[r] + k); roots.insert(c); bodyOf[eoff[r] + k] = R[r].elems[k].body; auto it = label.insert({ c, R[r].elems[k].body }).first; if (it->second != R[r].elems[k].body) FAIL("one connected body has two body numbers"); used.insert(R[r].elems[k].body); }
        for (int r = 0; r < n; r++) if (R[r].bodies.total != (long)roots.size()) FAIL("wrong number of bodies: " + S(R[r].bodies.total) + " instead of " + S(roots.size()) + " on rank " + S(r));
        if (used.size() != roots.size()) FAIL("different bodies share one number"); if (*used.begin() != 0 || *used.rbegin() != (long)used.size() - 1) FAIL("bodies are not numbered 0..n-1");
        if (opt.stats) for (size_t k = 0; k < R[0].er.size(); k++) {
            if (R[0].er[k].name == "NAMELESS_ELEMENT_SET") continue;
            std::map<long, long> be, bf; for (int r = 0; r < n; r++) for (long e : R[r].er[k].elems) { be[bodyOf[eoff[r] + e]]++; for (long q : R[r].elems[e].nb) if (q == -1) bf[bodyOf[eoff[r] + e]]++; }
            for (int r = 0; r < n; r++) { auto &d = R[r].er[k]; if (d.bodies.size() != be.size()) FAIL("element region " + d.name + ": wrong number of bodies on rank " + S(r)); for (size_t i = 0; i < d.bodies.size(); i++) if (!be.count(d.bodies[i]) || d.bodyElems[i] != be[d.bodies[i]] || d.bodyFaces[i] != bf[d.bodies[i]]) FAIL("element region " + d.name + ": wrong body statistics on rank " + S(r)); }
        }
    }
    // domains
    if (opt.domains) {
        long doff = 0, dtot = 0; for (auto &m : R) dtot += m.dom.size; std::map<P3, std::set<long>> nd; std::vector<long> domOf(total); std::vector<int> drank(dtot), dcl(dtot); long coff = 0, ctot = 0; for (auto &m : R) ctot += m.clu.size;
        for (int r = 0; r < n; r++) {
            auto &m = R[r]; if (m.dom.offset != doff || m.dom.next != doff + m.dom.size || m.dom.total != dtot) FAIL("wrong domain distribution on rank " + S(r)); if (m.dom.size < 1) FAIL("process without domains");
            if ((long)m.domElems.size() != m.dom.size + 1 || m.domElems[0] != 0 || m.domElems.back() != (long)m.elems.size()) FAIL("domains do not partition the elements of rank " + S(r)); for (long d = 0; d < m.dom.size; d++) { if (m.domElems[d] >= m.domElems[d + 1]) FAIL("empty domain on rank " + S(r)); for (long e = m.domElems[d]; e < m.domElems[d + 1]; e++) { domOf[eoff[r] + e] = doff + d; for (long q : m.elems[e].n) nd[m.nodes[q].c].insert(doff + d); } drank[doff + d] = r; }
            if ((long)m.domCluster.size() != m.dom.size) FAIL("clusters of domains missing"); for (long d = 0; d < m.dom.size; d++) dcl[doff + d] = m.domCluster[d];
            if (m.clu.offset != coff || m.clu.total != ctot) FAIL("wrong cluster distribution on rank " + S(r)); coff += m.clu.size; doff += m.dom.size;
        }
        if (opt.feti) for (int r = 0; r < n; r++) { if (!R[r].hasNodeDomains) FAIL("domains of nodes are missing"); for (auto &d : R[r].nodes) if (std::vector<long>(nd[d.c].begin(), nd[d.c].end()) != d.domains) FAIL("wrong domains of a node on rank " + S(r)); }
        // dual graph of domains: domains sharing a face; clusters: connected components of domains of one process
        std::vector<std::set<long>> dual(dtot); for (auto &q : fm) for (long a : q.second) for (long b : q.second) if (domOf[a] != domOf[b]) dual[domOf[a]].insert(domOf[b]);
        doff = 0;
        for (int r = 0; r < n; r++) {
            auto &m = R[r]; if ((long)m.dual.size() != m.dom.size || (long)m.ldual.size() != m.dom.size) FAIL("domain dual graph has a wrong size on rank " + S(r));
            std::vector<long> cl(m.dom.size, -1); long nc = 0;
            for (long d = 0; d < m.dom.size; d++) {
                std::set<long> g(m.dual[d].begin(), m.dual[d].end()), full = dual[doff + d], l(m.ldual[d].begin(), m.ldual[d].end()), el; for (long q : full) if (q >= doff && q < doff + m.dom.size) el.insert(q - doff);
                if (g != full) { std::string t = "wrong dual graph of domain " + S(doff + d) + ": has"; for (long q : g) t += " " + S(q); t += ", expected"; for (long q : full) t += " " + S(q); return t; }
                if (l != el) FAIL("wrong local dual graph of domain " + S(doff + d));
                if (cl[d] == -1) { std::vector<long> st = { d }; cl[d] = nc++; while (st.size()) { long a = st.back(); st.pop_back(); for (long q : dual[doff + a]) if (q >= doff && q < doff + m.dom.size && cl[q - doff] == -1) { cl[q - doff] = cl[d]; st.push_back(q - doff); } } }
            }
            if (m.clu.size != nc) FAIL("rank " + S(r) + " has " + S(m.clu.size) + " clusters, expected " + S(nc));
            std::map<long, long> relabel; std::set<long> used; for (long d = 0; d < m.dom.size; d++) { auto it = relabel.insert({ cl[d], m.domCluster[d] }).first; if (it->second != m.domCluster[d]) FAIL("connected domains are in different clusters on rank " + S(r)); used.insert(m.domCluster[d]); } if ((long)used.size() != nc) FAIL("separated domains are in one cluster on rank " + S(r));
            doff += m.dom.size;
        }
        // each domain and process follows what the configuration asks for
        if (opt.separateRegions) for (int r = 0; r < n; r++) {
            std::vector<std::set<std::string>> in(R[r].elems.size()); for (auto &d : R[r].er) for (long e : d.elems) in[e].insert(d.name);
            for (long d = 0; d < R[r].dom.size; d++) for (long e = R[r].domElems[d]; e < R[r].domElems[d + 1]; e++) if (in[e] != in[R[r].domElems[d]]) FAIL("a domain of rank " + S(r) + " mixes elements of different regions");
        }
        if (opt.separateMaterials) for (int r = 0; r < n; r++) for (long d = 0; d < R[r].dom.size; d++) for (long e = R[r].domElems[d]; e < R[r].domElems[d + 1]; e++) if (R[r].elems[e].material != R[r].elems[R[r].domElems[d]].material) FAIL("a domain of rank " + S(r) + " mixes elements of different materials");
        if (opt.continuous) for (int r = 0; r < n; r++) {
            long N = R[r].elems.size(); std::vector<long> c(N); std::iota(c.begin(), c.end(), 0); std::function<long(long)> find = [&](long a) { while (c[a] != a) a = c[a] = c[c[a]]; return a; };
            for (auto &q : fm) for (size_t a = 0; a < q.second.size(); a++) for (size_t b = 0; b < a; b++) { long u = q.second[a] - eoff[r], v = q.second[b] - eoff[r]; if (u >= 0 && u < N && v >= 0 && v < N) c[find(u)] = find(v); }
            for (long e = 1; e < N; e++) if (find(e) != find(0)) FAIL("elements of rank " + S(r) + " are not connected although continuity is forced");
        }
        // intervals
        for (int r = 0; r < n; r++) { auto &m = R[r]; long p = 0; for (auto &v : m.ival) { if (v.begin != p || v.end <= v.begin) FAIL("element intervals do not cover the elements of rank " + S(r)); for (long e = v.begin; e < v.end; e++) { if (m.elems[e].code != v.code) FAIL("element interval with mixed element types on rank " + S(r)); if (domOf[eoff[r] + e] != v.domain) FAIL("element interval crosses domains on rank " + S(r) + " (domain " + S(v.domain) + ")"); } p = v.end; } if (p != (long)m.elems.size()) FAIL("element intervals do not cover the elements of rank " + S(r)); }
    }
    return "";
#undef FAIL
}
}
