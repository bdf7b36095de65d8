// C11: what a configuration file (and the command line) says is what the program uses.
#include "mcmpi.h"
#include "check.h"
#include "meshlib.h"
#include "config/configuration.h"
#include "config/reader/reader.h"
#include "config/ecf/ecf.h"
#include "config/holders/valueholder.h"
#include "config/holders/vectorholder.h"
#include "basis/logging/verbosity.h"
#include "basis/logging/logger.h"
#include "basis/evaluator/evaluator.h"
#include <typeinfo>
#include <algorithm>
#include <functional>
using namespace espreso;

static std::string scratch;
static std::string up(std::string s) { for (auto &c : s) c = toupper(c); return s; }
static std::string low(std::string s) { for (auto &c : s) c = tolower(c); return s; }

// enumerators of options: type of the parameter -> option -> value
static std::map<std::string, std::map<std::string, int>> enums() {
    std::map<std::string, std::map<std::string, int>> m;
    #define E(T, O, V) m[typeid(ECFEnumHolder<T>).name()][up(O)] = (int)T::V;
    #include "enums.inc"
    #undef E
    return m;
}

typedef std::map<std::string, std::string> Dump;
static std::string show(ECFParameter *q) {
    std::string v = q->getValue(); char b[64];
    auto dt = q->metadata.datatype.front();
    if (dt == ECFDataType::OPTION || dt == ECFDataType::ENUM_FLAGS) { if (typeid(*q).name() != typeid(ECFValueHolder<std::string>).name() && q->data()) { snprintf(b, 64, "#%d", *(const int*)q->data()); v += b; } }
    if (auto *e = dynamic_cast<ECFValueHolder<ECFExpression>*>(q)) { auto *ev = e->value.evaluator; ev->getParameter("TIME", 0) = 3; ev->getParameter("COORDINATE_X", 0) = 5; snprintf(b, 64, "=%d:%.12g", (int)e->value.isset, ev->evaluate(0)); if (v.empty()) strcpy(b, "=none"); v = up(v) + b; }
    if (dynamic_cast<ECFValueHolder<std::string>*>(q) && dt != ECFDataType::STRING && dt != ECFDataType::BOUNDARY_REGION && dt != ECFDataType::MATERIAL) v = up(v); // letter case has no meaning
    if (auto *d = dynamic_cast<ECFValueHolder<double>*>(q)) { snprintf(b, 64, "%.6g", d->value); v = b; }
    if (auto *r = dynamic_cast<ECFValueHolder<ECFRange>*>(q)) { snprintf(b, 64, "%g:%g:%g", r->value.min, r->value.max, r->value.step); v = b; }
    return v;
}
static void dump(ECFObject *o, const std::string &p, Dump &d) {
    for (auto q : o->parameters) {
        std::string n = p + (p.size() ? "::" : "") + up(q->name);
        if (q->isObject()) { d[n] = "{}"; dump(dynamic_cast<ECFObject*>(q), n, d); }
        if (q->isValue()) d[n] = show(q);
    }
}
static Dump dump(ECF &e) { Dump d; dump(e.ecfdescription, "", d); return d; }
static std::string diff(const Dump &a, const Dump &b) {   // expected, got
    std::string s; int k = 0;
    for (auto &x : a) { auto it = b.find(x.first); if (it == b.end()) { if (k++ < 3) s += "\n  missing " + x.first; } else if (it->second != x.second) { if (k++ < 3) s += "\n  " + x.first + " is '" + it->second + "' instead of '" + x.second + "'"; } }
    for (auto &x : b) if (!a.count(x.first)) if (k++ < 3) s += "\n  unexpected " + x.first + " = '" + x.second + "'";
    return s;
}
static void put(const std::string &f, const std::string &t) { std::ofstream o(f); o << t; }
static void rd(ECF &e, const std::string &f) { ECFReader::read(*e.ecfdescription, f, e.ranges, e.default_args, e.variables); }

struct Leaf { std::vector<std::string> path; };
// all parameters; an entry is created in every map
static void leaves(ECFObject *o, std::vector<std::string> p, std::vector<Leaf> &out, bool maps) {
    if (maps && o->getPattern()) { ECFParameter *pat = o->getPattern(); o->getParameter(pat->name.size() ? pat->name : o->metadata.pattern.front()); }
    for (size_t i = 0; i < o->parameters.size(); i++) {
        auto q = o->parameters[i]; auto n = p; n.push_back(q->name);
        if (q->isObject()) leaves(dynamic_cast<ECFObject*>(q), n, out, maps);
        if (q->isValue()) out.push_back({ n });
    }
}
static ECFParameter* find(ECF &e, const std::vector<std::string> &p) { ECFParameter *q = e.ecfdescription; for (auto &s : p) { q = q->getParameter(s); if (!q) return NULL; } return q; }
static std::string text(const std::vector<std::string> &p, const std::string &v) { std::string s, c; for (size_t i = 0; i + 1 < p.size(); i++) { s += (p[i].find(' ') == std::string::npos ? up(p[i]) : '"' + p[i] + '"') + " { "; c += " }"; } return s + up(p.back()) + " " + v + ";" + c + "\n"; }
static std::string join(const std::vector<std::string> &p) { std::string s; for (auto &x : p) s += (s.size() ? "::" : "") + up(x); return s; }

// spelling of a value -> how it has to be shown
static std::vector<std::pair<std::string, std::string>> spellings(ECFParameter *q, const std::map<std::string, std::map<std::string, int>> &en) {
    std::vector<std::pair<std::string, std::string>> v; auto dt = q->metadata.datatype.front(); const char *tn = typeid(*q).name();
    auto is = [&](const std::type_info &t) { return !strcmp(tn, t.name()); };
    if (is(typeid(ECFValueHolder<bool>))) return { { "TRUE", "TRUE" }, { "FALSE", "FALSE" }, { "true", "TRUE" }, { "False", "FALSE" }, { "1", "TRUE" }, { "0", "FALSE" }, { "", "TRUE" } };
    if (is(typeid(ECFValueHolder<int>)) || is(typeid(ECFValueHolder<size_t>))) return { { "0", "0" }, { "7", "7" }, { "12345", "12345" }, { "0x1F", "31" } };
    if (is(typeid(ECFValueHolder<double>))) return { { "0.5", "0.5" }, { "1e-3", "0.001" }, { "-2", "-2" }, { "3.25E2", "325" } };
    if (is(typeid(ECFValueHolder<float>))) return { { "0.5", "0.5" }, { "-2", "-2" } };
    if (is(typeid(ECFValueHolder<std::string>)) && dt != ECFDataType::STRING && dt != ECFDataType::BOUNDARY_REGION && dt != ECFDataType::MATERIAL) return { { "abc", "ABC" }, { "aB/c.d", "AB/C.D" }, { "x y", "X Y" } };
    if (is(typeid(ECFValueHolder<std::string>))) return { { "abc", "abc" }, { "\"a b;c{d}\"", "a b;c{d}" }, { "aB/c.d", "aB/c.d" }, { "x y", "x y" } };
    if (is(typeid(ECFValueHolder<ECFExpression>))) return { { "2*TIME+1", "2*TIME+1=1:7" }, { "2 * time + coordinate_x", "2 * TIME + COORDINATE_X=1:11" }, { "4", "4=1:4" }, { "1/4", "1/4=1:0.25" }, { "\"max(1, TIME)\"", "MAX(1, TIME)=1:3" } };
    if (is(typeid(ECFValueHolder<ECFRange>))) return { { "1 : 5 : 2", "1:5:2" } };
    if (is(typeid(ECFVectorHolder<double>))) return { { "1, 2.5", "1, 2.5" } };
    if (is(typeid(ECFVectorHolder<std::string>))) return { { "a, b", "a, b" } };
    auto t = en.find(tn); char b[32];
    auto num = [&](size_t i) { if (t != en.end()) { auto o = t->second.find(up(q->metadata.options[i].name)); if (o != t->second.end()) return o->second; } return dt == ECFDataType::OPTION ? (int)i : 1 << i; };
    if (dt == ECFDataType::OPTION) for (size_t i = 0; i < q->metadata.options.size(); i++) { auto &n = q->metadata.options[i].name; snprintf(b, 32, "#%d", num(i)); v.push_back({ n, n + b }); v.push_back({ up(n), n + b }); v.push_back({ low(n), n + b }); }
    if (dt == ECFDataType::ENUM_FLAGS) for (size_t i = 0; i < q->metadata.options.size(); i++) for (size_t j = i; j < q->metadata.options.size(); j++) {
        auto &n = q->metadata.options[i].name, &m = q->metadata.options[j].name; int k = num(i) | num(j); snprintf(b, 32, "#%d", k); std::string s = n + (i == j ? "" : " | " + m), s2 = i == j ? low(n) : up(m) + "|" + low(n);
        if (k) { v.push_back({ s, s + b }); v.push_back({ s2, s + b }); } }
    return v;
}

// ------------------------------------------------------------------------------------------ sample
static const char *SAMPLE =
    "INPUT_TYPE GENERATOR ; INPUT { FORMAT VTK_LEGACY ; PATH mesh.vtk ; DECOMPOSITION { DOMAINS 4 ; } } "
    "GENERATOR { SHAPE GRID ; UNIFORM_CLUSTERS FALSE ; GRID { ELEMENT_TYPE HEXA8 ; LENGTH_X 2.5 ; BLOCKS_X 3 ; NODES { CORNER < 0 , 1 > ; } } } "
    "PHYSICS STRUCTURAL_MECHANICS ; HEAT_TRANSFER { LOAD_STEPS 2 ; MATERIALS { STEEL { DENS 2*TIME + 1 ; NAME iron ; } } MATERIAL_SET { ALL_ELEMENTS STEEL ; } "
    "LOAD_STEPS_SETTINGS { 1 { SOLVER FETI ; FETI { METHOD HYBRID_FETI ; PROJECTOR_OPT WITH_FACTORS | FULL ; PRECISION 1E-9 ; } TEMPERATURE { LEFT 10 ; Right COORDINATE_X ; } } } } OUTPUT { RESULTS_STORE_FREQUENCY EVERY_NTH_SUBSTEP ; }";
static std::vector<std::string> sampleTokens() { std::stringstream ss(SAMPLE); std::vector<std::string> t; std::string s; while (ss >> s) t.push_back(s); return t; }
static bool punct(const std::string &s) { return s == ";" || s == "{" || s == "}" || s == ","; }

// reference reading of a token sequence: newline[i] = a line end follows token i. returns false if it has to be refused
struct Ref { bool ok = true, skip = false; std::string why; };
static Ref reference(const std::vector<std::string> &t, ECF &e, bool lines) {
    std::vector<ECFObject*> st = { e.ecfdescription }; std::vector<std::string> val; Ref r; bool unfinished = false;
    auto bad = [&](const std::string &w) { r.ok = false; r.why = w; return r; };
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == ";") {
            unfinished = false; if (val.empty()) continue;
            ECFParameter *p = st.back()->getParameter(val[0]); if (!p) return bad("unknown parameter " + val[0]); if (!p->isValue()) return bad("an object is used as a value " + val[0]);
            std::string v; for (size_t k = 1; k < val.size(); k++) v += (k > 1 ? " " : "") + val[k];
            // the language of expressions is a matter of C12
            static const std::set<std::string> exprs = { "2.5", "2*TIME + 1", "10", "7", "COORDINATE_X" }; if (dynamic_cast<ECFValueHolder<ECFExpression>*>(p) && !exprs.count(v)) { r.skip = true; return r; }
            if (!p->setValue(v)) return bad("wrong value " + v); val.clear();
        } else if (t[i] == "{") {
            if (val.size() != 1) return bad("an object without a name or with more names"); ECFParameter *p = st.back()->getParameter(val[0]); if (!p || !p->isObject()) return bad("not an object " + val[0]); st.push_back(dynamic_cast<ECFObject*>(p)); val.clear();
        } else if (t[i] == "}") { if (val.size()) return bad("unfinished statement before the end of an object"); if (st.size() == 1) return bad("unexpected end of an object"); st.pop_back(); }
        else { val.push_back(t[i]); if (t[i] != "," && unfinished && st.back()->getParameter(t[i])) return bad("missing ;"); }
        if (lines && (t[i] == ";" || t[i] == "{" || t[i] == "}")) { if (val.size() > 1) unfinished = true; }
    }
    if (val.size()) return bad("unfinished statement at the end"); if (st.size() != 1) return bad("unclosed object");
    return r;
}
static std::string layout(const std::vector<std::string> &t, bool lines) { std::string s; for (auto &x : t) s += x + (lines && (x == ";" || x == "{" || x == "}") ? "\n" : " "); return s + (lines ? "" : "\n"); }

struct Task { int kind; int a, b, c, n; std::string show() const { const char *k[] = { "values of parameters", "layout", "include", "arguments", "command line", "malformed" }; char s[160]; snprintf(s, 160, "%s %d %d %d, ranks %d", k[kind], a, b, c, n); return s; } };

static const char *FILL[] = { " ", "\n", "\t", "\r\n", "  \n\n\t ", " # comment ; { } [X] \"\n", "\n// comment ; } {\r\n", " /* comment ; } { # \n \" */ ", "#c\n", " //c\n", "/**/", "\n\n#c\n# d\n", "/* c\n */ ", " /*c*/" };
static const int NFILL = sizeof FILL / sizeof *FILL;

static std::string base() { static int pid = 0; static std::string f; if (pid != getpid()) { pid = getpid(); std::string p = std::to_string(pid); f = scratch + "/base" + p + ".ecf"; put(f, "OUTPUT { PATH " + scratch + "/o" + p + "; }\n"); } return f; }
static bool mine() { return mc::myrank() == 0; }

static void valuesTask(int chunk, int chunks, bool th) {
    auto en = enums(); std::vector<Leaf> all; { ECF e; leaves(e.ecfdescription, {}, all, true); }
    std::vector<Leaf> plain; { ECF e; leaves(e.ecfdescription, {}, plain, false); } std::set<std::string> cli; for (auto &l : plain) cli.insert(join(l.path));
    std::set<std::string> seen; ECF wrong, empty; const Dump none = dump(empty);
    for (size_t i = 0; i < all.size(); i++) {
        auto &p = all[i].path; std::string name = join(p);
        if (!seen.insert(name).second) { if ((int)(i % chunks) == chunk) mc::violation("parameter " + name + " is defined more times"); continue; }
        if ((int)(i % chunks) != chunk) continue;
        ECF b; auto *bq = find(b, p); if (!bq) { mc::violation("parameter " + name + " cannot be found"); continue; }
        Dump base = dump(b); auto sp = spellings(bq, en); mc::counter("parameters", 1);
        if (sp.empty()) mc::counter("parameters_without_values", 1);
        if (en.count(typeid(*bq).name())) { // values that are not options
            std::string n = std::to_string(bq->metadata.datatype.front() == ECFDataType::OPTION ? bq->metadata.options.size() : 40); for (const char *w : { "JUNK", n.c_str(), "-1", "1000000" }) { auto *q = find(wrong, p); if (!q->setValue(w)) mc::counter("refused_values", 1); else mc::violation("the value " + std::string(w) + " of " + name + " is not an option, it has to be refused"); } }
        else if (dynamic_cast<ECFValueHolder<int>*>(bq) || dynamic_cast<ECFValueHolder<size_t>*>(bq) || dynamic_cast<ECFValueHolder<double>*>(bq)) for (const char *w : { "JUNK", "1x", "1 2", "" }) { auto *q = find(wrong, p); if (!q->setValue(w)) mc::counter("refused_values", 1); else mc::violation("the value '" + std::string(w) + "' of " + name + " is not a number, it has to be refused"); }
        auto type = bq->metadata.datatype.front(); bool enu = en.count(typeid(*bq).name()), first = true;
        for (size_t s = 0; s < sp.size(); s++) {
            if (!th && enu && type == ECFDataType::OPTION && s % 3 != (i + s / 3) % 3) continue; // quick: one spelling of every option
            if (!th && enu && type == ECFDataType::ENUM_FLAGS && (s + i) % 2) continue;
            if (!th && !enu && s && (s + i) % 2) continue;
            mc::counter("values", 1);
            Dump want = base; want[name] = sp[s].second;
            if (name == "OUTPUT::STORE_RESULTS") { ECF e; put("v.ecf", text(p, sp[s].first)); rd(e, "v.ecf"); Dump g = dump(e); for (auto &x : g) if (x.first.find("OUTPUT::RESULTS_SELECTION::") == 0) want[x.first] = x.second; } // a predefined selection of results
            { ECF e; put("v.ecf", text(p, sp[s].first)); rd(e, "v.ecf"); std::string d = diff(want, dump(e)); if (d.size()) { mc::violation("'" + text(p, sp[s].first) + "' is read wrongly:" + d); break; }
              if (first || th) { first = false; std::ofstream os("s.ecf"); ECFReader::store(*e.ecfdescription, os, false, s % 2); os.close(); if (sp[s].first.find('"') == std::string::npos && p[0] != "default_args" && p[0] != "variables" && p[0] != "ranges" && name.find(' ') == std::string::npos && name.find("::ROTATING_FORCE::") == std::string::npos) { ECF r; find(r, p); rd(r, "s.ecf"); std::string d2 = diff(want, dump(r)); if (d2.size()) { mc::violation("a stored configuration with '" + text(p, sp[s].first) + "' is read differently:" + d2); break; } mc::counter("stored_and_read", 1); } } }
            if (cli.count(name)) { ECF e; put("v.ecf", "\n"); std::string val = sp[s].first; if (val.size() > 1 && val[0] == '"') val = val.substr(1, val.size() - 2); std::vector<std::string> a = { "x", "-c", "v.ecf", "--" + name + "=" + val }; std::vector<char*> av; for (auto &x : a) av.push_back((char*)x.c_str()); av.push_back(0); int argc = 4; char **argv = av.data();
                ECFReader::read(*e.ecfdescription, &argc, &argv, e.ranges, e.default_args, e.variables); Dump w2 = none; if (name == "OUTPUT::STORE_RESULTS") w2 = want; w2[name] = sp[s].second; std::string d = diff(w2, dump(e)); if (d.size()) { mc::violation("--" + name + "=" + sp[s].first + " is read wrongly:" + d); break; } mc::counter("command_line_values", 1); }
        }
    }
}

static Dump wantSample() { ECF e; auto t = sampleTokens(); Ref r = reference(t, e, false); if (!r.ok) mc::violation("the sample is refused: " + r.why); return dump(e); }
static void compare(const Dump &want, const std::string &what) { ECF e; rd(e, "l.ecf"); std::string d = diff(want, dump(e)); mc::counter("files", 1); if (d.size()) { std::ifstream f("l.ecf"); std::stringstream ss; ss << f.rdbuf(); mc::violation(what + ":" + d + "\n--- file:\n" + ss.str()); } }

static void layoutTask(int gap, int mode, bool th) {
    auto t = sampleTokens(); Dump want = wantSample(); int m = t.size();
    auto file = [&](const std::vector<std::string> &fill, const std::string &end) { std::string s; for (int i = 0; i < m; i++) s += t[i] + (i + 1 < m ? fill[i] : end); if (mine()) put("l.ecf", s); };
    std::vector<std::string> fill(m, " "); // a new line in the middle of a value of a map is refused (names are arbitrary)
    std::vector<bool> single(m, false); for (int i = 2; i < m; i++) single[i] = t[i] != ";" && (single[i - 1] || t[i - 1] == "CORNER"); for (int i = 0; i + 1 < m; i++) if (t[i + 1] == ";") single[i] = single[i] && false;
    auto usable = [&](int g, int f) { return !single[g] || std::string(FILL[f]).find('\n') == std::string::npos; };
    if (mode == 0) { // one gap
        for (int f = 0; f < NFILL; f++) { if (!usable(gap, f)) continue; fill[gap] = FILL[f]; file(fill, "\n"); compare(want, "a file with another filling of a gap is read differently"); }
        if (gap + 1 < m && (punct(t[gap]) || punct(t[gap + 1])) ) { fill[gap] = ""; file(fill, "\n"); compare(want, "a file without a space is read differently"); }
    }
    if (mode == 1) { // the same filling everywhere, every end of file
        for (int f = 0; f < NFILL; f++) for (const char *end : { "", "\n", " ", "\r\n", "#c", "//c", "/*c*/", " # c\n", "\t\n\n" }) { for (int i = 0; i < m; i++) fill[i] = FILL[usable(i, f) ? f : 0]; file(fill, end); compare(want, "a file with another layout is read differently"); }
        for (int i = 0; i + 1 < m; i++) fill[i] = punct(t[i]) || punct(t[i + 1]) ? "" : " "; file(fill, ""); compare(want, "a file without spaces is read differently");
    }
    if (mode == 2) { // two gaps
        for (int g = gap + 1; g < m - 1; g++) for (int f = 1; f < NFILL; f++) for (int h = 1; h < NFILL; h++) { if (!th && f != h) continue; if (!usable(gap, f) || !usable(g, h)) continue; fill[gap] = FILL[f]; fill[g] = FILL[h]; file(fill, "\n"); compare(want, "a file with another filling of two gaps is read differently"); fill[g] = " "; }
    }
    if (mode == 3) { // letter case of one token, quotation marks, assignment, environment
        auto keep = t; bool key = gap == 0 || t[gap - 1] == ";" || t[gap - 1] == "{" || t[gap - 1] == "}";
        static const std::set<std::string> names = { "STEEL", "LEFT", "Right", "CORNER", "ALL_ELEMENTS", "mesh.vtk", "iron" };
        if (!punct(t[gap]) && !names.count(t[gap])) { t[gap] = low(keep[gap]); file(fill, "\n"); compare(want, "lower case is read differently"); t = keep; if (!key && t[gap] != "+" && t[gap] != "|") { t[gap] = up(keep[gap]); file(fill, "\n"); compare(want, "upper case is read differently"); t = keep; } }
        if (!punct(t[gap])) for (const char *q : { "\"", "'" }) { t[gap] = q + keep[gap] + q; file(fill, "\n"); compare(want, "a quoted token is read differently"); t = keep; }
        if (!key && !punct(t[gap])) { setenv("MC_ENV_X", t[gap].c_str(), 1); t[gap] = "${MC_ENV_X}"; file(fill, "\n"); compare(want, "an environment variable is read differently"); t = keep; }
        if (key && !punct(t[gap]) && gap + 1 < m && !punct(t[gap + 1])) for (const char *q : { " = ", "=", "= ", " =" }) { fill[gap] = q; file(fill, "\n"); compare(want, "an assignment is read differently"); fill[gap] = " "; }
    }
}
static void includeTask(int from, bool th) { // statements from..to moved to another file
    auto t = sampleTokens(); Dump want = wantSample(); int m = t.size();
    auto boundary = [&](int i) { return i == 0 || t[i - 1] == ";" || t[i - 1] == "{" || t[i - 1] == "}"; };
    if (!boundary(from)) return;
    for (int to = from; to <= m; to++) if (boundary(to)) for (int form = 0; form < 3; form++) {
        if (!th && form != (from + to) % 3) continue;
        std::string a, b; for (int i = 0; i < m; i++) { if (i == from) a += form == 1 ? "\n[inc.ecf]\n" : "[inc.ecf]"; (i >= from && i < to ? b : a) += t[i] + (form == 2 && punct(t[i]) && t[i] != "<" && t[i] != "," && t[i] != ">" ? "\n" : " "); }
        if (from == m) a += "[inc.ecf]";
        if (mine()) { put("inc.ecf", b); put("l.ecf", a); } compare(want, "a file with an included file is read differently");
    }
}
// values given by arguments, default arguments, variables
static void argsTask(int mask, int mode) {
    auto t = sampleTokens(); Dump want = wantSample(); static const char *pos[] = { "INPUT_TYPE", "DOMAINS", "LENGTH_X", "METHOD", "LEFT", "ALL_ELEMENTS" };
    std::vector<std::string> val; std::string head;
    for (int k = 0; k < 6; k++) if (mask >> k & 1) { auto it = std::find(t.begin(), t.end(), pos[k]); int i = it - t.begin() + 1; val.push_back(t[i]); char b[32]; snprintf(b, 32, mode == 2 ? "[var_%d]" : mode == 3 ? "[Arg%d]" : "[ARG%d]", (int)val.size() - 1); t[i] = b; }
    std::string order = layout(t, true); Dump w = want;
    if (mode == 1) { head = "DEFAULT_ARGS {\n"; for (size_t i = 0; i < val.size(); i++) { head += std::to_string(i) + " " + val[i] + ";\n"; w["DEFAULT_ARGS::" + std::to_string(i)] = val[i]; } head += "}\n"; }
    if (mode == 2) { head = "VARIABLES {\n"; for (size_t i = 0; i < val.size(); i++) { head += "VAR_" + std::to_string(i) + " " + val[i] + ";\n"; w["VARIABLES::VAR_" + std::to_string(i)] = val[i]; } head += "}\n"; }
    for (int given = mode == 1 || mode == 2 ? 0 : (int)val.size(); given <= (mode == 2 ? 0 : (int)val.size()); given++) {
        if (mine()) put("l.ecf", head + order);
        std::vector<std::string> a = { "x", "-c", "l.ecf" }; for (int i = 0; i < given; i++) a.push_back(val[i]); auto a0 = a;
        std::vector<char*> av; for (auto &x : a) av.push_back((char*)x.c_str()); av.push_back(0); int argc = a.size(); char **argv = av.data();
        ECF e; ECFReader::read(*e.ecfdescription, &argc, &argv, e.ranges, e.default_args, e.variables); std::string d = diff(w, dump(e)); mc::counter("files", 1); if (d.size()) mc::violation("values given by arguments or variables are read differently:" + d);
    }
}
static void cmdTask(int mask, int order) { // all orders of arguments on the command line
    static const std::vector<std::string> item[] = { { "-c", "l.ecf" }, { "--INPUT_TYPE=GENERATOR" }, { "--GENERATOR::GRID::LENGTH_X", "3.5" }, { "one" }, { "2" }, { "-v" }, { "-vv" }, { "-t" }, { "--OUTPUT::VERBOSE_LEVEL=4" } };
    std::vector<int> p; for (int k = 0; k < 9; k++) if (mask >> k & 1) p.push_back(k);
    std::sort(p.begin(), p.end()); int o = 0;
    do {
        if (o++ != order && order >= 0) continue;
        std::vector<std::string> a = { "x" }; std::vector<std::string> pos; int v = 0, t = 0; bool type = false, len = false, lev = false, file = false;
        for (int k : p) { a.insert(a.end(), item[k].begin(), item[k].end()); if (k == 0) file = true; if (k == 1) type = true; if (k == 2) len = true; if (k == 3 || k == 4) pos.push_back(item[k][0]); if (k == 5) v++; if (k == 6) v += 2; if (k == 7) t++; if (k == 8) lev = true; }
        std::string f = "OUTPUT { VERBOSE_LEVEL 2; MEASURE_LEVEL 1; } "; for (size_t i = 0; i < pos.size(); i++) f += i ? "INPUT { PATH [ARG1]; } " : "INPUT { DECOMPOSITION { METIS_OPTIONS { } } } VARIABLES { A [ARG0]; } "; if (mine()) { put("l.ecf", file ? f : "bad"); put("espreso.ecf", f); }
        auto a0 = a; std::vector<char*> av; for (auto &x : a) av.push_back((char*)x.c_str()); av.push_back(0); auto av0 = av; int argc = a.size(); char **argv = av.data();
        ECF b; find(b, { "output", "verbose_level" })->setValue(lev ? "4" : "2"); find(b, { "output", "measure_level" })->setValue("1"); if (type) find(b, { "input_type" })->setValue("GENERATOR"); if (len) find(b, { "generator", "grid", "length_x" })->setValue("3.5"); if (pos.size() > 0) find(b, { "variables", "A" })->setValue(pos[0]); if (pos.size() > 1) find(b, { "input", "path" })->setValue(pos[1]);
        ECF e; for (int i = 0; i < eslog::logger->size; ++i) eslog::logger->args[i]->verbosity = 9;
        std::string got = ECFReader::read(*e.ecfdescription, &argc, &argv, e.ranges, e.default_args, e.variables);
        std::string d = diff(dump(b), dump(e)), line; for (auto &x : a0) line += " " + x; mc::counter("command_lines", 1);
        if (got != (file ? "l.ecf" : "espreso.ecf")) d += "\n  the configuration file is " + got;
        if (argc != (int)a0.size() || av0 != av) d += "\n  the arguments were changed";
        for (int i = 0; i < eslog::logger->size; ++i) { auto *l = eslog::logger->args[i]; int w = l->argflag == 'v' ? 2 + v : l->argflag == 't' ? 1 + t : l->verbosity; if (l->verbosity != w) d += std::string("\n  verbosity of -") + l->argflag + " is " + std::to_string(l->verbosity) + " instead of " + std::to_string(w); }
        if (d.size()) { mc::violation("command line" + line + " is read wrongly:" + d); return; }
    } while (std::next_permutation(p.begin(), p.end()));
}
// one change of the token sequence
static std::vector<std::string> mutate(std::vector<std::string> t, int i, int c, bool &ok) {
    static const char *INS[] = { ";", "{", "}", "JUNK", "7", "DOMAINS", "SHAPE" }; ok = true; int m = t.size();
    if (c == 0) { t.erase(t.begin() + i); return t; }
    if (c == 1) { t.insert(t.begin() + i, t[i]); return t; }
    if (c == 2) { if (i + 1 >= m) { ok = false; return t; } std::swap(t[i], t[i + 1]); return t; }
    if (c == 3) { t.resize(i); return t; }
    if (c < 11) { t.insert(t.begin() + i, INS[c - 4]); return t; }
    if (c < 18) { if (t[i] == INS[c - 11]) ok = false; t[i] = INS[c - 11]; return t; }
    ok = false; return t;
}
static std::string outfile() { return scratch + "/out" + std::to_string(getpid()); }
static std::string tail() { std::ifstream f(outfile()); std::string l, s; std::vector<std::string> v; while (std::getline(f, l)) v.push_back(l); for (size_t i = v.size() > 8 ? v.size() - 8 : 0; i < v.size(); i++) s += "\n  | " + v[i].substr(0, 200); return s; }
static std::string malformed(int i, int c, int lines, int n, mc::Stats &st) {
    bool ok; auto t = mutate(sampleTokens(), i, c, ok); if (!ok) return "";
    mc::Opt o; o.n = n; o.leftover = false; o.out = outfile(); std::string want, why; std::string bf = base();
    // what has to be read
    mc::Stats s0; auto r0 = mc::run(o, {}, [&](int r) { ml::setupRank(bf); ECF e; Ref ref = reference(t, e, lines); std::string s = ref.skip ? "SKIP" : ref.ok ? "OK\n" : "REFUSE " + ref.why; if (ref.ok && !ref.skip) for (auto &x : dump(e)) s += x.first + "=" + x.second + "\n"; mc::report(s); }, s0);
    if (r0.report.empty() || r0.report[0].empty()) return "reference failed: " + r0.msg + tail() + layout(t, lines); want = r0.report[0]; if (want == "SKIP") return "";
    std::string dir = scratch + "/m" + std::to_string(getpid()); 
    auto r = mc::run(o, {}, [&](int r) { ml::setupRank(bf); if (r == 0) { mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) {} put("l.ecf", layout(t, lines)); } else { mkdir((dir + "x").c_str(), 0755); if (chdir((dir + "x").c_str())) {} } ECF e; rd(e, "l.ecf"); std::string s = "OK\n"; for (auto &x : dump(e)) s += x.first + "=" + x.second + "\n"; mc::report(s); }, st);
    unlink((dir + "/l.ecf").c_str()); rmdir(dir.c_str()); rmdir((dir + "x").c_str());
    mc::counter("malformed_files", 1); std::string txt = "\n--- file:\n" + layout(t, true);
    if (r.status == mc::Exec::CRASH && r.msg.find("signal") != std::string::npos) return "reading crashed: " + r.msg + txt;
    bool accepted = !r.bad(); std::string got = r.report.size() ? r.report[0] : ""; if (accepted) for (int k = 0; k < n; k++) if ((int)r.report.size() <= k || r.report[k] != got) return "processes read different configurations" + txt;
    if (want.compare(0, 2, "OK") == 0) { mc::counter("valid_variants", 1); if (!accepted) return "a valid file is refused: " + r.msg + tail() + txt; if (got != want) return "a file is read as something else" + txt; }
    else { mc::counter("refused_variants", 1); if (accepted) return "a file is accepted although it has to be refused (" + want + ")" + txt; }
    return "";
}

static std::vector<Task> tasks(bool th) {
    std::vector<Task> v; int m = sampleTokens().size();
    for (int g = 0; g < m; g++) if (th || g % 8 == 1) v.push_back({ 1, g, 2, 0, 1 });
    for (int i = 0; i < 64; i++) v.push_back({ 0, i, 64, 0, 1 });
    for (int g = 0; g < m; g++) for (int mode : { 0, 3 }) v.push_back({ 1, g, mode, 0, 1 + g % 3 });
    v.push_back({ 1, 0, 1, 0, 1 }); v.push_back({ 1, 0, 1, 0, 3 });
    for (int g = 0; g <= m; g++) v.push_back({ 2, g, 0, 0, 1 + g % 3 });
    for (int mask = 0; mask < 64; mask++) for (int mode = 0; mode < 4; mode++) v.push_back({ 3, mask, mode, 0, 1 + (mask + mode) % 2 });
    for (int mask = 0; mask < 512; mask++) if (__builtin_popcount(mask) <= (th ? 6 : 4)) v.push_back({ 4, mask, -1, 0, 1 });
    for (int i = 0; i < m; i++) for (int c = 0; c < 18; c++) for (int lines = 0; lines < 2; lines++) if (th || lines == (i + c) % 2) v.push_back({ 5, i, c, lines, 1 + (i + c) % 2 });
    return v;
}
static std::string runTask(const Task &t, bool th, mc::Stats &st) {
    if (t.kind == 5) { std::string s = malformed(t.a, t.b, t.c, t.n, st); return s; }
    mc::Opt o; o.n = t.n; o.leftover = false; o.cpulimit = 300; o.out = outfile(); if (getenv("SHOW")) o.out = "/dev/stderr";
    std::string bf = base(), dir = scratch + "/t" + std::to_string(getpid());
    auto r = mc::run(o, {}, [&](int r) {
        ml::setupRank(bf); std::string w = dir + "-" + std::to_string(r); mkdir(w.c_str(), 0755); if (chdir(w.c_str())) {}
        if (t.kind == 0) valuesTask(t.a, t.b, th); if (t.kind == 1) layoutTask(t.a, t.b, th); if (t.kind == 2) includeTask(t.a, th); if (t.kind == 3) argsTask(t.a, t.b); if (t.kind == 4) cmdTask(t.a, t.b);
        mc::report("done");
    }, st);
    for (int k = 0; k < t.n; k++) { std::string w = dir + "-" + std::to_string(k); for (const char *f : { "v.ecf", "s.ecf", "l.ecf", "inc.ecf", "espreso.ecf" }) unlink((w + "/" + f).c_str()); rmdir(w.c_str()); }
    if (r.bad()) return t.show() + "\n" + r.msg + tail();
    for (auto &x : r.report) if (x.find("done") == std::string::npos) return t.show() + "\na process stopped";
    return "";
}

int main(int argc, char **argv) {
    std::string prop = argc > 1 ? argv[1] : "C11"; chk::Check ck(prop, argc, argv); ck.level = "model_checking"; int rc = 0;
    char tmpl[] = "/tmp/mc-config-XXXXXX"; scratch = mkdtemp(tmpl);
    auto v = tasks(ck.thorough()); bool th = ck.thorough();
    if (const char *d = getenv("TASK")) { mc::Stats st; std::string f = runTask(v.at(atol(d)), th, st); printf("%s\n%s\n", v[atol(d)].show().c_str(), f.size() ? f.c_str() : "OK"); }
    else if (ck.replay.size()) { std::ifstream in(ck.replay); std::string l; std::getline(in, l); mc::Stats st; std::string f = runTask(v.at(atol(l.c_str() + 5)), th, st); printf("%s\n", f.size() ? f.c_str() : "no violation"); rc = f.size() ? 1 : 0; }
    else {
        auto res = mc::parallel(v.size(), 8, [&](long k, mc::Stats &st) { return runTask(v[k], th, st); }, getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 1);
        for (auto &f : res.failures) ck.violation("task=" + std::to_string(f.first), v[f.first].show() + "\n" + f.second);
        ck.num["states"] = res.stats.transitions + res.stats.execs; ck.num["transitions"] = res.stats.transitions; ck.num["traces_validated_against_impl"] = res.stats.complete; for (auto &c : res.counters) ck.num[c.first] = c.second;
        if ((size_t)res.done < v.size()) ck.exhaustive = false; for (size_t i = 0; i < v.size(); i += v.size() / 8 + 1) ck.sample(v[i].show());
        ck.assumptions = { "MPI semantics as implemented by /verif/mcmpi", "layouts, mutations and arguments of one sample configuration; every parameter of the configuration with a few values" };
        rc = ck.finish();
    }
    std::string cmd = "rm -rf '" + scratch + "'"; if (scratch.compare(0, 15, "/tmp/mc-config-") == 0) { if (system(cmd.c_str())) {} }
    return rc;
}
