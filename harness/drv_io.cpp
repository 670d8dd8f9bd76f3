// Files: MPS import and export, JSON instance and solution export, solution
// files, option files.  The oracle is the reference model the text was written
// from, an independent JSON reader, and direct field access for the options.
#include "vf.h"
#include "vfjson.h"
using namespace vf;
namespace po = printemps::option;
namespace mc = printemps::model_component;

static std::string slurp(const std::string &f) {
    std::ifstream     i(f);
    std::stringstream b;
    b << i.rdbuf();
    return b.str();
}
static const long INFLO = printemps::constant::INT_HALF_MIN, INFHI = printemps::constant::INT_HALF_MAX;

/* what the file means */
struct FVar { std::string name; long lb = 0, ub = 1; bool fixed = false; };
struct FRow { std::string name; std::map<int, double> t; double lo, hi; bool ranged = false; char sense = 'E'; };
struct File {
    std::vector<FVar>     v;
    std::vector<FRow>     r;
    std::map<int, double> obj;
    double                oc = 0;
    std::string           name;
    std::string           text;
};
static std::string fmtnum(Rng &r, double x) {
    char b[64];
    switch (r.in(0, 4)) {
        case 0: snprintf(b, 64, "%.17g", x); break;
        case 1: snprintf(b, 64, "%.17e", x); break;
        case 2: snprintf(b, 64, "%+.17g", x); break;
        case 3: if (x == std::floor(x) && std::fabs(x) < 1e9) { snprintf(b, 64, "%.1f", x); break; } snprintf(b, 64, "%.17g", x); break;
        default: if (x == std::floor(x) && std::fabs(x) < 1e9) { snprintf(b, 64, "%d.", (int)x); break; } snprintf(b, 64, "%.17G", x); break;
    }
    return b;
}
static std::string rname(Rng &r, const char *p, int i) {
    static const char *dec[] = {"", "_", ".", "[", "]", "#", "x", "-", "(1,2)", "RHS", "N", "E1"};
    std::string s = std::string(p) + std::to_string(i);
    if (r.p(0.4)) s += dec[r.in(0, 11)];
    return s;
}
static double coefv(Rng &r) {
    switch (r.in(0, 6)) {
        case 0: return r.in(1, 9) * (r.p(0.5) ? 1 : -1);
        case 1: return r.in(-9, 9) * 0.1 + 0.05;
        case 2: return r.in(1, 999) * 1e-6;
        case 3: return r.in(1, 999) * 12345.678;
        case 4: return 1.0 / r.in(3, 17) * (r.p(0.5) ? 1 : -1);
        case 5: return -1;
        default: return 1;
    }
}
static File mps_text(Rng &r) {
    File f;
    std::ostringstream o;
    bool crlf = r.p(0.1);
    std::string nl = crlf ? "\r\n" : "\n";
    auto sp = [&]() { std::string s = r.p(0.1) ? "\t" : " "; int n = r.in(0, 5); while (n--) s += ' '; return s; };
    auto noise = [&]() { if (r.p(0.04)) o << nl; if (r.p(0.04)) o << "* comment" << sp() << "with some 1 2 words" << nl; };
    int n = r.in(1, 8), m = r.in(0, 7);
    f.name = "prob" + std::to_string(r.in(0, 99));
    noise();
    o << "NAME" << sp() << f.name << nl;
    noise();
    o << "ROWS" << nl;
    std::string objname = r.p(0.7) ? "obj" : rname(r, "COST", 0);
    std::vector<std::string> free_rows;
    std::vector<std::string> lines;
    for (int i = 0; i < m; i++) {
        FRow w;
        w.name = rname(r, "c", i);
        w.sense = r.pick<char>({'L', 'G', 'E'});
        f.r.push_back(w);
        lines.push_back(std::string(" ") + w.sense + sp() + w.name);
    }
    // the objective row may stand anywhere; further N rows come after it
    size_t at = r.in(0, (int)lines.size());
    lines.insert(lines.begin() + at, " N" + sp() + objname);
    if (r.p(0.2)) { free_rows.push_back("freerow"); lines.insert(lines.begin() + r.in((int)at + 1, (int)lines.size()), " N" + sp() + "freerow"); }
    for (auto &l : lines) { o << l << nl; noise(); }
    o << "COLUMNS" << nl;
    for (int i = 0; i < n; i++) { FVar v; v.name = rname(r, "x", i); f.v.push_back(v); }
    bool in_int = true;
    int  mk = 0;
    o << "    MARKER" << sp() << "'MARKER'" << sp() << "'INTORG'" << nl;
    // columns which bounds turn into integer ones may stand outside the markers
    std::vector<bool> marked(n, true);
    for (int i = 0; i < n; i++) {
        noise();
        bool want = r.p(0.9);
        if (want != in_int) { o << "    M" << mk++ << sp() << "'MARKER'" << sp() << (want ? "'INTORG'" : "'INTEND'") << nl; in_int = want; }
        marked[i] = want;
        std::vector<std::pair<std::string, double>> e;
        if (r.p(0.7)) { double c = coefv(r); f.obj[i] = c; e.push_back({objname, c}); }
        for (auto &w : f.r) if (r.p(0.5)) { double c = coefv(r); w.t[i] = c; e.push_back({w.name, c}); }
        for (auto &q : free_rows) if (r.p(0.5)) e.push_back({q, coefv(r)});
        if (e.empty()) { e.push_back({objname, 0.0}); }
        r.shuffle(e);
        for (size_t q = 0; q < e.size();) {
            o << "    " << f.v[i].name << sp() << e[q].first << sp() << fmtnum(r, e[q].second);
            q++;
            if (q < e.size() && r.p(0.5)) { o << sp() << e[q].first << sp() << fmtnum(r, e[q].second); q++; }
            o << nl;
        }
    }
    if (in_int) o << "    MEND" << sp() << "'MARKER'" << sp() << "'INTEND'" << nl;
    noise();
    o << "RHS" << nl;
    std::vector<std::pair<std::string, double>> rh;
    std::vector<double> rhs(m, 0.0);
    for (int i = 0; i < m; i++) if (r.p(0.8)) { rhs[i] = r.p(0.5) ? r.in(-20, 20) : coefv(r) * r.in(1, 5); rh.push_back({f.r[i].name, rhs[i]}); }
    if (r.p(0.3)) { double c = r.p(0.5) ? r.in(-20, 20) : coefv(r); f.oc = -c; rh.push_back({objname, c}); }
    for (auto &q : free_rows) if (r.p(0.3)) rh.push_back({q, 1.0});
    r.shuffle(rh);
    for (size_t q = 0; q < rh.size();) {
        o << "    RHS" << sp() << rh[q].first << sp() << fmtnum(r, rh[q].second);
        q++;
        if (q < rh.size() && r.p(0.5)) { o << sp() << rh[q].first << sp() << fmtnum(r, rh[q].second); q++; }
        o << nl;
        noise();
    }
    for (int i = 0; i < m; i++) {
        f.r[i].lo = f.r[i].sense == 'L' ? -HUGE_VAL : rhs[i];
        f.r[i].hi = f.r[i].sense == 'G' ? HUGE_VAL : rhs[i];
    }
    if (r.p(0.4)) {
        o << "RANGES" << nl;
        std::vector<std::pair<std::string, double>> rg;
        for (int i = 0; i < m; i++) if (r.p(0.5)) {
            double g = r.p(0.7) ? r.in(1, 9) : std::fabs(coefv(r));
            if (r.p(0.4)) g = -g;
            rg.push_back({f.r[i].name, g});
            auto &w = f.r[i];
            w.ranged = true;
            if (w.sense == 'L') w.lo = w.hi - std::fabs(g);
            else if (w.sense == 'G') w.hi = w.lo + std::fabs(g);
            else if (g > 0) w.hi = w.lo + g;
            else w.lo = w.hi + g;
        }
        for (size_t q = 0; q < rg.size();) {
            o << "    RNG" << sp() << rg[q].first << sp() << fmtnum(r, rg[q].second);
            q++;
            if (q < rg.size() && r.p(0.5)) { o << sp() << rg[q].first << sp() << fmtnum(r, rg[q].second); q++; }
            o << nl;
        }
    }
    o << "BOUNDS" << nl;
    for (int i = 0; i < n; i++) {
        auto &      v = f.v[i];
        std::string b = "BND" + sp() + v.name;
        int         kind = marked[i] ? r.in(0, 11) : r.pick<int>({2, 9});
        auto frac = [&](int x, bool lower) { if (!r.p(0.25)) return fmtnum(r, x); return fmtnum(r, lower ? x - 0.5 : x + 0.5); };
        int lo = r.in(-9, 5), hi = lo + r.in(0, 12);
        switch (kind) {
            case 0: v.lb = 0; v.ub = 1; break;  // no bound: binary
            case 1: o << " FR " << b << nl; v.lb = INFLO; v.ub = INFHI; break;
            case 2: o << " BV " << b << (r.p(0.3) ? " 1" : "") << nl; v.lb = 0; v.ub = 1; break;
            case 3: o << " LO " << b << sp() << frac(lo, true) << nl << " UP " << b << sp() << frac(hi, false) << nl; v.lb = lo; v.ub = hi; break;
            case 4: hi = std::abs(hi); o << " UP " << b << sp() << frac(hi, false) << nl; v.lb = 0; v.ub = hi; break;
            case 5: o << " LO " << b << sp() << frac(lo, true) << nl; v.lb = lo; v.ub = INFHI; break;
            case 6: o << " FX " << b << sp() << fmtnum(r, lo) << nl; v.lb = v.ub = lo; v.fixed = true; break;
            case 7: o << " MI " << b << nl << " UP " << b << sp() << frac(hi, false) << nl; v.lb = INFLO; v.ub = hi; break;
            case 8: o << " UP " << b << sp() << frac(hi, false) << nl << " MI " << b << nl; v.lb = INFLO; v.ub = hi; break;
            case 9: o << " LI " << b << sp() << lo << nl << " UI " << b << sp() << hi << nl; v.lb = lo; v.ub = hi; break;
            case 10: o << " LO " << b << sp() << frac(lo, true) << nl << " PL " << b << nl; v.lb = lo; v.ub = INFHI; break;
            case 11: o << " UP " << b << sp() << (r.p(0.5) ? "1e30" : "1e+20") << nl; v.lb = 0; v.ub = INFHI; break;
        }
        noise();
    }
    o << "ENDATA" << nl;
    f.text = o.str();
    return f;
}
/* rows of a model as the library states them */
static double act(const IPExpr &e, const std::map<const IPVar *, int> &ix, const std::vector<double> &x) {
    double s = e.constant_value();
    for (auto &q : e.sensitivities()) s += q.second * x[ix.at(q.first)];
    return s;
}
static bool nearx(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
// compares a model with the meaning of a file; returns "" if equal
static std::string compare(Rng &r, IPModel &m, const File &f, bool negated) {
    std::vector<IPVar *> vs;
    std::map<const IPVar *, int> ix;
    std::map<std::string, IPVar *> byname;
    for (auto &p : m.variable_proxies()) for (auto &v : p.flat_indexed_variables()) byname[v.name()] = &v;
    if (byname.size() != f.v.size()) return "number of variables " + std::to_string(byname.size()) + " expected " + std::to_string(f.v.size());
    for (size_t i = 0; i < f.v.size(); i++) {
        auto it = byname.find(f.v[i].name);
        if (it == byname.end()) return "variable " + f.v[i].name + " missing";
        ix[it->second] = i;
        auto *v = it->second;
        if (v->lower_bound() != f.v[i].lb) return "lower bound of " + f.v[i].name + " is " + std::to_string(v->lower_bound()) + " expected " + std::to_string(f.v[i].lb);
        if (v->upper_bound() != f.v[i].ub) return "upper bound of " + f.v[i].name + " is " + std::to_string(v->upper_bound()) + " expected " + std::to_string(f.v[i].ub);
        if (f.v[i].fixed && (!v->is_fixed() || v->value() != f.v[i].lb)) return "variable " + f.v[i].name + " not fixed";
        if (!f.v[i].fixed && v->is_fixed()) return "variable " + f.v[i].name + " fixed";
    }
    // interval of every row by its left hand side
    struct Row { std::map<int, double> t; double lo, hi; };
    std::map<std::string, Row> rows;
    auto keyof = [](const std::map<int, double> &t) { std::string k; for (auto &e : t) if (std::fabs(e.second) > 1e-10) k += std::to_string(e.first) + ":" + num(e.second) + " "; return k; };
    std::map<std::string, std::pair<double, double>> got, want;
    auto meet = [](std::map<std::string, std::pair<double, double>> &q, const std::string &k, double lo, double hi) {
        auto it = q.find(k);
        if (it == q.end()) q[k] = {lo, hi};
        else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
    };
    std::map<std::string, IPCon *> cn;
    for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) {
        std::map<int, double> t;
        for (auto &q : c.expression().sensitivities()) t[ix.at(q.first)] = q.second;
        double rhs = -c.expression().constant_value();
        meet(got, keyof(t), c.sense() == mc::ConstraintSense::Less ? -HUGE_VAL : rhs, c.sense() == mc::ConstraintSense::Greater ? HUGE_VAL : rhs);
        cn[c.name()] = &c;
        if (!c.is_enabled()) return "row " + c.name() + " disabled";
    }
    for (auto &w : f.r) {
        meet(want, keyof(w.t), w.lo, w.hi);
        auto it = cn.find(w.name);
        if (it == cn.end()) return "row " + w.name + " missing";
        if (!w.ranged) {
            char s = it->second->sense() == mc::ConstraintSense::Less ? 'L' : it->second->sense() == mc::ConstraintSense::Greater ? 'G' : 'E';
            if (s != w.sense) return "sense of " + w.name;
            double rhs = -it->second->expression().constant_value();
            if (!nearx(rhs, w.sense == 'G' ? w.lo : w.hi)) return "rhs of " + w.name + " is " + num(rhs);
            std::map<int, double> t;
            for (auto &q : it->second->expression().sensitivities()) t[ix.at(q.first)] = q.second;
            for (auto &e : w.t) if (!nearx(t[e.first], e.second)) return "coefficient of " + f.v[e.first].name + " in " + w.name;
        }
    }
    if (got.size() != want.size()) return "number of distinct rows " + std::to_string(got.size()) + " expected " + std::to_string(want.size());
    for (auto &w : want) {
        auto it = got.find(w.first);
        if (it == got.end()) return "row with coefficients " + w.first + " missing";
        if (!nearx(it->second.first, w.second.first) || !nearx(it->second.second, w.second.second))
            return "row " + w.first + " allows [" + num(it->second.first) + "," + num(it->second.second) + "] expected [" + num(w.second.first) + "," + num(w.second.second) + "]";
    }
    // objective as a function, by sense
    double sg = (m.is_minimization() ? 1.0 : -1.0) * (negated ? -1.0 : 1.0);
    std::map<int, double> ob;
    for (auto &q : m.objective().expression().sensitivities()) ob[ix.at(q.first)] = sg * q.second;
    for (size_t i = 0; i < f.v.size(); i++) {
        double w = f.obj.count(i) ? f.obj.at(i) : 0.0;
        if (std::fabs(w) <= 1e-10 ? std::fabs(ob[i]) > 1e-10 : !nearx(ob[i], w)) return "objective coefficient of " + f.v[i].name + " is " + num(ob[i]) + " expected " + num(w);
    }
    if (!nearx(sg * m.objective().expression().constant_value(), f.oc)) return "objective constant " + num(sg * m.objective().expression().constant_value()) + " expected " + num(f.oc);
    return "";
}

static void case_mps(Rng &r, Report &R, const std::string &id, const std::string &dir, bool verbose) {
    File f = mps_text(r);
    if (verbose) puts(f.text.c_str());
    std::string fn = dir + "/in.mps";
    { std::ofstream o(fn, std::ios::binary); o << f.text; }
    R.evaluations++;
    R.seen(hstr(f.text));
    R.ev("mps_files_read");
    R.ev("rows_checked", f.r.size());
    for (auto &w : f.r) if (w.ranged) R.ev("ranged_rows");
    if (R.evaluations % 4999 == 1) R.sample(f.text.substr(0, 600));
    try {
        printemps::mps::MPS mps(fn);
        IPModel             m;
        m.import_mps(mps, false);
        std::string e = compare(r, m, f, false);
        if (!e.empty()) R.fail("P09:meaning", id, e + " || " + f.text);
        if (mps.name != f.name) R.fail("P09:name", id, mps.name);
    } catch (std::exception &e) {
        R.fail("P09:rejected", id, std::string(e.what()) + " || " + f.text);
    }
    // damaged files must be rejected
    if (r.p(0.3)) {
        std::string t = f.text, what;
        auto        sub = [&](const std::string &a, const std::string &b) { auto p = t.find(a); if (p == std::string::npos) return false; t.replace(p, a.size(), b); return true; };
        int k = r.in(0, 5);
        if (k == 0) { auto p = t.find("ENDATA"); t = t.substr(0, p); what = "truncated"; }
        else if (k == 1) { if (!sub("RHS\n", "RHS\n    RHS  nosuchrow  1\n")) return; what = "undefined row in RHS"; }
        else if (k == 2) { if (!sub("BOUNDS\n", "BOUNDS\n UP BND nosuchcol 3\n")) return; what = "undefined column in BOUNDS"; }
        else if (k == 3) { if (!sub("COLUMNS\n", "COLUMNS\n    xx  nosuchrow  1\n")) return; what = "undefined row in COLUMNS"; }
        else if (k == 4) { if (!sub("ROWS\n", "ROWS\n Q  qq\n")) return; what = "unknown row type"; }
        else { t = t.substr(0, t.find("ENDATA")); size_t p = r.next() % (t.size() + 1); t = t.substr(0, p); what = "truncated anywhere"; }
        { std::ofstream o(fn, std::ios::binary); o << t; }
        R.ev("damaged_files");
        try {
            printemps::mps::MPS mps(fn);
            R.fail("P09:damaged-accepted", id, what + " || " + t);
        } catch (std::exception &e) {
            R.ev("damaged_files_rejected");
        }
    }
}
static File file_of(const Spec &s, const std::vector<std::string> &vn, const std::vector<std::string> &kn, const std::vector<std::pair<long, long>> &bd) {
    File f;
    for (size_t i = 0; i < s.v.size(); i++) {
        FVar v;
        v.name = vn[i];
        v.lb = bd[i].first; v.ub = bd[i].second;
        v.fixed = s.v[i].fixed;
        if (v.fixed) v.lb = v.ub = s.v[i].init;
        f.v.push_back(v);
    }
    for (size_t j = 0; j < s.k.size(); j++) {
        FRow w;
        w.name = kn[j];
        w.sense = s.k[j].sense;
        for (auto &e : s.k[j].t) w.t[e.first] = e.second;
        double rhs = -s.k[j].c;
        w.lo = w.sense == 'L' ? -HUGE_VAL : rhs;
        w.hi = w.sense == 'G' ? HUGE_VAL : rhs;
        f.r.push_back(w);
    }
    if (s.has_obj) for (auto &e : s.obj) f.obj[e.first] += e.second;
    f.oc = s.has_obj ? s.oc : 0;
    return f;
}
static void perturb(Rng &r, Spec &s) {
    // coefficients which need all digits
    if (r.p(0.6)) {
        for (auto &k : s.k) { for (auto &e : k.t) if (r.p(0.3)) e.second = coefv(r); if (r.p(0.3)) k.c = coefv(r) * 3; }
        for (auto &e : s.obj) if (r.p(0.3)) e.second = coefv(r) * 1000003.7;
        if (r.p(0.3)) s.oc = coefv(r) * 123456.789;
    }
}
static std::string nospace(std::string s) { s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; }
static void names_of(IPModel &m, std::vector<std::string> &vn, std::vector<std::string> &kn) {
    for (auto &p : m.variable_proxies()) for (auto &v : p.flat_indexed_variables()) vn.push_back(nospace(v.name()));
    for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) kn.push_back(nospace(c.name()));
}
static void free_bounds(Rng &r, const Spec &s, Built &b, std::vector<std::pair<long, long>> &bd) {
    for (size_t i = 0; i < s.v.size(); i++) {
        long lb = s.v[i].lb, ub = s.v[i].ub;
        if (!s.v[i].fixed) {
            if (r.p(0.1)) lb = INFLO;
            if (r.p(0.1)) ub = INFHI;
            if (lb != s.v[i].lb || ub != s.v[i].ub) b.v[i]->set_bound((int)lb, (int)ub);
        }
        bd.push_back({lb, ub});
    }
}
static void case_write(Rng &r, Report &R, const std::string &id, const std::string &dir) {
    GenCfg g;
    g.big = r.p(0.3);
    Spec s = generate(r, g);
    perturb(r, s);
    IPModel m;
    Built   b;
    build(s, &m, &b);
    std::vector<std::pair<long, long>> bd;
    free_bounds(r, s, b, bd);
    if (r.p(0.5)) m.set_name("some model");
    std::string fn = dir + "/out.mps";
    R.evaluations++;
    R.seen(s.hash());
    try {
        m.write_mps(fn);
        std::vector<std::string> vn, kn;
        names_of(m, vn, kn);
        printemps::mps::MPS mps(fn);
        IPModel             q;
        q.import_mps(mps, false);
        File        f = file_of(s, vn, kn, bd);
        // a maximization problem is exported as minimization of the negated objective
        if (!s.minimize) { for (auto &e : f.obj) e.second = -e.second; f.oc = -f.oc; }
        std::string e = compare(r, q, f, false);
        R.ev("mps_round_trips");
        if (!e.empty()) R.fail("P10:meaning", id, e + " || " + s.dump() + " || " + slurp(fn));
    } catch (std::exception &e) {
        R.fail("P10:rejected", id, std::string(e.what()) + " || " + s.dump() + " || " + slurp(fn));
    }
}
template <class P>
static std::string flatten(const vfj::Val &v, std::vector<double> &out, const P &shape, size_t d) {
    if (v.k != 'a') return "not an array";
    if ((int)v.a.size() != shape[d]) return "array of " + std::to_string(v.a.size()) + " instead of " + std::to_string(shape[d]);
    for (auto &e : v.a) {
        if (d + 1 == shape.size()) out.push_back(e.num());
        else { auto s = flatten(e, out, shape, d + 1); if (!s.empty()) return s; }
    }
    return "";
}
template <class M>
static std::string cmp_named(const vfj::Val &o, const M &proxies, long &n) {
    std::set<std::string> seen;
    for (auto &item : proxies) {
        auto &p = item.second;
        for (int i = 0; i < p.number_of_elements(); i++) {
            auto *v = o.find(p.flat_indexed_names(i));
            if (!v) return "no entry " + p.flat_indexed_names(i);
            if (v->num() != (double)p.flat_indexed_values(i)) return p.flat_indexed_names(i) + " written " + num(v->num()) + " is " + num(p.flat_indexed_values(i));
            seen.insert(p.flat_indexed_names(i));
            n++;
        }
    }
    if (o.o.size() != seen.size()) return "number of entries";
    return "";
}
template <class M>
static std::string cmp_array(const vfj::Val &o, const M &proxies, long &n) {
    if (o.o.size() != proxies.size()) return "number of entries";
    for (auto &item : proxies) {
        auto *v = o.find(item.first);
        if (!v) return "no entry " + item.first;
        std::vector<double> q;
        auto e = flatten(*v, q, item.second.shape(), 0);
        if (!e.empty()) return item.first + ": " + e;
        for (int i = 0; i < item.second.number_of_elements(); i++) { n++; if (q[i] != (double)item.second.flat_indexed_values(i)) return item.first + " element " + std::to_string(i); }
    }
    return "";
}
static void case_json(Rng &r, Report &R, const std::string &id, const std::string &dir) {
    GenCfg g;
    Spec s = generate(r, g);
    perturb(r, s);
    IPModel m;
    Built   b;
    build(s, &m, &b);
    std::vector<std::pair<long, long>> bd;
    free_bounds(r, s, b, bd);
    // three dimensional variables only used to exercise the layout of arrays
    bool extra = r.p(0.3);
    if (extra) { auto &z = m.create_variables("z", {r.in(1, 3), r.in(1, 3), r.in(1, 12)}, 0, 1); for (auto &v : z.flat_indexed_variables()) v = r.in(0, 1); }
    if (r.p(0.5)) m.set_name("some model");
    R.evaluations++;
    R.seen(s.hash());
    std::string fn = dir + "/out.json", txt;
    long        n = 0;
    try {
        m.write_json(fn);
        txt = slurp(fn);
        auto j = vfj::parse(txt);
        auto bad = [&](const std::string &w) { R.fail("P11:instance", id, w + " || " + s.dump() + " || " + txt.substr(0, 3000)); };
        if (j.at("is_minimization").k != 'b' || j.at("is_minimization").b != (s.has_obj ? s.minimize : true)) bad("sense of optimization");
        std::vector<IPVar *> vs;
        for (auto &p : m.variable_proxies()) for (auto &v : p.flat_indexed_variables()) vs.push_back(&v);
        std::vector<IPCon *> ks;
        for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) ks.push_back(&c);
        auto &jv = j.at("variables");
        auto &jk = j.at("constraints");
        if (jv.a.size() != vs.size()) bad("number of variables");
        else if (jk.a.size() != s.k.size()) bad("number of constraints");
        else {
            std::map<std::string, int> ix;
            for (size_t i = 0; i < vs.size(); i++) ix[jv.a[i].at("name").s] = i;
            if (ix.size() != vs.size()) bad("names are not unique");
            for (size_t i = 0; i < s.v.size(); i++) {
                auto &q = jv.a[i];
                if (q.at("name").s != vs[i]->name()) bad("variable name");
                if (q.at("lower_bound").i != bd[i].first || q.at("upper_bound").i != bd[i].second) bad("bounds of " + vs[i]->name());
                if (q.at("is_fixed").b != s.v[i].fixed) bad("fixed flag");
                if (q.at("value").i != vs[i]->value()) bad("value");
                if (s.v[i].fixed && q.at("value").i != s.v[i].init) bad("fixed value");
                if ((q.at("sense").s == "Binary") != (bd[i].first >= 0 && bd[i].second <= 1)) bad("sense of " + vs[i]->name());
            }
            for (size_t k = 0; k < s.k.size(); k++) {
                auto &q = jk.a[k];
                if (q.at("name").s != ks[k]->name()) bad("row name");
                if (q.at("rhs").num() != -s.k[k].c) bad("rhs of row " + std::to_string(k));
                if (q.at("sense").s != (s.k[k].sense == 'L' ? "<=" : s.k[k].sense == 'G' ? ">=" : "=")) bad("sense of row");
                if (!q.at("is_enabled").b) bad("row disabled");
                std::map<int, double> t, w;
                for (auto &e : q.at("sensitivities").a) t[ix.at(e.at("variable").s)] += e.at("coefficient").num();
                for (auto &e : s.k[k].t) w[e.first] += e.second;
                if (t != w) bad("coefficients of row " + std::to_string(k));
                n++;
            }
            std::map<int, double> t, w;
            for (auto &e : j.at("objective").at("sensitivities").a) t[ix.at(e.at("variable").s)] += e.at("coefficient").num();
            if (s.has_obj) for (auto &e : s.obj) w[e.first] += e.second;
            for (auto it = t.begin(); it != t.end();) it = it->second == 0 ? t.erase(it) : std::next(it);
            for (auto it = w.begin(); it != w.end();) it = it->second == 0 ? w.erase(it) : std::next(it);
            if (t != w) bad("objective coefficients");
            if (j.at("objective").at("constant").num() != (s.has_obj ? s.oc : 0.0)) bad("objective constant");
        }
        R.ev("instances_exported");
    } catch (std::exception &e) {
        R.fail("P11:instance-throw", id, std::string(e.what()) + " || " + s.dump() + " || " + txt.substr(0, 2000));
    }
    if (!s.in_box([&] { std::vector<int> x; for (auto &v : s.v) x.push_back(v.has_init ? v.init : v.lb); return x; }())) return;
    // solution files, from a real solve (without the free bounds above)
    try {
        IPModel m2;
        Built   b2;
        build(s, &m2, &b2);
        if (extra) { auto &z = m2.create_variables("z", {r.in(1, 3), r.in(1, 3), r.in(1, 12)}, 0, 1); (void)z; }
        OptCfg oc; oc.outer_max = 2; oc.inner_max = 10; oc.duals = false;
        Option o = random_option(r, oc);
        o.output.is_enabled_store_feasible_solutions = r.p(0.5);
        printemps::solver::Result<int, double> res;
        try {
            res = printemps::solver::solve(&m2, o);
        } catch (std::exception &) {  // rejecting a model is judged elsewhere
            R.ev("solve_rejected");
            return;
        }
        auto &n0 = res.solution;
        n0.write_json_by_name(fn);
        txt = slurp(fn);
        auto head = [&](const vfj::Val &j, const char *w) {
            if (j.at("is_found_feasible_solution").b != n0.is_feasible() || j.at("objective").num() != n0.objective() || j.at("total_violation").num() != n0.total_violation() ||
                j.at("number_of_variables").i != n0.number_of_variables() || j.at("number_of_constraints").i != n0.number_of_constraints() || j.at("name").s != n0.name())
                R.fail("P11:solution-head", id, std::string(w) + " || " + s.dump() + " || " + txt.substr(0, 2000));
        };
        auto sect = [&](const vfj::Val &j, bool arr, const char *w) {
            std::string e;
            auto go = [&](const char *k, const auto &p) { if (e.empty()) { e = arr ? cmp_array(j.at(k), p, n) : cmp_named(j.at(k), p, n); if (!e.empty()) e = std::string(k) + ": " + e; } };
            go("variables", n0.variables()); go("expressions", n0.expressions()); go("constraints", n0.constraints()); go("violations", n0.violations());
            if (!e.empty()) R.fail("P11:solution", id, std::string(w) + " " + e + " || " + s.dump() + " || " + txt.substr(0, 3000));
        };
        auto j1 = vfj::parse(txt);
        head(j1, "by name"); sect(j1, false, "by name");
        n0.write_json_by_array(fn);
        txt = slurp(fn);
        auto j2 = vfj::parse(txt);
        head(j2, "by array"); sect(j2, true, "by array");
        R.ev("solutions_exported");
        if (o.output.is_enabled_store_feasible_solutions) {
            res.feasible_solution_archive.write_solutions_json(fn);
            txt = slurp(fn);
            auto j3 = vfj::parse(txt);
            auto &sl = res.feasible_solution_archive.solutions();
            if (j3.at("solutions").a.size() != sl.size()) R.fail("P11:archive", id, "number of solutions || " + s.dump());
            else for (size_t q = 0; q < sl.size(); q++) {
                auto &z = j3.at("solutions").a[q];
                bool  ok = z.at("objective").num() == sl[q].objective && z.at("is_feasible").b == sl[q].is_feasible && z.at("total_violation").num() == sl[q].total_violation && z.at("variables").o.size() == sl[q].variables.size();
                for (auto &e : sl[q].variables) { auto *y = z.at("variables").find(e.first); if (!y || y->num() != e.second) ok = false; }
                if (!ok) R.fail("P11:archive", id, "solution " + std::to_string(q) + " || " + s.dump() + " || " + txt.substr(0, 2000));
                R.ev("archived_solutions_exported");
            }
        }
        res.status.write_json_by_name(fn);
        txt = slurp(fn);
        auto j4 = vfj::parse(txt);
        if (j4.at("is_found_feasible_solution").b != n0.is_feasible()) R.fail("P11:status", id, "feasibility || " + s.dump());
        // plain solution file: feasibility line, then one variable per line
        n0.write_solution(dir + "/out.sol");
        std::ifstream in(dir + "/out.sol");
        std::string   line;
        std::getline(in, line);
        bool fh = line.rfind("=obj= ", 0) == 0;
        if (fh != n0.is_feasible() || (!fh && line != "=infeas=")) R.fail("P11:sol-head", id, line + " || " + s.dump());
        if (fh && !near(atof(line.c_str() + 6), n0.objective(), 1e-9)) R.fail("P11:sol-head", id, line + " objective " + num(n0.objective()) + " || " + s.dump());
        std::map<std::string, int> want;
        for (auto &it : n0.variables()) for (int q = 0; q < it.second.number_of_elements(); q++) want[it.second.flat_indexed_names(q)] = it.second.flat_indexed_values(q);
        std::map<std::string, int> got;
        while (std::getline(in, line)) { auto p = line.rfind(' '); if (p == std::string::npos) continue; got[line.substr(0, p)] = atoi(line.c_str() + p); }
        if (want != got) R.fail("P11:sol", id, "solution file || " + s.dump() + " || " + slurp(dir + "/out.sol").substr(0, 1500));
        // reading it back (names without blanks)
        bool blank = false;
        for (auto &e : want) if (e.first.find(' ') != std::string::npos) blank = true;
        if (!blank) {
            auto back = printemps::helper::read_names_and_values(dir + "/out.sol");
            back.erase("=obj=");
            if (std::map<std::string, int>(back.begin(), back.end()) != want) R.fail("P11:sol-read", id, s.dump() + " || " + slurp(dir + "/out.sol").substr(0, 1500));
            IPModel m3;
            Built   b3;
            build(s, &m3, &b3);
            m3.setup_unique_names();
            bool ok = true;
            for (auto &v : s.v) if (v.fixed && want.count(v.name) && want[v.name] != v.init) ok = false;
            if (ok && !extra) {
                m3.import_solution(back);
                for (size_t q = 0; q < s.v.size(); q++) if (s.layout == 0 && b3.v[q]->value() != want[s.v[q].name]) R.fail("P11:sol-import", id, s.v[q].name + " || " + s.dump());
            }
            R.ev("solution_files_read_back");
        }
        // the library reads its own JSON
        n0.write_json_by_name(fn);
        auto lib = printemps::utility::json::read_json_object(fn);
        if (lib.get<double>("objective") != n0.objective()) R.fail("P11:read-own", id, "objective || " + s.dump());
        auto lv = lib.get<printemps::utility::json::JsonObject>("variables");
        for (auto &e : want) if (!lv.find(e.first) || lv.get<int>(e.first) != e.second) { R.fail("P11:read-own", id, e.first + " || " + s.dump()); break; }
        R.ev("values_checked", n);
    } catch (std::exception &e) {
        R.fail("P11:solution-throw", id, std::string(e.what()) + " || " + s.dump() + " || " + txt.substr(0, 2000));
    }
}
/* random JSON documents: library writer -> own reader, own writer -> library reader */
namespace lj = printemps::utility::json;
struct Doc { vfj::Val v; };
static std::string rstr(Rng &r) {
    static const std::string al = "abcXYZ019 _-.,:{}[]()<>/|+=*&%$#@!~;'?^";
    std::string s;
    int n = r.in(0, 12);
    while (n--) s += al[r.next() % al.size()];
    return s;
}
static vfj::Val rdoc(Rng &r, int depth) {
    vfj::Val v;
    int k = r.in(0, depth > 0 ? 7 : 4);
    if (k == 0) { v.k = 'i'; v.i = r.p(0.5) ? r.in(-9, 9) : r.in(-2147483647, 2147483647); }
    else if (k == 1) { v.k = 'd'; v.d = r.p(0.5) ? coefv(r) : (double)(int64_t)r.next() / (1 + (r.next() >> 20)); }
    else if (k == 2) { v.k = 'b'; v.b = r.p(0.5); }
    else if (k == 3) { v.k = 's'; v.s = rstr(r); }
    else if (k == 4) v.k = 'n';
    else if (k < 7) { v.k = 'o'; int n = r.in(0, 5); for (int i = 0; i < n; i++) v.o.push_back({rstr(r) + std::to_string(i), rdoc(r, depth - 1)}); }
    else { v.k = 'a'; int n = r.in(0, 5); for (int i = 0; i < n; i++) v.a.push_back(rdoc(r, depth - 1)); }
    return v;
}
static lj::JsonObject lib_obj(const vfj::Val &v);
static lj::JsonArray  lib_arr(const vfj::Val &v);
template <class F>
static void lib_put(const vfj::Val &v, F put) {
    switch (v.k) {
        case 'i': if (v.i % 3 == 0) put((long)v.i); else if (v.i % 3 == 1) put((long long)v.i); else put((int)v.i); break;
        case 'd': put(v.d); break;
        case 'b': put(v.b); break;
        case 's': put(v.s); break;
        case 'n': put(nullptr); break;
        case 'o': put(lib_obj(v)); break;
        case 'a': put(lib_arr(v)); break;
    }
}
static lj::JsonObject lib_obj(const vfj::Val &v) { lj::JsonObject o; for (auto &e : v.o) lib_put(e.second, [&](const auto &x) { o.emplace_back(e.first, x); }); return o; }
static lj::JsonArray  lib_arr(const vfj::Val &v) { lj::JsonArray a; for (auto &e : v.a) lib_put(e, [&](const auto &x) { a.emplace_back(x); }); return a; }
static bool same(const vfj::Val &a, const vfj::Val &b) {
    if (a.k != b.k) return false;
    switch (a.k) {
        case 'i': return a.i == b.i;
        case 'd': return a.d == b.d;
        case 'b': return a.b == b.b;
        case 's': return a.s == b.s;
        case 'n': return true;
        case 'o': if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !same(a.o[i].second, b.o[i].second)) return false; return true;
        case 'a': if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], b.a[i])) return false; return true;
    }
    return false;
}
static bool same_any(const vfj::Val &v, const std::any &x) {
    try {
        switch (v.k) {
            case 'i': return std::any_cast<int>(x) == v.i;
            case 'd': return std::any_cast<double>(x) == v.d;
            case 'b': return std::any_cast<bool>(x) == v.b;
            case 's': return std::any_cast<std::string>(x) == v.s;
            case 'n': return x.type() == typeid(std::nullptr_t);
            case 'o': { auto o = std::any_cast<lj::JsonObject>(x); if (o.body.size() != v.o.size()) return false; for (auto &e : v.o) if (!o.find(e.first) || !same_any(e.second, o.at(e.first))) return false; return true; }
            case 'a': { auto a = std::any_cast<lj::JsonArray>(x); if (a.body.size() != v.a.size()) return false; for (size_t i = 0; i < v.a.size(); i++) if (!same_any(v.a[i], a.body[i])) return false; return true; }
        }
    } catch (std::bad_any_cast &) { return false; }
    return false;
}
static void print_doc(Rng &r, const vfj::Val &v, std::string &o, const std::string &nl) {
    auto ws = [&]() { if (r.p(0.2)) o += ' '; if (r.p(0.1)) o += nl; if (r.p(0.05)) o += '\t'; };
    char b[64];
    switch (v.k) {
        case 'i': o += std::to_string(v.i); break;
        case 'd': snprintf(b, 64, "%.17e", v.d); o += b; break;
        case 'b': o += v.b ? "true" : "false"; break;
        case 's': o += '"' + v.s + '"'; break;
        case 'n': o += "null"; break;
        case 'o': { o += '{'; bool f = true; for (auto &e : v.o) { if (!f) o += ','; f = false; ws(); o += '"' + e.first + '"'; ws(); o += ':'; ws(); print_doc(r, e.second, o, nl); ws(); } o += '}'; break; }
        case 'a': { o += '['; bool f = true; for (auto &e : v.a) { if (!f) o += ','; f = false; ws(); print_doc(r, e, o, nl); ws(); } o += ']'; break; }
    }
}
static void case_doc(Rng &r, Report &R, const std::string &id, const std::string &dir) {
    vfj::Val v;
    bool     arr = r.p(0.3);
    v.k = arr ? 'a' : 'o';
    int n = r.in(0, 6);
    for (int i = 0; i < n; i++) { if (arr) v.a.push_back(rdoc(r, 3)); else v.o.push_back({rstr(r) + std::to_string(i), rdoc(r, 3)}); }
    std::string fn = dir + "/doc.json", t;
    R.evaluations++;
    try {
        if (arr) lj::write_json_array(lib_arr(v), fn);
        else lj::write_json_object(lib_obj(v), fn);
        t = slurp(fn);
        R.seen(hstr(t));
        if (!same(vfj::parse(t), v)) R.fail("P11:doc-write", id, t);
        if (!same_any(v, arr ? std::any(lj::read_json_array(fn)) : std::any(lj::read_json_object(fn)))) R.fail("P11:doc-read-own", id, t);
        R.ev("documents_written");
        t.clear();
        if (r.p(0.2)) t += ' ';
        print_doc(r, v, t, r.p(0.3) ? "\r\n" : "\n");
        if (r.p(0.5)) t += "\n";
        { std::ofstream o(fn, std::ios::binary); o << t; }
        if (!same_any(v, arr ? std::any(lj::read_json_array(fn)) : std::any(lj::read_json_object(fn)))) R.fail("P11:doc-read", id, t);
        R.ev("documents_read");
    } catch (std::exception &e) {
        R.fail("P11:doc-throw", id, std::string(e.what()) + " || " + t);
    }
}
/* damaged documents: a file cut off anywhere is rejected, and no damage leads further than an error */
static void case_bad(Rng &r, Report &R, const std::string &id, const std::string &dir) {
    vfj::Val v;
    bool     arr = r.p(0.3);
    v.k = arr ? 'a' : 'o';
    int n = r.in(0, 5);
    for (int i = 0; i < n; i++) { if (arr) v.a.push_back(rdoc(r, 2)); else v.o.push_back({rstr(r) + std::to_string(i), rdoc(r, 2)}); }
    std::string t, fn = dir + "/bad.json";
    print_doc(r, v, t, "\n");
    bool cut = r.p(0.6);
    auto last = t.find_last_of("}]");
    if (cut) t = t.substr(0, r.p(0.1) ? 0 : r.in(0, (int)last));
    else for (int k = r.in(1, 2); k--;) { size_t p = r.in(0, (int)t.size() - 1); if (r.p(0.5)) t.erase(p, 1); else t[p] = ",: \"x17.-"[r.in(0, 8)]; if (t.empty()) break; }
    { std::ofstream o(fn, std::ios::binary); o << t; }
    R.evaluations++;
    R.seen(hstr(t));
    try {
        if (arr) lj::read_json_array(fn);
        else lj::read_json_object(fn);
        if (cut) R.fail("P11:cut-accepted", id, t);
        R.ev("damaged_documents_read");
    } catch (std::exception &) {
        R.ev(cut ? "cut_documents_rejected" : "damaged_documents_rejected");
    }
}
/* option files */
struct Field { const char *sec, *key; char kind; std::function<double(const Option &)> get; const std::vector<std::string> names; };
#define FB(s, k) {#s, #k, 'b', [](const Option &o) { return (double)o.s.k; }, {}}
#define FI(s, k) {#s, #k, 'i', [](const Option &o) { return (double)o.s.k; }, {}}
#define FD(s, k) {#s, #k, 'd', [](const Option &o) { return (double)o.s.k; }, {}}
#define FE(s, k, ...) {#s, #k, 'e', [](const Option &o) { return (double)(int)o.s.k; }, {__VA_ARGS__}}
static const std::vector<Field> FIELDS = {
    FI(general, iteration_max), FD(general, time_offset), FD(general, time_max), FD(general, target_objective_value), FI(general, seed), FB(general, is_enabled_fast_evaluation),
    FB(lagrange_dual, is_enabled), FI(lagrange_dual, iteration_max), FD(lagrange_dual, time_max), FD(lagrange_dual, time_offset), FD(lagrange_dual, step_size_extend_rate),
    FD(lagrange_dual, step_size_reduce_rate), FD(lagrange_dual, tolerance), FI(lagrange_dual, queue_size), FI(lagrange_dual, log_interval),
    FB(local_search, is_enabled), FI(local_search, iteration_max), FD(local_search, time_max), FD(local_search, time_offset), FI(local_search, log_interval), FI(local_search, seed),
    FB(neighborhood, is_enabled_binary_move), FB(neighborhood, is_enabled_integer_move), FB(neighborhood, is_enabled_exclusive_or_move), FB(neighborhood, is_enabled_exclusive_nor_move),
    FB(neighborhood, is_enabled_inverted_integers_move), FB(neighborhood, is_enabled_balanced_integers_move), FB(neighborhood, is_enabled_constant_sum_integers_move),
    FB(neighborhood, is_enabled_constant_difference_integers_move), FB(neighborhood, is_enabled_constant_ratio_integers_move), FB(neighborhood, is_enabled_aggregation_move),
    FB(neighborhood, is_enabled_precedence_move), FB(neighborhood, is_enabled_variable_bound_move), FB(neighborhood, is_enabled_trinomial_exclusive_nor_move),
    FB(neighborhood, is_enabled_soft_selection_move), FB(neighborhood, is_enabled_chain_move), FB(neighborhood, is_enabled_two_flip_move), FB(neighborhood, is_enabled_user_defined_move),
    FI(neighborhood, chain_move_capacity), FE(neighborhood, chain_move_reduce_mode, "OverlapRate", "Shuffle"), FD(neighborhood, chain_move_overlap_rate_threshold),
    FE(neighborhood, selection_mode, "Off", "Defined", "Smaller", "Larger", "Independent", "UserDefined"),
    FE(neighborhood, improvability_screening_mode, "Off", "Soft", "Aggressive", "Intensive", "Automatic"), FB(neighborhood, is_enabled_integer_step_size_adjuster),
    FE(output, verbose, "Off", "Warning", "Outer", "Inner", "Full", "Debug"), FB(output, is_enabled_write_trend), FB(output, is_enabled_store_feasible_solutions),
    FI(output, feasible_solutions_capacity), FB(output, is_enabled_print_search_behavior_summary), FB(output, is_enabled_print_tree_summary),
    FB(output, is_enabled_print_parallelization_controller_summary), FB(output, is_enabled_print_variable_update_summary), FB(output, is_enabled_print_constraint_violation_summary),
    FB(output, is_enabled_print_violation_and_penalty_summary), FB(output, is_enabled_print_tabu_search_parameter),
    FB(parallel, is_enabled_move_update_parallelization), FB(parallel, is_enabled_move_evaluation_parallelization), FB(parallel, is_enabled_automatic_move_update_parallelization),
    FB(parallel, is_enabled_automatic_move_evaluation_parallelization), FD(parallel, decay_factor_move_update), FD(parallel, decay_factor_move_evaluation),
    FI(parallel, number_of_threads_move_update), FI(parallel, number_of_threads_move_evaluation),
    FB(pdlp, is_enabled), FI(pdlp, iteration_max), FD(pdlp, time_max), FD(pdlp, time_offset), FD(pdlp, tolerance), FD(pdlp, step_size_extend_exponent), FD(pdlp, step_size_reduce_exponent),
    FD(pdlp, restart_threshold_sufficient), FD(pdlp, restart_threshold_necessary), FD(pdlp, restart_threshold_artificial), FI(pdlp, restart_check_interval), FI(pdlp, convergence_check_interval),
    FI(pdlp, counts_of_ruiz_scaling), FB(pdlp, is_enabled_pock_chambolle_scaling), FI(pdlp, log_interval),
    FD(penalty, penalty_coefficient_relaxing_rate), FD(penalty, penalty_coefficient_tightening_rate), FD(penalty, penalty_coefficient_updating_balance), FD(penalty, initial_penalty_coefficient),
    FD(penalty, penalty_coefficient_relaxing_rate_min), FD(penalty, penalty_coefficient_relaxing_rate_max), FD(penalty, penalty_coefficient_relaxing_rate_increase_rate),
    FD(penalty, penalty_coefficient_relaxing_rate_decrease_rate), FI(penalty, inner_stagnation_threshold), FI(penalty, outer_stagnation_threshold), FB(penalty, is_enabled_inner_stagnation_breaker),
    FB(penalty, is_enabled_outer_stagnation_breaker), FB(penalty, is_enabled_group_penalty_coefficient), FB(penalty, is_enabled_shrink_penalty_coefficient),
    FB(preprocess, is_enabled_presolve), FB(preprocess, is_enabled_remove_duplicated_constraints), FB(preprocess, is_enabled_remove_redundant_set_variables),
    FB(preprocess, is_enabled_remove_redundant_set_constraints), FB(preprocess, is_enabled_extract_implicit_equality_constraints), FB(preprocess, is_enabled_online_bounding),
    FB(preprocess, is_enabled_initial_value_correction), FB(preprocess, is_enabled_extract_dependent_exclusive_or), FB(preprocess, is_enabled_extract_dependent_exclusive_nor),
    FB(preprocess, is_enabled_extract_dependent_inverted_integers), FB(preprocess, is_enabled_extract_dependent_balanced_integers), FB(preprocess, is_enabled_extract_dependent_constant_sum_integers),
    FB(preprocess, is_enabled_extract_dependent_constant_difference_integers), FB(preprocess, is_enabled_extract_dependent_constant_ratio_integers),
    FB(preprocess, is_enabled_extract_dependent_intermediate),
    FE(restart, restart_mode, "Simple", "Smart"),
    FI(tabu_search, iteration_max), FD(tabu_search, time_max), FD(tabu_search, time_offset), FI(tabu_search, log_interval), FI(tabu_search, initial_tabu_tenure),
    FD(tabu_search, tabu_tenure_randomize_rate), FD(tabu_search, initial_modification_fixed_rate), FD(tabu_search, initial_modification_randomize_rate), FE(tabu_search, tabu_mode, "All", "Any"),
    FD(tabu_search, move_preserve_rate), FD(tabu_search, frequency_penalty_coefficient), FD(tabu_search, lagrangian_penalty_coefficient), FD(tabu_search, pruning_rate_threshold),
    FB(tabu_search, is_enabled_shuffle), FB(tabu_search, is_enabled_move_curtail), FB(tabu_search, is_enabled_automatic_break), FB(tabu_search, is_enabled_automatic_tabu_tenure_adjustment),
    FB(tabu_search, is_enabled_automatic_iteration_adjustment), FB(tabu_search, is_enabled_initial_modification), FI(tabu_search, intensity_increase_count_threshold),
    FI(tabu_search, intensity_decrease_count_threshold), FD(tabu_search, iteration_increase_rate), FD(tabu_search, iteration_decrease_rate), FB(tabu_search, ignore_tabu_if_global_incumbent),
    FI(tabu_search, number_of_initial_modification), FI(tabu_search, seed)};
static void case_opt(Rng &r, Report &R, const std::string &id, const std::string &dir) {
    static const Option def;
    double              dens = r.pick<double>({0.05, 0.5, 1.0});
    std::map<std::string, std::vector<std::pair<std::string, std::string>>> secs;
    std::vector<double> want;
    for (auto &f : FIELDS) {
        double w = f.get(def);
        if (r.p(dens)) {
            std::string v;
            char        b[64];
            if (f.kind == 'b') { w = r.in(0, 1); v = w ? "true" : "false"; }
            if (f.kind == 'i') { w = r.in(0, 100000); v = std::to_string((int)w); }
            if (f.kind == 'd') {
                if (r.p(0.3)) { w = r.in(0, 1000); v = std::to_string((int)w); }  // integers are accepted for reals
                else { w = coefv(r); snprintf(b, 64, "%.17g", w); v = b; if (v.find_first_of(".e") == std::string::npos) v += ".0"; }
            }
            if (f.kind == 'e') { int q = r.in(0, (int)f.names.size() - 1); w = q; v = r.p(0.3) ? std::to_string(q) : "\"" + f.names[q] + "\""; }
            secs[f.sec].push_back({f.key, v});
        }
        want.push_back(w);
    }
    std::string t = "{\n";
    bool        f1 = true;
    for (auto &s : secs) {
        r.shuffle(s.second);
        t += std::string(f1 ? "" : ",\n") + "\"" + s.first + "\": {";
        f1 = false;
        bool f2 = true;
        for (auto &e : s.second) { t += std::string(f2 ? "\n" : ",\n") + "  \"" + e.first + "\": " + e.second; f2 = false; }
        if (r.p(0.1)) t += std::string(f2 ? "" : ",") + " \"some_unknown_key\": 1";
        t += "}";
    }
    t += "\n}\n";
    std::string fn = dir + "/opt.json";
    { std::ofstream o(fn); o << t; }
    R.evaluations++;
    R.seen(hstr(t));
    try {
        Option o;
        if (r.p(0.5)) { o.general.seed = 77; o.tabu_search.iteration_max = 3; }  // settings before loading must not survive
        o.setup(fn);
        for (size_t i = 0; i < FIELDS.size(); i++) {
            auto &f = FIELDS[i];
            R.ev("option_fields_checked");
            if (f.key == std::string("number_of_threads_move_update") && f.get(o) != want[i] && f.get(o) == f.get(def)) {  // known finding: the key read is "number_of_threads_move_update;"
                static bool told = false;
                if (!told) R.fail("P12:load-ignored", "parallel.number_of_threads_move_update", "the setting is ignored when an option file is loaded");
                told = true;
                want[i] = f.get(def);
            }
            if (f.get(o) != want[i]) R.fail("P12:load", id, std::string(f.sec) + "." + f.key + " is " + num(f.get(o)) + " expected " + num(want[i]) + " || " + t.substr(0, 3000));
        }
        // written form: independent reader and the library's own one
        lj::write_json_object(o.to_json(), fn);
        std::string w = slurp(fn);
        auto        j = vfj::parse(w);
        for (size_t i = 0; i < FIELDS.size(); i++) {
            auto &f = FIELDS[i];
            auto *s = j.find(f.sec);
            auto *v = s ? s->find(f.key) : nullptr;
            if (!v) { R.fail("P12:write", id, std::string(f.sec) + "." + f.key + " not written"); continue; }
            double got = v->k == 'b' ? (double)v->b : v->k == 's' ? (double)(std::find(f.names.begin(), f.names.end(), v->s) - f.names.begin()) : v->num();
            if (got != want[i]) R.fail("P12:write", id, std::string(f.sec) + "." + f.key + " written " + num(got) + " expected " + num(want[i]));
        }
        Option q(fn);
        for (size_t i = 0; i < FIELDS.size(); i++) if (FIELDS[i].get(q) != want[i]) R.fail("P12:reload", id, std::string(FIELDS[i].sec) + "." + FIELDS[i].key);
    } catch (std::exception &e) {
        R.fail("P12:throw", id, std::string(e.what()) + " || " + t.substr(0, 3000));
    }
}
int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    std::string dir = a.scratch.empty() ? "." : a.scratch;
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng         r(case_seed(a, i) ^ 0x10aa);
        std::string id = "io-" + a.mode + ":" + std::to_string(a.seed) + ":" + std::to_string(i);
        if (a.mode == "mps") case_mps(r, R, id, dir, a.verbose);
        if (a.mode == "write") case_write(r, R, id, dir);
        if (a.mode == "json") case_json(r, R, id, dir);
        if (a.mode == "doc") case_doc(r, R, id, dir);
        if (a.mode == "bad") case_bad(r, R, id, dir);
        if (a.mode == "opt") case_opt(r, R, id, dir);
    }
    R.finish();
    return 0;
}
