// Independent reference model, generators and report channel shared by every
// driver.  Nothing in this file asks the code under test for a verdict.
#pragma once
#include <printemps.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <fcntl.h>
#include <unistd.h>

namespace vf {
using IPModel = printemps::model::IPModel;
using IPMove  = printemps::neighborhood::IPMove;
using Option  = printemps::option::Option;
using IPVar   = printemps::model_component::Variable<int, double>;
using IPCon   = printemps::model_component::Constraint<int, double>;
using IPExpr  = printemps::model_component::Expression<int, double>;

/*------------------------------------------------------------------ rng ----*/
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
        for (int i = 0; i < 4; i++) next();
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int  in(int lo, int hi) { return (int)(lo + (int64_t)(next() % (uint64_t)((int64_t)hi - lo + 1))); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    template <class T>
    const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T>
    void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]);
    }
};

/*--------------------------------------------------------------- report ----*/
struct Report {
    std::string                    prop;
    long                           evaluations = 0, violations = 0, cases = 0;
    long                           inconclusive = 0;
    std::map<std::string, long>    events;
    std::set<uint64_t>             distinct;
    std::vector<std::string>       samples;
    long                           max_print = 12;
    void ev(const std::string &k, long n = 1) { events[k] += n; }
    int  state_fd = -1;
    // called at the start of every case: lets the runner name the case that
    // crashed or got stuck
    void begin(long i) {
        cases++;
        if (state_fd >= 0) { char b[24]; int n = snprintf(b, 24, "%-20ld", i); if (pwrite(state_fd, b, n, 0)) {} }
    }
    void attach(const std::string &f) { if (!f.empty()) state_fd = open(f.c_str(), O_RDWR | O_CREAT, 0600); }
    void seen(uint64_t h) { distinct.insert(h); }
    void sample(const std::string &s) {
        if (samples.size() < 4) samples.push_back(s);
    }
    static std::string esc(const std::string &s) {
        std::string o;
        for (char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; }
            else o += c;
        }
        return o;
    }
    // key: stable identification of the failing call-site/rule.
    void fail(const std::string &key, const std::string &case_id, const std::string &detail) {
        violations++;
        ev("viol:" + key);
        if (events["viol:" + key] <= max_print) {
            printf("@@V {\"key\":\"%s\",\"case\":\"%s\",\"detail\":\"%s\"}\n", esc(key).c_str(),
                   esc(case_id).c_str(), esc(detail).c_str());
            fflush(stdout);
        }
    }
    void finish() {
        printf("@@R {\"evaluations\":%ld,\"distinct\":%zu,\"cases\":%ld,\"inconclusive\":%ld,\"violations\":%ld,\"events\":{",
               evaluations, distinct.size(), cases, inconclusive, violations);
        bool f = true;
        for (auto &e : events) { printf("%s\"%s\":%ld", f ? "" : ",", esc(e.first).c_str(), e.second); f = false; }
        printf("},\"samples\":[");
        f = true;
        for (auto &s : samples) { printf("%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
        printf("],\"hashes\":[");
        f = true;
        long n = 0;
        for (auto h : distinct) { if (n++ >= 200000) break; printf("%s%llu", f ? "" : ",", (unsigned long long)(h & 0xffffffffffffull)); f = false; }
        printf("]}\n");
        fflush(stdout);
    }
};

inline uint64_t hmix(uint64_t h, uint64_t x) {
    h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hstr(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

/*------------------------------------------------------------- spec model --*/
struct SVar {
    std::string name;
    int         lb, ub;
    int         init;
    bool        has_init;
    bool        fixed;
};
struct SCon {
    std::string                           name;
    std::vector<std::pair<int, double>>   t;
    double                                c;  // sum + c  (sense) 0
    char                                  sense;
    bool                                  sel = false;  // user defined selection
};
struct SExp {
    std::string                         name;
    std::vector<std::pair<int, double>> t;
    double                              c;
};
struct Spec {
    int                                 layout = 0;   // 0 scalars, 1 one array, 2 one two-column table
    int                                 klayout = 0;  // 0 scalars, 1 one array of rows
    std::vector<SExp>                   e;            // user defined expressions
    std::vector<SVar>                   v;
    std::vector<SCon>                   k;
    std::vector<std::pair<int, double>> obj;
    double                              oc       = 0;
    bool                                minimize = true;
    bool                                has_obj  = true;

    double objective(const std::vector<int> &x) const {
        double s = oc;
        for (auto &e : obj) s += e.second * x[e.first];
        return has_obj ? s : 0.0;
    }
    double con_value(int i, const std::vector<int> &x) const {
        double s = k[i].c;
        for (auto &e : k[i].t) s += e.second * x[e.first];
        return s;
    }
    double violation(int i, const std::vector<int> &x) const {
        double s = con_value(i, x);
        if (k[i].sense == 'L') return std::max(s, 0.0);
        if (k[i].sense == 'G') return std::max(-s, 0.0);
        return std::fabs(s);
    }
    double total_violation(const std::vector<int> &x) const {
        double s = 0;
        for (size_t i = 0; i < k.size(); i++) s += violation(i, x);
        return s;
    }
    bool in_box(const std::vector<int> &x) const {
        for (size_t i = 0; i < v.size(); i++) {
            if (x[i] < v[i].lb || x[i] > v[i].ub) return false;
            if (v[i].fixed && x[i] != v[i].init) return false;
        }
        return true;
    }
    bool feasible(const std::vector<int> &x, double tol = 1e-5) const {
        if (!in_box(x)) return false;
        for (size_t i = 0; i < k.size(); i++)
            if (violation(i, x) >= tol) return false;
        return true;
    }
    bool   scaled = false;  // some rows or the objective have huge coefficients
    int    wide = -1;  // index of a variable with a range too wide to be enumerated
    double box_size() const {
        double n = 1;
        for (size_t i = 0; i < v.size(); i++) if (!v[i].fixed && (int)i != wide) n *= (double)v[i].ub - v[i].lb + 1;
        return n;
    }
    // the feasible range of the wide variable when all others have the values x
    std::pair<int, int> wide_range(std::vector<int> x) const {
        double lo = v[wide].lb, hi = v[wide].ub;
        if (v[wide].fixed) lo = hi = v[wide].init;
        for (auto &c : k) {
            double a = 0, rest = c.c;
            for (auto &e : c.t) if (e.first == wide) a += e.second; else rest += e.second * x[e.first];
            if (std::fabs(a) < 1e-12) continue;
            bool le = c.sense != 'G', ge = c.sense != 'L';
            double up = (1e-5 - rest) / a, dn = (-1e-5 - rest) / a;  // a w + rest <= tol / >= -tol
            if (le) { if (a > 0) hi = std::min(hi, std::floor(up + 1e-9)); else lo = std::max(lo, std::ceil(up - 1e-9)); }
            if (ge) { if (a > 0) lo = std::max(lo, std::ceil(dn - 1e-9)); else hi = std::min(hi, std::floor(dn + 1e-9)); }
        }
        if (lo > hi) return {1, 0};
        int l = (int)lo, h = (int)hi;
        auto ok = [&](int w) { x[wide] = w; return feasible(x); };
        for (int q = 0; q < 3 && l <= h && !ok(l); q++) l++;
        for (int q = 0; q < 3 && l <= h && !ok(h); q++) h--;
        if (l > h || !ok(l) || !ok(h)) return {1, 0};
        return {l, h};
    }
    std::string dump() const {
        std::ostringstream o;
        o.precision(17);
        o << (has_obj ? (minimize ? "min " : "max ") : "none ");
        for (auto &e : obj) o << (e.second >= 0 ? "+" : "") << e.second << v[e.first].name << " ";
        if (oc != 0) o << (oc >= 0 ? "+" : "") << oc;
        o << "; ";
        for (auto &c : k) {
            o << c.name << (c.sel ? "[sel]" : "") << ":";
            for (auto &e : c.t) o << (e.second >= 0 ? "+" : "") << e.second << v[e.first].name << " ";
            if (c.c != 0) o << (c.c >= 0 ? "+" : "") << c.c;
            o << (c.sense == 'L' ? "<=0; " : c.sense == 'G' ? ">=0; " : "==0; ");
        }
        for (auto &e : v) {
            o << e.name << "[" << e.lb << "," << e.ub << "]";
            if (e.fixed) o << " fix " << e.init;
            else if (e.has_init) o << " init " << e.init;
            o << " ";
        }
        for (auto &q : e) {
            o << "; " << q.name << ":=";
            for (auto &z : q.t) o << (z.second >= 0 ? "+" : "") << z.second << v[z.first].name << " ";
            o << (q.c >= 0 ? "+" : "") << q.c;
        }
        if (layout || klayout) o << " layout " << layout << klayout;
        return o.str();
    }
    double exp_value(int i, const std::vector<int> &x) const {
        double a = e[i].c;
        for (auto &z : e[i].t) a += z.second * x[z.first];
        return a;
    }
    uint64_t hash() const { return hstr(dump()); }
};

/* enumerate the original box; calls f(x) for every point */
template <class F>
inline void enumerate(const std::vector<std::pair<int, int>> &box, F f) {
    std::vector<int> x(box.size());
    for (size_t i = 0; i < box.size(); i++) {
        x[i] = box[i].first;
        if (box[i].first > box[i].second) return;
    }
    while (true) {
        f(x);
        size_t i = 0;
        for (; i < box.size(); i++) {
            if (x[i] < box[i].second) { x[i]++; break; }
            x[i] = box[i].first;
        }
        if (i == box.size()) return;
    }
}
struct Brute {
    bool             any = false;
    long             nfeas = 0;
    double           best  = 0;
    std::vector<int> arg;
};
inline std::vector<std::pair<int, int>> box_of(const Spec &s) {
    std::vector<std::pair<int, int>> b;
    for (auto &e : s.v) b.push_back(e.fixed ? std::make_pair(e.init, e.init) : std::make_pair(e.lb, e.ub));
    if (s.wide >= 0) b[s.wide] = {0, 0};
    return b;
}
inline Brute brute(const Spec &s) {
    Brute r;
    if (s.wide >= 0) {
        enumerate(box_of(s), [&](const std::vector<int> &y) {
            auto w = s.wide_range(y);
            if (w.first > w.second) return;
            std::vector<int> x = y;
            for (int q = 0; q < 2; q++) {
                x[s.wide] = q ? w.second : w.first;
                r.nfeas++;
                double o = s.objective(x);
                if (!r.any || (s.minimize ? o < r.best : o > r.best)) { r.any = true; r.best = o; r.arg = x; }
            }
        });
        return r;
    }
    enumerate(box_of(s), [&](const std::vector<int> &x) {
        if (!s.feasible(x)) return;
        r.nfeas++;
        double o = s.objective(x);
        if (!r.any || (s.minimize ? o < r.best : o > r.best)) { r.any = true; r.best = o; r.arg = x; }
    });
    return r;
}

/*--------------------------------------------------------- spec generator --*/
struct GenCfg {
    int    nmin = 2, nmax = 8, kmin = 1, kmax = 7;
    double maxbox     = 6000;
    bool   fixed      = true;
    bool   fractional = true;
    bool   want_feasible = true;   // constraints built around a hidden point
    double p_infeasible  = 0.08;
    bool   allow_noobj   = true;
    bool   selections    = true;
    bool   big           = false;  // wider integer ranges, no enumeration
    bool   degenerate    = true;   // empty terms, lb==ub ...
    double p_decimal     = 0.1;    // whole model with multiples of 0.1
    bool   layouts       = true;
    bool   expressions   = true;
    double p_degenerate  = 0.06;   // narrowed or single-valued bounds
    double p_wide        = 0;      // one variable with a huge range
    double p_scale       = 0;      // huge coefficients
    double p_user_sel    = 0.15;   // selections named by the user
    double p_bad_init    = 0.05;   // initial values out of bounds (to be corrected)
};

struct Gen {
    Rng &            r;
    GenCfg           cfg;
    Spec             s;
    std::vector<int> hid;
    Gen(Rng &rr, GenCfg c) : r(rr), cfg(c) {}

    bool bin(int i) const { return s.v[i].lb == 0 && s.v[i].ub == 1; }
    std::vector<int> bins() const { std::vector<int> o; for (size_t i = 0; i < s.v.size(); i++) if (bin(i)) o.push_back(i); return o; }
    std::vector<int> ints() const { std::vector<int> o; for (size_t i = 0; i < s.v.size(); i++) if (!bin(i)) o.push_back(i); return o; }
    std::vector<int> sub(std::vector<int> v, int k) { r.shuffle(v); if ((int)v.size() > k) v.resize(k); return v; }
    int  newvar(int lb, int ub) {
        SVar v{"", lb, ub, 0, false, false};
        v.name = "v" + std::to_string(s.v.size());
        s.v.push_back(v);
        hid.push_back(r.in(lb, ub));
        return (int)s.v.size() - 1;
    }
    double act(const std::vector<std::pair<int, double>> &t) { double a = 0; for (auto &e : t) a += e.second * hid[e.first]; return a; }
    void add(std::vector<std::pair<int, double>> t, char sense, double c) {
        SCon k;
        k.t = t; k.sense = sense; k.c = c;
        s.k.push_back(k);
    }
    // choose constant so that the hidden point satisfies the row
    void add_auto(std::vector<std::pair<int, double>> t, char sense) {
        double a = act(t);
        double slack = 0;
        if (sense == 'L') slack = r.in(0, 2);
        if (sense == 'G') slack = -r.in(0, 2);
        double c = -(a + slack);
        if (r.p(cfg.p_infeasible)) c += r.in(-3, 3);
        add(t, sense, c);
    }
    bool   decimal_ = false;
    double coef() {
        int c = 0;
        while (c == 0) c = r.in(-4, 4);
        if (decimal_) { int q = 0; while (q == 0) q = r.in(-40, 40); return q / 10.0; }
        if (cfg.fractional && r.p(0.12)) return c * 0.5;
        if (cfg.fractional && r.p(0.05)) return c * 0.25;
        return c;
    }
    char sense() { int q = r.in(0, 9); return q < 4 ? 'L' : q < 8 ? 'G' : 'E'; }
    double room() const { return cfg.maxbox / std::max(1.0, s.box_size()); }

    void row(int kind) {
        auto B = bins();
        auto I = ints();
        std::vector<int> all(s.v.size());
        for (size_t i = 0; i < all.size(); i++) all[i] = i;
        auto ones = [&](std::vector<int> v, double c = 1) { std::vector<std::pair<int, double>> t; for (int i : v) t.push_back({i, c}); return t; };
        switch (kind) {
            case 0: {  // random row
                auto v = sub(all, r.in(1, 5));
                std::vector<std::pair<int, double>> t;
                for (int i : v) t.push_back({i, coef()});
                add_auto(t, sense());
                break;
            }
            case 1: case 2: case 3: {  // set partitioning / packing / covering
                if (B.size() < 2) return;
                auto v = sub(B, r.in(2, 5));
                char se = kind == 1 ? 'E' : kind == 2 ? 'L' : 'G';
                double sgn = r.p(0.25) ? -1 : 1;
                if (sgn < 0 && se != 'E') se = se == 'L' ? 'G' : 'L';
                if (kind != 3 && r.p(0.9)) {  // make hidden point compatible
                    bool f = true;
                    for (int i : v) { if (s.v[i].fixed) continue; hid[i] = 0; }
                    if (kind == 1) hid[v[r.in(0, (int)v.size() - 1)]] = 1;
                    (void)f;
                    return deferred_.push_back({ones(v, sgn), se, -sgn});
                }
                if (kind == 3) hid[v[0]] = 1;
                deferred_.push_back({ones(v, sgn), se, -sgn});
                break;
            }
            case 4: {  // cardinality / invariant knapsack / multiple covering
                if (B.size() < 3) return;
                auto v = sub(B, r.in(3, 6));
                add_auto(ones(v, r.p(0.2) ? -1 : 1), r.pick<char>({'E', 'L', 'G'}));
                break;
            }
            case 5: {  // xor / xnor
                if (B.size() < 2) return;
                auto v = sub(B, 2);
                double sgn = r.p(0.3) ? -1 : 1;
                if (hid[v[0]] != hid[v[1]]) add({{v[0], sgn}, {v[1], sgn}}, 'E', -sgn);
                else add({{v[0], sgn}, {v[1], -sgn}}, 'E', 0);
                break;
            }
            case 6: {  // integer pairs
                if (I.size() < 2) return;
                auto v = sub(I, 2);
                double a = r.p(0.7) ? 1 : r.in(1, 3), b = r.p(0.5) ? 1 : r.p(0.6) ? -1 : coef();
                if (r.p(0.3)) { a = -a; }
                std::vector<std::pair<int, double>> t{{v[0], a}, {v[1], b}};
                add(t, 'E', r.p(0.06) ? r.in(-3, 3) : -act(t));
                break;
            }
            case 7: {  // precedence / variable bound
                if (all.size() < 2) return;
                auto v = sub(all, 2);
                double a = r.p(0.5) ? 1 : r.in(1, 4), b = r.p(0.5) ? -1 : -r.in(1, 4);
                std::vector<std::pair<int, double>> t{{v[0], a}, {v[1], b}};
                if (r.p(0.5) && act(t) <= 0) add(t, 'L', 0);
                else add_auto(t, r.p(0.5) ? 'L' : 'G');
                break;
            }
            case 8: {  // trinomial xnor : 2x = y + z like rows
                if (B.size() < 3) return;
                auto v = sub(B, 3);
                add({{v[0], 1}, {v[1], 1}, {v[2], -2}}, 'E', 0);
                hid[v[1]] = hid[v[2]] = hid[v[0]];
                break;
            }
            case 9: {  // intermediate: y == sum(...)
                if (all.size() < 2) return;
                auto v = sub(all, r.in(2, 4));
                double lo = 0, hi = 0, h = 0;
                std::vector<std::pair<int, double>> t;
                for (int i : v) {
                    double c = r.in(1, 3) * (r.p(0.3) ? -1 : 1);
                    t.push_back({i, c});
                    lo += std::min(c * s.v[i].lb, c * s.v[i].ub);
                    hi += std::max(c * s.v[i].lb, c * s.v[i].ub);
                    h += c * hid[i];
                }
                if (hi - lo + 1 > room() && !cfg.big) return;
                int cst = r.p(0.4) ? r.in(-2, 2) : 0;
                int wide = r.p(0.6) ? 0 : 1;
                int y = newvar((int)lo + cst - wide, (int)hi + cst + wide);
                if (r.p(0.25)) {  // deliberately tighter than the activity range
                    s.v[y].lb = std::min((int)h + cst, s.v[y].lb + 1);
                    s.v[y].ub = std::max((int)h + cst, s.v[y].ub - 1);
                }
                hid[y] = (int)h + cst;
                double sg = r.p(0.3) ? -1 : 1;
                for (auto &e : t) e.second *= -sg;
                t.push_back({y, sg});
                add(t, 'E', -sg * cst);
                yvars_.push_back(y);
                break;
            }
            case 10: {  // gf2
                if (B.size() < 2) return;
                auto v = sub(B, r.in(2, 4));
                int  h = 0;
                for (int i : v) h += hid[i];
                int rhs = h & 1;
                int top = ((int)v.size()) / 2 + 1;
                if (top + 1 > room() && !cfg.big) return;
                int z = newvar(0, top);
                hid[z] = (h - rhs) / 2;
                auto t = ones(v);
                t.push_back({z, -2});
                if (r.p(0.3)) { for (auto &e : t) e.second = -e.second; add(t, 'E', rhs); }
                else add(t, 'E', -rhs);
                break;
            }
            case 20: {  // square system of parity rows
                auto v = sub(B, r.in(3, 4));
                int  k = v.size();
                if (k < 3 || (std::pow(4, k) > room() && !cfg.big)) return;
                for (int j = 0; j < k; j++) {
                    std::vector<std::pair<int, double>> t;
                    int h = 0;
                    for (int i = 0; i < k; i++) if (i == j || r.p(0.6)) { t.push_back({v[i], r.p(0.3) ? -1.0 : 1.0}); }
                    if (t.size() < 2) t.push_back({v[(j + 1) % k], 1.0});
                    if (r.p(0.05)) t[r.in(0, (int)t.size() - 1)].second *= r.pick<double>({1.5, 3, 1.25});
                    if (r.p(0.1)) { t[0].second *= 1.5; t[1].second *= 1.5; }
                    h = (int)std::round(act(t));
                    int rhs = h & 1, z = newvar(-1 - r.in(0, 1), 2);
                    hid[z] = (h - rhs) / 2;
                    if (r.p(0.05)) { s.v[z].lb = std::max(s.v[z].lb, std::min(hid[z] + r.in(-1, 1), 1));  }
                    if (r.p(0.05)) s.v[z].ub = std::max(s.v[z].lb, hid[z] + r.in(-1, 1));
                    double kc = r.p(0.95) ? -2 : r.pick<double>({-2.5, -4, -1});
                    t.push_back({z, kc});
                    if (r.p(0.3)) { for (auto &e : t) e.second = -e.second; rhs = -rhs; }
                    double c = -rhs;
                    if (r.p(0.05)) c += r.pick<double>({-0.5, 0.5, 1});
                    r.shuffle(t);
                    add(t, 'E', c);
                }
                break;
            }
            case 11: {  // singleton
                int i = r.pick(all);
                double a = coef();
                char se = sense();
                double slack = se == 'L' ? r.in(0, 3) : se == 'G' ? -r.in(0, 3) : 0;
                double c = -(a * hid[i] + slack);
                if (cfg.fractional && r.p(0.2) && se != 'E') c += 0.5 * (se == 'L' ? -1 : 1);
                if (r.p(cfg.p_infeasible)) c += r.in(-2, 2);
                add({{i, a}}, se, c);
                break;
            }
            case 12: {  // duplicate of an existing row (same / scaled / negated)
                if (s.k.empty()) return;
                SCon k = s.k[r.next() % s.k.size()];
                double m = r.p(0.5) ? 1 : r.p(0.5) ? 2 : -1;
                for (auto &e : k.t) e.second *= m;
                k.c *= m;
                if (m < 0 && k.sense != 'E') k.sense = k.sense == 'L' ? 'G' : 'L';
                if (r.p(0.2) && k.sense != 'E') k.c += (k.sense == 'L' ? -1 : 1) * r.in(0, 1);
                k.sel = false;
                r.shuffle(k.t);
                s.k.push_back(k);
                break;
            }
            case 13: {  // implicit equality pair
                auto v = sub(all, r.in(2, 4));
                std::vector<std::pair<int, double>> t;
                for (int i : v) t.push_back({i, coef()});
                double a = act(t);
                add(t, 'L', -a);
                if (r.p(0.5)) add(t, 'G', -a);
                else { for (auto &e : t) e.second = -e.second; add(t, 'L', a); }
                break;
            }
            case 14: {  // always true / constant row
                auto v = sub(all, r.in(0, 3));
                std::vector<std::pair<int, double>> t;
                double hi = 0;
                for (int i : v) { double c = coef(); t.push_back({i, c}); hi += std::max(c * s.v[i].lb, c * s.v[i].ub); }
                if (t.empty() && !cfg.degenerate) return;
                add(t, 'L', -hi - r.in(0, 2));
                break;
            }
            case 15: {  // min-max
                auto v = sub(all, r.in(2, 3));
                if (v.size() < 2) return;
                double lo = 0, hi = 0;
                std::vector<std::pair<int, double>> t;
                for (int i : v) { double c = r.in(1, 2); t.push_back({i, c}); lo += std::min(c * s.v[i].lb, c * s.v[i].ub); hi += std::max(c * s.v[i].lb, c * s.v[i].ub); }
                if (hi - lo + 1 > room() && !cfg.big) return;
                int z = newvar((int)lo, (int)hi);
                hid[z] = (int)hi;
                t.push_back({z, -1});
                add(t, 'L', 0);
                yvars_.push_back(z);
                break;
            }
            case 16: {  // soft selection : sum x - y == 0
                if (B.size() < 3) return;
                auto v = sub(B, r.in(3, 5));
                for (int i : v) hid[i] = 0;
                int y = v.back();
                v.pop_back();
                auto t = ones(v);
                t.push_back({y, -1});
                if (r.p(0.5)) { hid[y] = 1; hid[v[0]] = 1; }
                deferred_.push_back({t, 'E', 0});
                break;
            }
            case 17: {  // bin packing row
                if (B.size() < 3) return;
                auto v = sub(B, r.in(3, 5));
                std::vector<std::pair<int, double>> t;
                double sum = 0;
                for (size_t i = 0; i + 1 < v.size(); i++) { double w = r.in(1, 4); t.push_back({v[i], w}); sum += w; }
                t.push_back({v.back(), -std::max(1.0, sum - 1)});
                if (act(t) > 0) for (auto &e : t) hid[e.first] = 0;
                deferred_.push_back({t, 'L', 0});
                break;
            }
            case 18: {  // flow
                if (all.size() < 3) return;
                auto v = r.p(0.5) && B.size() >= 3 ? sub(B, r.in(3, 5)) : sub(all, r.in(3, 5));
                std::vector<std::pair<int, double>> t;
                for (int i : v) t.push_back({i, r.p(0.5) ? 1.0 : -1.0});
                add(t, 'E', -act(t));
                break;
            }
            case 19: {  // knapsack family
                auto v = sub(r.p(0.6) && B.size() >= 2 ? B : all, r.in(2, 6));
                std::vector<std::pair<int, double>> t;
                for (int i : v) t.push_back({i, (double)r.in(1, 9)});
                char se = r.p(0.2) ? 'E' : 'L';
                if (r.p(0.2)) { for (auto &e : t) e.second = -e.second; if (se == 'L') se = 'G'; }
                add_auto(t, se);
                break;
            }
        }
    }
    struct D { std::vector<std::pair<int, double>> t; char sense; double c; };
    std::vector<D>   deferred_;
    std::vector<int> yvars_;

    Spec make() {
        const bool parity = r.p(0.02);  // a square system of parity rows and little else
        int n = parity ? r.in(3, 5) : r.in(cfg.nmin, cfg.nmax);
        decimal_ = cfg.fractional && r.p(cfg.p_decimal);
        double pb = r.pick<double>({0.3, 0.6, 0.85, 1.0});
        if (parity) pb = 0.95;
        for (int i = 0; i < n; i++) {
            if (r.p(pb)) { if (room() < 2 && !cfg.big) break; newvar(0, 1); }
            else {
                int lb = r.in(-3, 2), w = r.p(0.06) && cfg.degenerate ? 0 : r.in(1, cfg.big ? 30 : 5);
                if (cfg.big && r.p(0.2)) w = r.in(30, 2000);
                if (w + 1 > room() && !cfg.big) { newvar(0, 1); continue; }
                newvar(lb, lb + w);
            }
        }
        if (s.v.empty()) newvar(0, 1);
        if (cfg.p_wide > 0 && r.p(cfg.p_wide)) {
            const int M = 1073741823, m = -1073741824;
            static const std::vector<std::pair<int, int>> wb{{0, 200000}, {-150000, 150000}, {0, M}, {m, M}, {m, 0}, {-100, 3000}, {99990, 100020}, {0, 100001}, {-100001, 5}};
            auto b = r.pick(wb);
            decimal_ = false;  // keep sums exact
            s.wide = newvar(b.first, b.second);
            int h;
            switch (r.in(0, 3)) {
                case 0: h = r.in(-5, 5); break;
                case 1: h = (r.p(0.5) ? 1 : -1) * (100000 + r.in(-3, 3)); break;
                case 2: h = r.in(-150000, 150000); break;
                default: h = r.in(b.first / 2, b.second / 2); break;
            }
            hid[s.wide] = std::max(b.first, std::min(b.second, h));
        }
        int m = r.in(cfg.kmin, cfg.kmax);
        // bias: a model concentrates on a few row kinds so that the structure
        // dependent code (presolve, extraction, special moves) is exercised.
        std::vector<int> menu;
        int w = r.in(1, 4);
        for (int i = 0; i < w; i++) menu.push_back(r.in(0, 19));
        if (parity || r.p(0.05)) { row(20); if (r.p(0.7)) m = r.in(0, 1); }
        for (int i = 0; i < m; i++) {
            int kind = r.p(0.7) ? r.pick(menu) : r.in(0, 19);
            if (parity && kind == 10) kind = 0;
            row(kind);
        }
        for (auto &d : deferred_) {
            if (cfg.want_feasible && r.p(0.5)) {
                double a = act(d.t) + d.c;
                if ((d.sense == 'L' && a > 0) || (d.sense == 'G' && a < 0) || (d.sense == 'E' && a != 0)) {
                    if (r.p(0.6)) continue;  // keep most models feasible
                }
            }
            add(d.t, d.sense, d.c);
        }
        r.shuffle(s.k);
        for (size_t i = 0; i < s.k.size(); i++) s.k[i].name = "k" + std::to_string(i);
        // objective
        s.minimize = r.p(0.5);
        s.has_obj  = !(cfg.allow_noobj && r.p(0.07));
        if (s.has_obj) {
            double dens = r.pick<double>({0.3, 0.7, 1.0});
            int    sgn  = r.in(-1, 1);
            for (size_t i = 0; i < s.v.size(); i++)
                if (r.p(dens)) {
                    double c = coef();
                    if (sgn) c = sgn * std::fabs(c);
                    s.obj.push_back({(int)i, c});
                }
            if (!yvars_.empty() && r.p(0.4)) { s.obj.clear(); s.obj.push_back({yvars_[0], (double)r.pick<int>({1, -1, 2})}); }
            if (r.p(0.35)) s.oc = r.in(-12, 12) * (r.p(0.2) && cfg.fractional ? 0.5 : 1.0);
        }
        if (!s.has_obj && s.k.empty()) s.has_obj = true;  // rejected by design otherwise
        if (s.obj.empty() && s.has_obj) { s.obj.push_back({0, 1.0}); }
        if (cfg.expressions && r.p(0.3)) {
            int ne = r.in(1, 3);
            for (int q = 0; q < ne; q++) {
                SExp z;
                z.name = "e" + std::to_string(q);
                z.c    = r.in(-5, 5);
                std::vector<int> all(s.v.size());
                for (size_t i = 0; i < all.size(); i++) all[i] = i;
                for (int i : sub(all, r.in(0, 4))) z.t.push_back({i, coef()});
                s.e.push_back(z);
            }
        }
        if (cfg.layouts && r.p(0.3)) {
            s.layout  = r.in(0, 2);
            s.klayout = r.in(0, 1);
            if (s.layout == 2 && s.v.size() % 2) s.layout = 1;
        }
        for (size_t i = 0; i < s.v.size(); i++) {
            if (cfg.fixed && r.p(0.06)) { s.v[i].fixed = true; s.v[i].init = hid[i]; s.v[i].has_init = true;
                if (hid[i] < s.v[i].lb || hid[i] > s.v[i].ub) { s.v[i].fixed = false; s.v[i].has_init = false; } }
            else if (r.p(0.5)) { s.v[i].has_init = true; s.v[i].init = r.in(s.v[i].lb, s.v[i].ub); }
        }
        if (r.p(cfg.p_user_sel))
            for (auto &k : s.k) {
                bool part = k.sense == 'E' && k.t.size() >= 2;
                for (auto &e : k.t) if (!bin(e.first) || e.second != k.t[0].second) part = false;
                if (part && k.c == -k.t[0].second && r.p(0.6)) k.sel = true;
            }
#ifdef _PRINTEMPS_MPS_SOLVER
        s.minimize = true;  // the library of the standalone solver only minimizes
#endif
        // degenerate bounds of unfixed variables
        if (!cfg.big && r.p(cfg.p_degenerate))
            for (int i = 0; i < (int)s.v.size(); i++) {
                auto &v = s.v[i];
                if (i != s.wide && !v.fixed && r.p(0.3)) { (r.p(0.5) ? v.lb : v.ub) = bin(i) ? r.in(0, 1) : r.in(v.lb, v.ub); if (v.lb > v.ub || r.p(0.5)) v.lb = v.ub = r.p(0.5) ? v.lb : v.ub; v.has_init = false; }
            }
        if (r.p(cfg.p_bad_init))
            for (auto &v : s.v)
                if (!v.fixed && r.p(0.4)) { v.has_init = true; v.init = r.p(0.5) ? std::min(v.ub, 1000000000) + r.in(1, 3) : std::max(v.lb, -1000000000) - r.in(1, 3); }
        if (s.wide < 0 && cfg.p_scale > 0 && r.p(cfg.p_scale)) {
            s.scaled = true;
            for (auto &k : s.k)
                if (r.p(0.5)) {
                    double f = r.pick<double>({0.01, 1000, 100000, 1e6, 1e7});
                    for (auto &e : k.t) e.second *= f;
                    k.c *= f;
                }
            if (r.p(0.5)) {
                double f = r.pick<double>({0.001, 1e4, 1e6, 1e9});
                for (auto &e : s.obj) e.second *= f;
                s.oc *= f;
            }
        }
        return s;
    }
};
inline Spec generate(Rng &r, const GenCfg &cfg = GenCfg()) {
    for (int t = 0; t < 50; t++) {
        Gen g(r, cfg);
        Spec s = g.make();
        if ((cfg.big || s.box_size() <= cfg.maxbox) && !s.v.empty()) return s;
    }
    Gen g(r, cfg);
    g.newvar(0, 1);
    return g.make();
}

/*----------------------------------------------------------- model builder -*/
struct Built {
    std::vector<IPVar *> v;
};
inline void build(const Spec &s, IPModel *m, Built *b) {
    const int n = s.v.size();
    if (s.layout == 0) {
        for (auto &e : s.v) {
            auto &p = m->create_variable(e.name, e.lb, e.ub);
            b->v.push_back(&p(0));
        }
    } else if (s.layout == 1) {
        auto &p = m->create_variables("x", n);
        for (int i = 0; i < n; i++) { p(i).set_bound(s.v[i].lb, s.v[i].ub); b->v.push_back(&p(i)); }
    } else {
        auto &p = m->create_variables("x", {n / 2, 2});
        for (int i = 0; i < n; i++) { p(i / 2, i % 2).set_bound(s.v[i].lb, s.v[i].ub); b->v.push_back(&p(i / 2, i % 2)); }
    }
    auto ex = [&](const std::vector<std::pair<int, double>> &t, double c) {
        auto e = IPExpr::create_instance();
        for (auto &q : t) e = e + q.second * *b->v[q.first];
        e = e + c;
        return e;
    };
    for (auto &q : s.e) m->create_expression(q.name, ex(q.t, q.c));
    if (s.klayout == 0 || s.k.empty()) {
        for (auto &k : s.k) {
            auto e = ex(k.t, k.c);
            if (k.sense == 'L') { auto &p = m->create_constraint(k.name, e <= 0); if (k.sel) p(0).set_is_user_defined_selection(true); }
            if (k.sense == 'G') { auto &p = m->create_constraint(k.name, e >= 0); if (k.sel) p(0).set_is_user_defined_selection(true); }
            if (k.sense == 'E') { auto &p = m->create_constraint(k.name, e == 0); if (k.sel) p(0).set_is_user_defined_selection(true); }
        }
    } else {
        auto &p = m->create_constraints("k", (int)s.k.size());
        for (size_t i = 0; i < s.k.size(); i++) {
            auto &k = s.k[i];
            auto  e = ex(k.t, k.c);
            if (k.sense == 'L') p((int)i) = e <= 0;
            if (k.sense == 'G') p((int)i) = e >= 0;
            if (k.sense == 'E') p((int)i) = e == 0;
            if (k.sel) p((int)i).set_is_user_defined_selection(true);
        }
    }
    if (s.has_obj) {
        if (s.minimize) m->minimize(ex(s.obj, s.oc));
        else m->maximize(ex(s.obj, s.oc));
    }
    for (size_t i = 0; i < s.v.size(); i++) {
        if (s.v[i].fixed) b->v[i]->fix_by(s.v[i].init);
        else if (s.v[i].has_init) *b->v[i] = s.v[i].init;
    }
}

/* reading a named solution back through its public accessors */
template <class N>
inline std::vector<int> values_of(const Spec &s, const N &n) {
    std::vector<int> x;
    for (int i = 0; i < (int)s.v.size(); i++) {
        if (s.layout == 0) x.push_back(n.variables(s.v[i].name).value());
        else if (s.layout == 1) x.push_back(n.variables("x").values(i));
        else x.push_back(n.variables("x").values(i / 2, i % 2));
    }
    return x;
}
template <class N>
inline std::pair<double, double> row_of(const Spec &s, const N &n, int j) {
    if (s.klayout == 0) return {n.constraints(s.k[j].name).value(), n.violations(s.k[j].name).value()};
    return {n.constraints("k").values(j), n.violations("k").values(j)};
}

/*---------------------------------------------------------- option sampler -*/
struct OptCfg {
    bool presolve_random = true, neighborhood_random = true, duals = true, parallel = false;
    bool misc = true, extra = true;
    int  outer_max = 8, inner_max = 60;
};
inline Option random_option(Rng &r, const OptCfg &c, std::string *desc = nullptr) {
    namespace po = printemps::option;
    Option o;
    o.output.verbose = po::verbose::Off;
    o.general.iteration_max     = r.in(1, c.outer_max);
    o.tabu_search.iteration_max = r.in(c.inner_max < 5 ? 0 : 5, c.inner_max);
    o.local_search.iteration_max = r.in(1, 200);
    o.lagrange_dual.iteration_max = r.in(1, 300);
    o.pdlp.iteration_max = r.in(10, 3000);
    o.general.time_max = 1e6; o.tabu_search.time_max = 1e6; o.local_search.time_max = 1e6;
    o.lagrange_dual.time_max = 1e6; o.pdlp.time_max = 1e6;
    o.general.seed = r.in(0, 1000000);
    std::ostringstream d;
    if (c.presolve_random && r.p(0.7)) {
        auto &p = o.preprocess;
        p.is_enabled_presolve = r.p(0.9);
        p.is_enabled_remove_duplicated_constraints = r.p(0.7);
        p.is_enabled_remove_redundant_set_constraints = r.p(0.7);
        p.is_enabled_extract_implicit_equality_constraints = r.p(0.7);
        p.is_enabled_extract_dependent_exclusive_or = r.p(0.7);
        p.is_enabled_extract_dependent_exclusive_nor = r.p(0.7);
        p.is_enabled_extract_dependent_inverted_integers = r.p(0.7);
        p.is_enabled_extract_dependent_balanced_integers = r.p(0.7);
        p.is_enabled_extract_dependent_constant_sum_integers = r.p(0.7);
        p.is_enabled_extract_dependent_constant_difference_integers = r.p(0.7);
        p.is_enabled_extract_dependent_constant_ratio_integers = r.p(0.7);
        p.is_enabled_extract_dependent_intermediate = r.p(0.7);
        p.is_enabled_remove_redundant_set_variables = r.p(0.3);
        p.is_enabled_online_bounding = r.p(0.4);
    }
    if (c.neighborhood_random && r.p(0.7)) {
        auto &n = o.neighborhood;
        n.selection_mode = (po::selection_mode::SelectionMode)r.in(0, 5);
        n.improvability_screening_mode = (po::improvability_screening_mode::ImprovabilityScreeningMode)r.in(0, 4);
        n.is_enabled_precedence_move = r.p(0.5);
        n.is_enabled_variable_bound_move = r.p(0.5);
        n.is_enabled_soft_selection_move = r.p(0.5);
        n.is_enabled_trinomial_exclusive_nor_move = r.p(0.5);
        n.is_enabled_two_flip_move = r.p(0.3);
        n.is_enabled_chain_move = r.p(0.7);
        n.is_enabled_integer_step_size_adjuster = r.p(0.4);
        n.chain_move_capacity = r.pick<int>({100000, 10, 3});
        n.chain_move_reduce_mode = (po::chain_move_reduce_mode::ChainMoveReduceMode)r.in(0, 1);
    }
    if (c.duals) {
        o.lagrange_dual.is_enabled = r.p(0.3);
        o.pdlp.is_enabled          = r.p(0.3);
        o.local_search.is_enabled  = r.p(0.7);
    }
    if (c.misc) {
        o.tabu_search.tabu_mode = (po::tabu_mode::TabuMode)r.in(0, 1);
        o.tabu_search.is_enabled_shuffle = r.p(0.8);
        o.tabu_search.is_enabled_automatic_break = r.p(0.7);
        o.tabu_search.is_enabled_initial_modification = r.p(0.7);
        o.tabu_search.is_enabled_automatic_tabu_tenure_adjustment = r.p(0.7);
        o.tabu_search.is_enabled_automatic_iteration_adjustment = r.p(0.7);
        o.tabu_search.initial_tabu_tenure = r.in(1, 10);
        o.penalty.is_enabled_group_penalty_coefficient = r.p(0.3);
        o.penalty.is_enabled_shrink_penalty_coefficient = r.p(0.7);
        o.penalty.initial_penalty_coefficient = r.pick<double>({1e7, 1e3, 10.0});
        o.restart.restart_mode = (po::restart_mode::RestartMode)r.in(0, 1);
        o.general.is_enabled_fast_evaluation = r.p(0.85);
        o.output.is_enabled_store_feasible_solutions = r.p(0.3);
        o.output.feasible_solutions_capacity = r.pick<int>({1000, 5, 1});
    }
    if (c.extra && r.p(0.4)) {
        auto &n = o.neighborhood;
        if (r.p(0.2)) n.is_enabled_binary_move = false;
        if (r.p(0.2)) n.is_enabled_integer_move = false;
        n.is_enabled_exclusive_or_move = r.p(0.7);
        n.is_enabled_exclusive_nor_move = r.p(0.7);
        n.is_enabled_inverted_integers_move = r.p(0.7);
        n.is_enabled_balanced_integers_move = r.p(0.7);
        n.is_enabled_constant_sum_integers_move = r.p(0.7);
        n.is_enabled_constant_difference_integers_move = r.p(0.7);
        n.is_enabled_constant_ratio_integers_move = r.p(0.7);
        n.is_enabled_aggregation_move = r.p(0.7);
        n.chain_move_overlap_rate_threshold = r.pick<double>({0.0, 0.2, 0.7, 1.0});
        auto &t = o.tabu_search;
        t.tabu_tenure_randomize_rate = r.pick<double>({0.0, 0.3, 1.0});
        t.initial_modification_fixed_rate = r.pick<double>({0.0, 0.5, 1.0});
        t.initial_modification_randomize_rate = r.pick<double>({0.0, 0.5, 1.0});
        t.is_enabled_move_curtail = r.p(0.4);
        t.move_preserve_rate = r.pick<double>({0.1, 0.5, 1.0});
        t.frequency_penalty_coefficient = r.pick<double>({0.0, 1e-4, 1.0});
        t.lagrangian_penalty_coefficient = r.pick<double>({0.0, 1.0, 10.0});
        t.pruning_rate_threshold = r.pick<double>({0.1, 0.5, 1.0});
        t.intensity_increase_count_threshold = r.in(1, 10);
        t.intensity_decrease_count_threshold = r.in(1, 10);
        t.iteration_increase_rate = r.pick<double>({1.0, 1.5, 3.0});
        t.iteration_decrease_rate = r.pick<double>({0.1, 0.9, 1.0});
        t.ignore_tabu_if_global_incumbent = r.p(0.5);
        t.number_of_initial_modification = r.pick<int>({0, 1, 5, 100});
        t.seed = r.in(0, 1000);
        o.local_search.seed = r.in(0, 1000);
        auto &q = o.penalty;
        q.penalty_coefficient_relaxing_rate = r.pick<double>({0.5, 0.9, 0.999});
        q.penalty_coefficient_tightening_rate = r.pick<double>({0.1, 1.0, 2.0});
        q.penalty_coefficient_updating_balance = r.pick<double>({0.0, 0.3, 1.0});
        q.inner_stagnation_threshold = r.in(1, 20);
        q.outer_stagnation_threshold = r.in(1, 20);
        q.is_enabled_inner_stagnation_breaker = r.p(0.7);
        q.is_enabled_outer_stagnation_breaker = r.p(0.7);
        auto &l = o.lagrange_dual;
        l.queue_size = r.pick<int>({1, 3, 100});
        l.step_size_extend_rate = r.pick<double>({1.0, 1.05, 1.5});
        l.step_size_reduce_rate = r.pick<double>({0.5, 0.95});
        auto &d = o.pdlp;
        d.restart_check_interval = r.pick<int>({1, 10, 50});
        d.convergence_check_interval = r.pick<int>({1, 10, 50});
        d.counts_of_ruiz_scaling = r.pick<int>({0, 1, 10});
        d.is_enabled_pock_chambolle_scaling = r.p(0.5);
    }
    if (!c.parallel) {
        o.parallel.is_enabled_move_update_parallelization = false;
        o.parallel.is_enabled_move_evaluation_parallelization = false;
        o.parallel.is_enabled_automatic_move_update_parallelization = false;
        o.parallel.is_enabled_automatic_move_evaluation_parallelization = false;
        o.parallel.number_of_threads_move_update = 1;
        o.parallel.number_of_threads_move_evaluation = 1;
    }
    if (desc) {
        d << "outer=" << o.general.iteration_max << ",inner=" << o.tabu_search.iteration_max << ",seed=" << o.general.seed
          << ",presolve=" << o.preprocess.is_enabled_presolve << ",sel=" << (int)o.neighborhood.selection_mode
          << ",screen=" << (int)o.neighborhood.improvability_screening_mode << ",lag=" << o.lagrange_dual.is_enabled
          << ",pdlp=" << o.pdlp.is_enabled << ",ls=" << o.local_search.is_enabled;
        *desc = d.str();
    }
    return o;
}

inline std::string xs(const std::vector<int> &x) {
    std::string o = "(";
    for (size_t i = 0; i < x.size(); i++) o += (i ? "," : "") + std::to_string(x[i]);
    return o + ")";
}
inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.12g", d); return b; }
inline bool near(double a, double b, double tol = 1e-7) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

/*-------------------------------------------------------------- case loop --*/
struct Args {
    uint64_t    seed = 1;
    long        from = 0, n = 100;
    long        only = -1;
    bool        verbose = false;
    std::string mode = "all", scratch, state;
};
inline Args parse(int argc, char **argv) {
    Args a;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
        if (k == "--from") a.from = atol(v.c_str());
        if (k == "--n") a.n = atol(v.c_str());
        if (k == "--only") a.only = atol(v.c_str());
        if (k == "--mode") a.mode = v;
        if (k == "--scratch") a.scratch = v;
        if (k == "--state") a.state = v;
        if (k == "--verbose") a.verbose = v == "1";
    }
    if (a.only >= 0) { a.from = a.only; a.n = 1; }
    return a;
}
inline uint64_t case_seed(const Args &a, long i) { return a.seed * 1000003ull + (uint64_t)i * 7919ull + 17; }
// everything a returned solution claims, recomputed from the user's model
template <class S, class F>
void judge_result(Report &R, const Spec &s, const S &sol, const Built *b, F fail) {
        auto x    = values_of(s, sol);
        bool feas = sol.is_feasible();
        double obj = s.objective(x), tv = s.total_violation(x);
        if (feas) {
            if (!s.in_box(x)) fail("P01:bounds", "x=" + xs(x));
            else if (!s.feasible(x)) fail("P01:constraint", "x=" + xs(x) + " viol=" + num(tv));
        } else {
            if (s.feasible(x)) fail("P02:isfeasible", "feasible point reported infeasible x=" + xs(x));
        }
        if (!near(sol.objective(), obj)) fail("P02:objective", "reported " + num(sol.objective()) + " actual " + num(obj) + " x=" + xs(x));
        double lv = 0;  // every violation listed in the solution
        bool   added = false;  // rows added by preprocessing count in the total as well
        for (auto &q : sol.violations()) {
            if (q.first[0] != 'k') added = true;
            for (auto z : q.second.flat_indexed_values()) lv += z;
        }
        double rtv = sol.total_violation();
        if (added ? (rtv < lv - 1e-6 * (1 + lv)) : !near(rtv, lv)) fail("P02:total_violation", "reported " + num(rtv) + " listed " + num(lv) + " x=" + xs(x));
        if (s.in_box(x) && (sol.total_violation() < 1e-6) != (tv < 1e-6)) fail("P02:total_violation0", "reported " + num(sol.total_violation()) + " actual " + num(tv) + " x=" + xs(x));
        for (size_t j = 0; j < s.k.size(); j++) {
            auto   rv = row_of(s, sol, j);
            double cv = rv.first, vv = rv.second;
            R.ev("constraint_values_checked");
            if (!near(cv, s.con_value(j, x))) fail("P02:constraint_value", s.k[j].name + " reported " + num(cv) + " actual " + num(s.con_value(j, x)) + " x=" + xs(x));
            if (!near(vv, s.violation(j, x))) fail("P02:violation_value", s.k[j].name + " reported " + num(vv) + " actual " + num(s.violation(j, x)) + " x=" + xs(x));
        }
        for (size_t j = 0; j < s.e.size(); j++) {
            double q = sol.expressions(s.e[j].name).value();
            R.ev("expression_values_checked");
            if (!near(q, s.exp_value(j, x))) fail("P02:expression_value", s.e[j].name + " reported " + num(q) + " actual " + num(s.exp_value(j, x)) + " x=" + xs(x));
        }
        if (b)  // the model is left at the returned solution
            for (size_t j = 0; j < b->v.size(); j++) {
                R.ev("model_values_checked");
                if (b->v[j]->value() != x[j]) fail("P02:model-value", b->v[j]->name() + " holds " + std::to_string(b->v[j]->value()) + " reported " + std::to_string(x[j]));
            }
}
}  // namespace vf
