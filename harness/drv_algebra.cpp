// Algebra monitor: random programs over the modelling operators, carried out by
// the library and by a plain linear-form interpreter; every element is compared
// after every statement.
#include "vf.h"
using namespace vf;
using Expr = printemps::model_component::Expression<int, double>;
using Var = printemps::model_component::Variable<int, double>;
using VP = printemps::model_component::VariableProxy<int, double>;
using EP = printemps::model_component::ExpressionProxy<int, double>;
using Con = printemps::model_component::Constraint<int, double>;
using printemps::model_component::Range;

struct Lin {
    std::map<int, double> a; double c = 0;
    Lin &operator+=(const Lin &o) { for (auto &t : o.a) a[t.first] += t.second; c += o.c; return *this; }
    Lin &operator-=(const Lin &o) { for (auto &t : o.a) a[t.first] -= t.second; c -= o.c; return *this; }
    Lin &operator*=(double k) { for (auto &t : a) t.second *= k; c *= k; return *this; }
    double at(const std::vector<int> &x) const { double v = c; for (auto &t : a) v += t.second * x[t.first]; return v; }
};
struct Arr { std::vector<int> shape; int n = 1; std::vector<int> pos(int i) const { std::vector<int> p(shape.size()); for (int j = shape.size() - 1; j >= 0; j--) { p[j] = i % shape[j]; i /= shape[j]; } return p; } };

struct World {
    IPModel m;
    std::vector<VP *> vp; std::vector<Arr> va; std::vector<int> voff; int nv = 0;
    std::vector<EP *> ep; std::vector<Arr> ea; std::vector<std::vector<Lin>> el;
    std::map<const Var *, int> id; std::vector<Var *> var;
    std::vector<int> x;
};
static Arr shape_of(Rng &r) {
    Arr a; int d = r.pick<int>({0, 1, 1, 1, 2, 2, 3});
    for (int i = 0; i < d; i++) { a.shape.push_back(r.in(1, d == 1 ? 5 : 3)); a.n *= a.shape.back(); }
    if (!d) a.shape = {1};
    return a;
}
static std::string show(const Lin &l) { std::ostringstream o; for (auto &t : l.a) if (t.second) o << t.second << "*x" << t.first << " "; o << l.c; return o.str(); }
static bool same(World &w, const Expr &e, const Lin &l, std::string *why) {
    std::map<int, double> b;
    for (auto &t : e.sensitivities()) {
        auto k = w.id.find(t.first);
        if (k == w.id.end()) { *why = "foreign variable"; return false; }
        b[k->second] += t.second;
    }
    auto cmp = [&](int k) { double p = b.count(k) ? b[k] : 0, q = l.a.count(k) ? l.a.at(k) : 0; return near(p, q, 1e-9); };
    bool ok = near(e.constant_value(), l.c, 1e-9);
    for (auto &t : b) ok &= cmp(t.first);
    for (auto &t : l.a) ok &= cmp(t.first);
    if (ok && !near(e.evaluate(), l.at(w.x), 1e-9)) ok = false;
    if (!ok) { Lin g; g.a = b; g.c = e.constant_value(); *why = "got " + show(g) + " (=" + num(e.evaluate()) + ") expected " + show(l) + " (=" + num(l.at(w.x)) + ")"; }
    return ok;
}
// what sum/dot over a pattern of indices cover, in order
static std::vector<int> cover(const Arr &a, const std::vector<int> &pat) {
    std::vector<int> out;
    for (int i = 0; i < a.n; i++) {
        auto p = a.pos(i); bool ok = true;
        for (size_t j = 0; j < pat.size(); j++) ok &= pat[j] == Range::All || pat[j] == p[j];
        if (ok) out.push_back(i);
    }
    return out;
}
static double coef(Rng &r) { return r.pick<double>({1, -1, 2, 3, -2, 0.5, -0.25, 0, 10, 1.5, 7}); }
static Lin varlin(int id) { Lin l; l.a[id] = 1; return l; }

// a random expression, built through the library and the interpreter
static Expr gen(Rng &r, World &w, int depth, Lin *l, std::string *txt) {
    int k = r.in(0, depth > 0 ? 21 : 7);
    auto anyv = [&](int *a, int *i) { *a = r.in(0, (int)w.vp.size() - 1); *i = r.in(0, w.va[*a].n - 1); };
    auto pattern = [&](const Arr &a, bool one) { std::vector<int> p = a.pos(r.in(0, a.n - 1)); int left = one ? 1 : 9; for (auto &q : p) if (left > 0 && r.p(0.6)) { q = Range::All; left--; } return p; };
    switch (k) {
        case 0: case 1: {
            int a, i; anyv(&a, &i);
            double c = coef(r);
            *l = varlin(w.voff[a] + i); *l *= c;
            *txt = num(c) + "*x" + std::to_string(w.voff[a] + i);
            auto &v = r.p(0.5) ? (*w.vp[a])[i] : (*w.vp[a])(w.va[a].pos(i));
            switch (r.in(0, 3)) { case 0: return v * c; case 1: return c * v; case 2: return c == 0 ? v * c : v / (1 / c); default: return v.to_expression() * c; }
        }
        case 2: { int a = r.in(0, (int)w.vp.size() - 1); *l = Lin(); for (int i = 0; i < w.va[a].n; i++) l->a[w.voff[a] + i] += 1; *txt = "sum(v" + std::to_string(a) + ")"; return w.vp[a]->sum(); }
        case 3: {
            int a = r.in(0, (int)w.vp.size() - 1); auto p = pattern(w.va[a], false);
            *l = Lin(); for (int i : cover(w.va[a], p)) l->a[w.voff[a] + i] += 1;
            *txt = "vsum(v" + std::to_string(a) + "," + xs(p) + ")"; return w.vp[a]->sum(p);
        }
        case 4: {
            int a = r.in(0, (int)w.vp.size() - 1); bool full = w.va[a].shape.size() == 1 && r.p(0.5);
            auto p = pattern(w.va[a], true); auto c = full ? cover(w.va[a], std::vector<int>(1, Range::All)) : cover(w.va[a], p);
            std::vector<double> k; for (size_t i = 0; i < c.size(); i++) k.push_back(coef(r));
            *l = Lin(); for (size_t i = 0; i < c.size(); i++) l->a[w.voff[a] + c[i]] += k[i];
            *txt = "vdot(v" + std::to_string(a) + "," + xs(p) + ")";
            if (full) return w.vp[a]->dot(k);
            return w.vp[a]->dot(p, k);
        }
        case 5: { int a = r.in(0, (int)w.ep.size() - 1), i = r.in(0, w.ea[a].n - 1); *l = w.el[a][i]; *txt = "e" + std::to_string(a) + "[" + std::to_string(i) + "]"; return +(r.p(0.5) ? (*w.ep[a])[i] : (*w.ep[a])(w.ea[a].pos(i))); }
        case 6: {
            int a = r.in(0, (int)w.ep.size() - 1); bool full = r.p(0.3); auto p = pattern(w.ea[a], false);
            *l = Lin(); for (int i : full ? cover(w.ea[a], std::vector<int>(w.ea[a].shape.size(), Range::All)) : cover(w.ea[a], p)) *l += w.el[a][i];
            *txt = "esum(e" + std::to_string(a) + (full ? "" : "," + xs(p)) + ")";
            return full ? w.ep[a]->sum() : w.ep[a]->sum(p);
        }
        case 7: {
            int a = r.in(0, (int)w.ep.size() - 1); bool full = w.ea[a].shape.size() == 1 && r.p(0.5);
            auto p = pattern(w.ea[a], true); auto c = full ? cover(w.ea[a], std::vector<int>(1, Range::All)) : cover(w.ea[a], p);
            std::vector<double> k; for (size_t i = 0; i < c.size(); i++) k.push_back(coef(r));
            *l = Lin(); for (size_t i = 0; i < c.size(); i++) { Lin q = w.el[a][c[i]]; q *= k[i]; *l += q; }
            *txt = "edot(e" + std::to_string(a) + "," + xs(p) + ")";
            if (full) return w.ep[a]->dot(k);
            return w.ep[a]->dot(p, k);
        }
        case 8: case 9: case 10: { Lin q; std::string t, u; Expr a = gen(r, w, depth - 1, l, &t), b = gen(r, w, depth - 1, &q, &u); *l += q; *txt = "(" + t + " + " + u + ")"; return a + b; }
        case 11: case 12: { Lin q; std::string t, u; Expr a = gen(r, w, depth - 1, l, &t), b = gen(r, w, depth - 1, &q, &u); *l -= q; *txt = "(" + t + " - " + u + ")"; return a - b; }
        case 13: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); double c = coef(r); *l *= c; *txt = num(c) + "*(" + t + ")"; return r.p(0.5) ? a * c : c * a; }
        case 14: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); double c = r.pick<double>({2, 4, -1, 0.5}); *l *= 1 / c; *txt = "(" + t + ")/" + num(c); return a / c; }
        case 15: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); int c = r.in(-4, 9); l->c += c; *txt = "(" + t + "+" + std::to_string(c) + ")"; return r.p(0.5) ? a + c : c + a; }
        case 16: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); double c = coef(r); l->c -= c; *txt = "(" + t + "-" + num(c) + ")"; return a - c; }
        case 17: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); double c = coef(r); *l *= -1; l->c += c; *txt = "(" + num(c) + "-" + t + ")"; return c - a; }
        case 18: { std::string t; Expr a = gen(r, w, depth - 1, l, &t); *l *= -1; *txt = "-(" + t + ")"; return -a; }
        case 19: {  // variable op variable, variable op expression
            int a, i, b, j; anyv(&a, &i); anyv(&b, &j);
            auto &u = (*w.vp[a])[i]; auto &v = (*w.vp[b])[j];
            *l = varlin(w.voff[a] + i); Lin q = varlin(w.voff[b] + j);
            bool minus = r.p(0.5); if (minus) *l -= q; else *l += q;
            *txt = "x" + std::to_string(w.voff[a] + i) + (minus ? "-" : "+") + "x" + std::to_string(w.voff[b] + j);
            return minus ? u - v : u + v;
        }
        case 20: {
            int a, i; anyv(&a, &i); std::string t; Lin q; Expr e = gen(r, w, depth - 1, &q, &t);
            auto &u = (*w.vp[a])[i]; Lin z = varlin(w.voff[a] + i);
            switch (r.in(0, 3)) {
                case 0: *l = z; *l += q; *txt = "x+(" + t + ")"; return u + e;
                case 1: *l = z; *l -= q; *txt = "x-(" + t + ")"; return u - e;
                case 2: *l = q; *l += z; *txt = "(" + t + ")+x"; return e + u;
                default: *l = q; *l -= z; *txt = "(" + t + ")-x"; return e - u;
            }
        }
        default: {  // arrays of one element stand for their element
            std::vector<int> one;
            for (size_t a = 0; a < w.ep.size(); a++) if (w.ea[a].n == 1) one.push_back(a);
            if (one.empty()) { int a, i; anyv(&a, &i); *l = varlin(w.voff[a] + i); *l *= -1; *txt = "-x"; return -(*w.vp[a])[i]; }
            int a = r.pick(one); std::string t; Lin q; Expr e = gen(r, w, depth - 1, &q, &t); EP &p = *w.ep[a];
            *l = w.el[a][0];
            switch (r.in(0, 4)) {
                case 0: *l += q; *txt = "E+(" + t + ")"; return p + e;
                case 1: *l -= q; *txt = "E-(" + t + ")"; return p - e;
                case 2: *l *= -1; *txt = "-E"; return -p;
                case 3: *l *= 3; l->c += 1; *txt = "3*E+1"; return 3 * p + 1;
                default: { Lin z = q; z -= *l; *l = z; *txt = "(" + t + ")-E"; return e - p; }
            }
        }
    }
}

// arrays: every way of reaching an element reaches the same one, arrays of one element stand for it, larger ones refuse to
static void arrays(Rng &r, World &w, Report &R, const std::string &id) {
    typedef printemps::model_component::ConstraintProxy<int, double> CP;
    typedef printemps::model_component::VariableProxy<int, double>   VP;
    std::string bad;
    auto        want = [&](bool ok, const std::string &what) { if (!ok && bad.empty()) bad = what; };
    auto        refuses = [&](auto f) { try { f(); } catch (const std::logic_error &) { return true; } return false; };
    auto        reach = [&](auto &p, const Arr &a, const char *kind) {
        const auto &c = p; std::string k = std::string(kind) + " array " + xs(a.shape) + ": ";
        want(c.number_of_elements() == a.n && (int)c.number_of_dimensions() == (int)a.shape.size() && c.shape() == a.shape, k + "size or shape");
        for (int i = 0; i < a.n; i++) {
            auto q = a.pos(i);
            want(&p(q) == &p[i] && &c(q) == &c[i] && &p[i] == &c[i], k + "element " + xs(q) + " by index list");
            if (q.size() == 1) want(&p(q[0]) == &p[i] && &c(q[0]) == &c[i], k + "element " + xs(q) + " by index");
            if (q.size() == 2) want(&p(q[0], q[1]) == &p[i] && &c(q[0], q[1]) == &c[i], k + "element " + xs(q) + " by indices");
            if (q.size() == 3) want(&p(q[0], q[1], q[2]) == &p[i] && &c(q[0], q[1], q[2]) == &c[i], k + "element " + xs(q) + " by indices");
            want(c.flat_index(q) == i && c.multi_dimensional_index(i) == q, k + "index conversion of " + xs(q));
        }
        auto z = a.pos(0); z.push_back(0);
        want(refuses([&] { p(z); }) && refuses([&] { c(z); }), k + "accepted an index of the wrong dimension");
        R.ev("array_elements_reached", a.n);
    };
    auto exported = [&](auto px, const Arr &a, auto value, auto name, const char *kind) {
        const auto &c = px; std::string k = std::string(kind) + " exported from an array " + xs(a.shape) + ": ";
        want(c.number_of_elements() == a.n && c.shape() == a.shape, k + "size or shape");
        for (int i = 0; i < a.n; i++) {
            auto q = a.pos(i);
            want(near(px.values(q), value(i), 1e-9) && near(c.values(q), value(i), 1e-9) && near(c[i], value(i), 1e-9) && near(px[i], value(i), 1e-9) && near(c.flat_indexed_values(i), value(i), 1e-9), k + "value of " + xs(q));
            want(px.names(q) == name(i) && c.names(q) == name(i) && c.flat_indexed_names(i) == name(i), k + "name of " + xs(q));
            if (q.size() == 2) want(near(px(q[0], q[1]), value(i), 1e-9) && near(c(q[0], q[1]), value(i), 1e-9) && c.names(q[0], q[1]) == name(i), k + "element " + xs(q) + " by indices");
        }
        if (a.n == 1) want(near(c.value(), value(0), 1e-9) && c.name() == name(0), k + "only value");
        else want(refuses([&] { c.value(); }) && refuses([&] { c.name(); }), k + "several values given as one");
        R.ev("arrays_exported");
    };
    printemps::model::IPModel m;
    Arr  sv = shape_of(r), sc = shape_of(r), se = shape_of(r);
    VP  &v = m.create_variables("v", sv.shape);
    EP  &e = m.create_expressions("e", se.shape);
    CP  &c = m.create_constraints("c", sc.shape);
    std::vector<int> x(sv.n), lb(sv.n), ub(sv.n);
    std::vector<bool> fx(sv.n, false);
    for (int i = 0; i < sv.n; i++) want(v[i].lower_bound() == printemps::constant::INT_HALF_MIN && v[i].upper_bound() == printemps::constant::INT_HALF_MAX && !v[i].is_fixed(), "a new variable is bounded or fixed");
    int lo = r.in(-5, 3), hi = lo + r.in(0, 5);
    v.set_bound(lo, hi);
    for (int i = 0; i < sv.n; i++) lb[i] = lo, ub[i] = hi;
    for (int i = 0; i < sv.n; i++) {
        auto &y = v(sv.pos(i));
        if (r.p(0.4)) { lb[i] = r.in(-5, 3); ub[i] = lb[i] + r.in(0, 4); y.set_bound(lb[i], ub[i]); }
        x[i] = r.in(lb[i], ub[i]);
        if (r.p(0.3)) { y.fix_by(x[i]); fx[i] = true; if (r.p(0.3)) { y.unfix(); fx[i] = false; } }
        else { y = x[i]; if (r.p(0.2)) { y.fix(); fx[i] = true; } }
    }
    if (sv.n == 1 && r.p(0.5)) { v.unfix(); x[0] = r.in(lb[0], ub[0]); if (r.p(0.5)) v = x[0]; else v.set_value(x[0]); fx[0] = r.p(0.5); if (fx[0]) { if (r.p(0.5)) v.fix(); else v.fix_by(x[0]); } }
    for (int i = 0; i < sv.n; i++) {
        auto &y = v[i]; bool bin = lb[i] >= 0 && ub[i] <= 1;
        want(y.value() == x[i] && near(y.evaluate(), x[i], 0), "value of a variable");
        want(y.lower_bound() == lb[i] && y.upper_bound() == ub[i] && y.has_bounds(), "bounds of a variable");
        want(y.is_fixed() == fx[i], "fixedness of a variable");
        want(lb[i] == ub[i] || (y.sense() == printemps::model_component::VariableSense::Binary) == bin, "type of a variable");
        want(near(y.to_expression().evaluate(), x[i], 0), "expression of a variable");
    }
    const VP &cv = v;
    if (sv.n == 1) {
        auto &y = v[0];
        want(cv.value() == y.value() && cv.evaluate() == y.evaluate() && cv.lower_bound() == y.lower_bound() && cv.upper_bound() == y.upper_bound() && cv.is_fixed() == y.is_fixed() && cv.sense() == y.sense() && cv.has_bounds() == y.has_bounds() && cv.name() == y.name()
             && near((+cv).evaluate(), x[0], 0) && near((-cv).evaluate(), -x[0], 0) && near(cv.to_expression().evaluate(), x[0], 0), "an array of one variable does not stand for it");
    } else {
        want(refuses([&] { cv.value(); }) && refuses([&] { cv.evaluate(); }) && refuses([&] { cv.lower_bound(); }) && refuses([&] { cv.upper_bound(); }) && refuses([&] { cv.is_fixed(); }) && refuses([&] { cv.sense(); }) && refuses([&] { cv.has_bounds(); }) && refuses([&] { cv.name(); })
             && refuses([&] { v = 0; }) && refuses([&] { v.set_value(0); }) && refuses([&] { v.fix(); }) && refuses([&] { v.unfix(); }) && refuses([&] { v.fix_by(0); }) && refuses([&] { v.set_name("z"); }) && refuses([&] { cv.to_expression(); }) && refuses([&] { +cv; }) && refuses([&] { -cv; }), "several variables taken for one");
    }
    // expressions and constraints over them
    std::vector<Lin> el(se.n), cl(sc.n); std::vector<int> cs(sc.n);
    auto lin = [&](Expr *z) { Lin l; *z = Expr::create_instance(); int k = r.in(1, 3); for (int j = 0; j < k; j++) { int i = r.in(0, sv.n - 1); double f = coef(r); *z += f * v[i]; l.a[i] += f; } double f = coef(r); *z += f; l.c = f; return l; };
    for (int i = 0; i < se.n; i++) { Expr z = Expr::create_instance(); el[i] = lin(&z); e(se.pos(i)) = z; }
    for (int i = 0; i < sc.n; i++) {
        Expr z = Expr::create_instance(); cl[i] = lin(&z); cs[i] = r.in(0, 2);
        Con k = cs[i] == 0 ? (z <= 0) : cs[i] == 1 ? (z == 0) : (z >= 0);
        if (sc.n == 1 && r.p(0.5)) c = k; else c(sc.pos(i)) = k;
    }
    auto at = [&](const Lin &l) { return l.at(x); };
    auto vio = [&](int i) { double t = at(cl[i]); return cs[i] == 0 ? std::max(t, 0.0) : cs[i] == 1 ? std::fabs(t) : std::max(-t, 0.0); };
    for (int i = 0; i < se.n; i++) { e[i].update(); want(near(e[i].value(), at(el[i]), 1e-9) && near(e[i].evaluate(), at(el[i]), 1e-9), "value of an expression in an array"); }
    for (int i = 0; i < sc.n; i++) { c[i].update(); want(near(c[i].violation_value(), vio(i), 1e-9), "violation of a constraint in an array"); want(c[i].is_enabled(), "a new constraint is disabled"); }
    const EP &ce = e; const CP &cc = c;
    if (se.n == 1) {
        e.update();
        want(near(ce.value(), at(el[0]), 1e-9) && near(ce.evaluate(), at(el[0]), 1e-9) && near(ce.constant_value(), el[0].c, 1e-9) && ce.sensitivities() == e[0].sensitivities() && ce.name() == e[0].name() && near(ce.to_expression().evaluate(), at(el[0]), 1e-9), "an array of one expression does not stand for it");
    } else
        want(refuses([&] { ce.value(); }) && refuses([&] { ce.evaluate(); }) && refuses([&] { ce.constant_value(); }) && refuses([&] { ce.sensitivities(); }) && refuses([&] { ce.name(); }) && refuses([&] { ce.to_expression(); }) && refuses([&] { e.update(); }) && refuses([&] { e = 1.0; }) && refuses([&] { e += 1.0; }) && refuses([&] { e *= 2.0; }), "several expressions taken for one");
    if (sc.n == 1) want(near(cc.constraint_value(), c[0].constraint_value(), 0) && near(cc.violation_value(), vio(0), 1e-9) && cc.is_enabled() && cc.name() == c[0].name(), "an array of one constraint does not stand for it");
    else want(refuses([&] { cc.constraint_value(); }) && refuses([&] { cc.violation_value(); }) && refuses([&] { cc.is_enabled(); }) && refuses([&] { cc.name(); }) && refuses([&] { c = (v[0] <= 1); }) && refuses([&] { c.set_name("z"); }), "several constraints taken for one");
    reach(v, sv, "variable"); reach(e, se, "expression"); reach(c, sc, "constraint");
    exported(v.export_values_and_names(), sv, [&](int i) { return (double)x[i]; }, [&](int i) { return v[i].name(); }, "values of variables");
    exported(e.export_values_and_names(), se, [&](int i) { return at(el[i]); }, [&](int i) { return e[i].name(); }, "values of expressions");
    exported(c.export_violations_and_names(), sc, [&](int i) { return vio(i); }, [&](int i) { return c[i].name(); }, "violations of constraints");
    exported(c.export_values_and_names(), sc, [&](int i) { return c[i].constraint_value(); }, [&](int i) { return c[i].name(); }, "values of constraints");
    // a group chosen from an array
    {
        auto p = sv.pos(r.in(0, sv.n - 1)); for (auto &q : p) if (r.p(0.6)) q = Range::All;
        bool all = r.p(0.3); auto g = all ? std::vector<int>(p.size(), Range::All) : p;
        Con  s = all ? v.selection() : v.selection(p); s.update();
        double t = -1; for (int i : cover(sv, g)) t += x[i];
        want(s.sense() == printemps::model_component::ConstraintSense::Equal && near(s.constraint_value(), t, 1e-9) && near(s.violation_value(), std::fabs(t), 1e-9) && s.expression().sensitivities().size() == cover(sv, g).size(), "selection over " + xs(g));
    }
    // switching
    c.disable(); for (int i = 0; i < sc.n; i++) want(!c[i].is_enabled(), "disable leaves an element enabled");
    int one = r.in(0, sc.n - 1); c[one].enable(); for (int i = 0; i < sc.n; i++) want(c[i].is_enabled() == (i == one), "enabling one element");
    c.enable(); for (int i = 0; i < sc.n; i++) want(c[i].is_enabled(), "enable leaves an element disabled");
    v.reset_bound(); for (int i = 0; i < sv.n; i++) want(v[i].lower_bound() == printemps::constant::INT_HALF_MIN && v[i].upper_bound() == printemps::constant::INT_HALF_MAX, "reset leaves an element bounded");
    want(refuses([&] { v.set_bound(3, 2); }) && refuses([&] { v[0].set_bound(3, 2); }), "crossing bounds accepted");
    if (!bad.empty()) R.fail("P18:array", id, bad);
    R.ev("arrays_checked");
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long ci = a.from; ci < a.from + a.n; ci++) {
        R.begin(ci);
        Rng    r(case_seed(a, ci) ^ 0xa16eb);
        std::string id = "alg:" + std::to_string(a.seed) + ":" + std::to_string(ci);
        auto *wp = new World; World &w = *wp;
        int nvp = r.in(1, 3), nep = r.in(1, 3);
        for (int i = 0; i < nvp; i++) {
            Arr s = shape_of(r); w.va.push_back(s); w.voff.push_back(w.nv); w.nv += s.n;
            std::string nm = "v" + std::to_string(i);
            bool scalar = s.n == 1 && s.shape.size() == 1 && r.p(0.7), b = r.p(0.5);
            if (scalar) w.vp.push_back(&(b ? w.m.create_variable(nm, -3, 5) : w.m.create_variable(nm)));
            else if (s.shape.size() == 1 && r.p(0.5)) w.vp.push_back(&(b ? w.m.create_variables(nm, s.n, -3, 5) : w.m.create_variables(nm, s.n)));
            else w.vp.push_back(&(b ? w.m.create_variables(nm, s.shape, -3, 5) : w.m.create_variables(nm, s.shape)));
            if (!b) w.vp.back()->set_bound(-3, 5);
        }
        for (int i = 0; i < nvp; i++) for (int j = 0; j < w.va[i].n; j++) { w.id[&(*w.vp[i])[j]] = w.voff[i] + j; w.var.push_back(&(*w.vp[i])[j]); }
        w.x.assign(w.nv, 0);
        auto values = [&]() { for (int i = 0; i < w.nv; i++) { w.x[i] = r.in(-3, 5); w.var[i]->set_value_force(w.x[i]); } };
        values();
        std::string prog;
        for (int i = 0; i < nep; i++) {
            Arr s = shape_of(r); w.ea.push_back(s); w.el.emplace_back(s.n);
            std::string nm = "e" + std::to_string(i);
            if (s.n == 1 && s.shape.size() == 1) {
                if (r.p(0.5)) w.ep.push_back(&w.m.create_expression(nm));
                else { Lin l; l.c = 0; std::string t; int q = r.in(0, w.nv - 1); l = varlin(q); l.c = 2; w.ep.push_back(&w.m.create_expression(nm, *w.var[q] + 2)); w.el[i][0] = l; }
            } else if (s.shape.size() == 1 && r.p(0.5)) w.ep.push_back(&w.m.create_expressions(nm, s.n));
            else w.ep.push_back(&w.m.create_expressions(nm, s.shape));
        }
        int  steps = r.in(3, 30);
        bool bad = false;
        int  solved = 0;
        std::vector<std::tuple<Lin, int, printemps::model_component::ConstraintProxy<int, double> *>> cons;
        uint64_t hh = 1;
        for (int st = 0; st < steps && !bad; st++) {
            Lin l; std::string t, s; std::string why;
            int what = r.in(0, 13);
            int ea = r.in(0, nep - 1), ei = r.in(0, w.ea[ea].n - 1);
            Expr &dst = r.p(0.5) ? (*w.ep[ea])[ei] : (*w.ep[ea])(w.ea[ea].pos(ei));
            Lin  &ref = w.el[ea][ei];
            std::string dn = "e" + std::to_string(ea) + "[" + std::to_string(ei) + "]";
            bool whole = w.ea[ea].n == 1 && r.p(0.5);
            R.evaluations++;
            switch (what) {
                case 0: case 1: case 2: {
                    Expr e = gen(r, w, 2, &l, &t);
                    s = dn + " = " + t;
                    if (whole) *w.ep[ea] = e; else if (r.p(0.5)) dst = e; else dst = std::move(e);
                    ref = l; R.ev("assigned"); break;
                }
                case 3: { Expr e = gen(r, w, 2, &l, &t); s = dn + " += " + t; if (whole) *w.ep[ea] += e; else dst += e; ref += l; R.ev("compound"); break; }
                case 4: { Expr e = gen(r, w, 2, &l, &t); s = dn + " -= " + t; if (whole) *w.ep[ea] -= e; else dst -= e; ref -= l; R.ev("compound"); break; }
                case 5: { double c = r.pick<double>({2, -1, 0.5, 3}); s = dn + " *= " + num(c); if (whole) *w.ep[ea] *= c; else dst *= c; ref *= c; R.ev("compound"); break; }
                case 6: { double c = r.pick<double>({2, -1, 0.5, 4}); s = dn + " /= " + num(c); if (whole) *w.ep[ea] /= c; else dst /= c; ref *= 1 / c; R.ev("compound"); break; }
                case 7: {
                    double c = coef(r);
                    switch (r.in(0, 2)) {
                        case 0: s = dn + " = const"; if (whole) *w.ep[ea] = c; else dst = c; ref = Lin(); ref.c = c; break;
                        case 1: s = dn + " += const"; if (whole) *w.ep[ea] += c; else dst += c; ref.c += c; break;
                        default: s = dn + " -= const"; if (whole) *w.ep[ea] -= c; else dst -= c; ref.c -= c; break;
                    }
                    R.ev("constant"); break;
                }
                case 8: {  // element = variable, element op= variable, = other element, = one-element array
                    int q = r.in(0, w.nv - 1); int b = r.in(0, nep - 1), j = r.in(0, w.ea[b].n - 1);
                    switch (r.in(0, 4)) {
                        case 0: s = dn + " = x" + std::to_string(q); if (whole) *w.ep[ea] = *w.var[q]; else dst = *w.var[q]; ref = varlin(q); break;
                        case 1: s = dn + " += x" + std::to_string(q); if (whole) *w.ep[ea] += *w.var[q]; else dst += *w.var[q]; ref += varlin(q); break;
                        case 2: s = dn + " -= x" + std::to_string(q); if (whole) *w.ep[ea] -= *w.var[q]; else dst -= *w.var[q]; ref -= varlin(q); break;
                        case 3: { s = dn + " = e" + std::to_string(b) + "[" + std::to_string(j) + "]"; Lin k = w.el[b][j]; if (whole) *w.ep[ea] = (*w.ep[b])[j]; else dst = (*w.ep[b])[j]; ref = k; break; }
                        default: {
                            if (w.ea[b].n != 1) { st--; steps--; continue; }
                            Lin k = w.el[b][0]; int z = r.in(0, 2);
                            s = dn + (z == 0 ? " = E" : z == 1 ? " += E" : " -= E") + std::to_string(b);
                            if (z == 0) { if (whole) *w.ep[ea] = *w.ep[b]; else dst = *w.ep[b]; ref = k; }
                            else if (z == 1) { if (whole) *w.ep[ea] += *w.ep[b]; else dst += *w.ep[b]; ref += k; }
                            else { if (whole) *w.ep[ea] -= *w.ep[b]; else dst -= *w.ep[b]; ref -= k; }
                        }
                    }
                    R.ev("element_copies"); break;
                }
                case 9: { Expr e = gen(r, w, 3, &l, &t); s = "check " + t; if (!same(w, e, l, &why)) { R.fail("P18:expression", id, s + ": " + why + " | after: " + prog); bad = true; } R.ev("expressions_checked"); break; }
                case 10: { values(); s = "values"; break; }
                case 11: case 12: {  // constraints
                    Lin q; std::string u; Expr x = gen(r, w, 1, &l, &t), y = gen(r, w, 1, &q, &u);
                    int sense = r.in(0, 2); double c = coef(r); int form = r.in(0, 6);
                    auto mk = [&]() -> Con {
                        auto cmp = [&](auto &&p, auto &&o) -> Con { return sense == 0 ? (p <= o) : sense == 1 ? (p == o) : (p >= o); };
                        int q2 = r.in(0, w.nv - 1), q3 = r.in(0, w.nv - 1);
                        switch (form) {
                            case 0: { Lin k = l; k -= q; l = k; s = t + " ? " + u; return cmp(x, y); }
                            case 1: { l.c -= c; s = t + " ? " + num(c); return cmp(x, c); }
                            case 2: { Lin k; k.c = c; k -= l; l = k; s = num(c) + " ? " + t; return cmp(c, x); }
                            case 3: { l = varlin(q2); l.c -= c; s = "x ? " + num(c); return cmp(*w.var[q2], c); }
                            case 4: { l = varlin(q2); l -= q; s = "x ? " + u; return cmp(*w.var[q2], y); }
                            case 5: { l -= varlin(q2); s = t + " ? x"; return cmp(x, *w.var[q2]); }
                            default: { l = varlin(q2); l -= varlin(q3); s = "x ? x"; return cmp(*w.var[q2], *w.var[q3]); }
                        }
                    };
                    Con con = mk();
                    static const printemps::model_component::ConstraintSense SS[3] = {printemps::model_component::ConstraintSense::Less, printemps::model_component::ConstraintSense::Equal, printemps::model_component::ConstraintSense::Greater};
                    con.update();
                    double v = l.at(w.x), viol = sense == 0 ? std::max(v, 0.0) : sense == 1 ? std::fabs(v) : std::max(-v, 0.0);
                    // a condition may be stored as its mirror image
                    double lv = con.constraint_value();
                    bool   okv = near(con.violation_value(), viol, 1e-9) && (near(lv, v, 1e-9) || near(lv, -v, 1e-9));
                    bool   mirror = con.sense() != SS[sense] || (sense == 1 && !near(lv, v, 1e-9));
                    Lin    k = l; if (mirror) k *= -1;
                    bool   okl = same(w, con.expression(), k, &why);
                    if (sense == 1 && !okl) { Lin z = l; if (!mirror) z *= -1; okl = same(w, con.expression(), z, &why); }
                    if (!okv) { R.fail("P18:constraint", id, s + " sense " + std::to_string(sense) + ": violation " + num(con.violation_value()) + " expected " + num(viol) + " | after: " + prog); bad = true; }
                    else if (!okl) { R.fail("P18:constraint", id, s + ": " + why + " | after: " + prog); bad = true; }
                    R.ev("constraints_checked");
                    if (cons.size() < 6 && !bad) {
                        auto &cp = w.m.create_constraint("c" + std::to_string(cons.size()), con);
                        cons.emplace_back(l, sense, &cp);
                    }
                    break;
                }
                default: {  // objective
                    Expr e = gen(r, w, 2, &l, &t); bool mx = r.p(0.5); s = std::string(mx ? "maximize " : "minimize ") + t;
                    if (mx) w.m.maximize(e); else w.m.minimize(e);
                    Lin k = l;
                    double v = w.m.objective().evaluate() * (w.m.is_minimization() == !mx ? 1 : 1e99);
                    if (!near(v, k.at(w.x), 1e-9) || !same(w, w.m.objective().expression(), k, &why)) { R.fail("P18:objective", id, s + ": value " + num(v) + " expected " + num(k.at(w.x)) + " " + why + " | after: " + prog); bad = true; }
                    R.ev("objectives_checked");
                }
            }
            prog += s + "; ";
            hh = hmix(hh, std::hash<std::string>()(s));
            for (int i = 0; i < nep && !bad; i++) for (int j = 0; j < w.ea[i].n && !bad; j++)
                if (!same(w, (*w.ep[i])[j], w.el[i][j], &why)) { R.fail("P18:element", id, "e" + std::to_string(i) + "[" + std::to_string(j) + "]: " + why + " | after: " + prog); bad = true; }
        }
        R.seen(hh);
        if (!bad && r.p(0.3)) { Rng q(case_seed(a, ci) ^ 0xa55a); arrays(q, w, R, id); }
        if (!bad && cons.size() && r.p(a.mode == "nosolve" ? 0 : 0.3)) {
            // the finished model, solved: every number at the returned point
            Option o; o.output.verbose = printemps::option::verbose::Off; o.general.iteration_max = 2; o.tabu_search.iteration_max = 10;
            o.parallel.is_enabled_move_update_parallelization = o.parallel.is_enabled_move_evaluation_parallelization = false;
            for (int i = 0; i < w.nv; i++) w.var[i]->set_value_force(r.in(-3, 5));
            bool threw = false;
            try {
                printemps::solver::IPSolver sv(&w.m, o);
                auto res = sv.solve();
                std::vector<int> x(w.nv);
                for (int i = 0; i < nvp; i++) for (int j = 0; j < w.va[i].n; j++) x[w.voff[i] + j] = res.solution.variables("v" + std::to_string(i)).values(w.va[i].pos(j));
                for (int i = 0; i < nep && !bad; i++) for (int j = 0; j < w.ea[i].n && !bad; j++) {
                    double v = res.solution.expressions("e" + std::to_string(i)).values(w.ea[i].pos(j)), e = w.el[i][j].at(x);
                    if (!near(v, e, 1e-6)) { R.fail("P18:solved-expression", id, "e" + std::to_string(i) + "[" + std::to_string(j) + "] value " + num(v) + " expected " + num(e) + " | " + prog); bad = true; }
                }
                std::set<std::string> names; int total = 0;
                for (int i = 0; i < nep; i++) for (auto &n : res.solution.expressions("e" + std::to_string(i)).flat_indexed_names()) { names.insert(n); total++; }
                if ((int)names.size() != total && !bad) { R.fail("P18:expression-names", id, "two elements of expression arrays carry the same name in the solution | " + prog); bad = true; }
                for (size_t k = 0; k < cons.size() && !bad; k++) {
                    double v = std::get<0>(cons[k]).at(x); int se = std::get<1>(cons[k]);
                    double viol = se == 0 ? std::max(v, 0.0) : se == 1 ? std::fabs(v) : std::max(-v, 0.0), got = res.solution.violations("c" + std::to_string(k)).values({0});
                    if (!near(got, viol, 1e-6)) { R.fail("P18:solved-constraint", id, "c" + std::to_string(k) + " violation " + num(got) + " expected " + num(viol) + " | " + prog); bad = true; }
                }
                R.ev("solved_models");
            } catch (std::exception &e) { R.ev("solve_threw"); threw = true; }
            // the arrays stay usable afterwards (a solve that was rejected may have stopped half way)
            if (!bad && !threw) {
                int ea = r.in(0, nep - 1), ei = r.in(0, w.ea[ea].n - 1), eb = r.in(0, nep - 1), ej = r.in(0, w.ea[eb].n - 1);
                Lin k = w.el[eb][ej];
                (*w.ep[ea])[ei] = (*w.ep[eb])[ej]; w.el[ea][ei] = k;
                std::string why;
                for (int i = 0; i < w.nv; i++) w.x[i] = w.var[i]->value();
                // (preprocessing may have put dependent variables' definitions in)
                if (!near((*w.ep[ea])[ei].evaluate(), k.at(w.x), 1e-6)) R.fail("P18:after-solve", id, "value " + num((*w.ep[ea])[ei].evaluate()) + " expected " + num(k.at(w.x)) + " x=" + xs(w.x) + " | " + prog);
                R.ev("used_after_solve");
            }
        }
        delete wp;
    }
    R.finish();
    return 0;
}
