// Move monitor: on prepared models, walks through states and compares, for every
// offered move, the score predicted by each evaluation shortcut with an
// evaluation from scratch of the state the move leads to; checks that moves are
// well formed, that the basic neighbourhoods are complete and that screening
// hides no improving single step.
#include "vf.h"
using namespace vf;
namespace mc = printemps::model_component;
namespace nb = printemps::neighborhood;
using Score  = printemps::solution::SolutionScore;

struct Env {
    IPModel *           m;
    std::vector<IPCon *> rows;   // enabled rows
    double sign;
    bool   has_obj;
};
using Alt = std::vector<std::pair<IPVar *, int>>;
static int val(const IPVar *v, const Alt &al) {
    for (auto &a : al) if (a.first == v) return a.second;
    return v->value();
}
static double eval(const IPExpr &e, const Alt &al) {
    double s = e.constant_value();
    for (auto &q : e.sensitivities()) s += q.second * val(q.first, al);
    return s;
}
struct Own { double obj = 0, tv = 0, lp = 0; };
static Own own(const Env &E, const Alt &al) {
    Own o;
    for (auto *c : E.rows) {
        double a = eval(c->expression(), al);
        bool   le = c->sense() != mc::ConstraintSense::Greater, ge = c->sense() != mc::ConstraintSense::Less;
        if (le && a > 0) { o.tv += a; o.lp += a * c->local_penalty_coefficient_less(); }
        if (ge && a < 0) { o.tv -= a; o.lp -= a * c->local_penalty_coefficient_greater(); }
    }
    if (E.has_obj) o.obj = E.sign * eval(E.m->objective().expression(), al);
    return o;
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0x4d0);
        GenCfg g;
        if (r.p(0.4)) { g.nmin = 6; g.nmax = 12; g.kmin = 2; g.kmax = 8; }
        g.p_scale = 0.05;
        if (r.p(0.5)) g.big = true;
        else if (r.p(0.15)) g.p_wide = 1;
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o = random_option(r, oc, &od);
        std::string id = "moves:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        std::vector<std::pair<IPVar *, IPVar *>> pairs;  // user-given pairs for the two-flip neighbourhood
        if (r.p(0.4)) {
            std::vector<int> bin;
            for (size_t j = 0; j < s.v.size(); j++) if (s.v[j].lb == 0 && s.v[j].ub == 1) bin.push_back(j);
            std::vector<std::pair<std::string, std::string>> nm;
            for (int x : bin) b.v[x]->set_name("flip" + std::to_string(x));
            if (bin.size() > 1)
                for (int k = r.in(1, 6); k > 0; k--) {
                    int x = bin[r.in(0, (int)bin.size() - 1)], y = bin[r.in(0, (int)bin.size() - 1)];
                    if (x == y) continue;
                    nm.push_back({b.v[x]->name(), b.v[y]->name()});
                    pairs.push_back({b.v[x], b.v[y]});
                }
            m.setup_flippable_variable_ptr_pairs(nm);
            if (r.p(0.8)) o.neighborhood.is_enabled_two_flip_move = true;
        }
        if (r.p(0.1))  // names need not be unique
            for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) c.set_name(r.p(0.5) ? "row" : "rule");
        try {
            m.setup(o, a.verbose);
        } catch (std::exception &e) {
            R.ev("setup_threw");
            continue;
        }
        R.evaluations++;
        int fails = 0;
        auto fail = [&](const std::string &k, const std::string &d) { if (fails++ < 3) R.fail(k, id, d + " || " + dt); };
        auto &N = m.neighborhood();
        N.binary().enable(); N.integer().enable(); N.selection().enable();
        N.exclusive_or().enable(); N.exclusive_nor().enable(); N.inverted_integers().enable(); N.balanced_integers().enable();
        N.constant_sum_integers().enable(); N.constant_difference_integers().enable(); N.constant_ratio_integers().enable();
        N.aggregation().enable(); N.precedence().enable(); N.variable_bound().enable(); N.soft_selection().enable();
        N.trinomial_exclusive_nor().enable(); N.two_flip().enable();
        Env E;
        E.m = &m; E.sign = s.minimize ? 1 : -1; E.has_obj = s.has_obj;
        double maxl = 0;
        bool gpc_user = r.p(0.3);
        for (auto &p : m.constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                c.reset_local_penalty_coefficient();
                if (!gpc_user) {
                    c.local_penalty_coefficient_less()    = r.in(1, 20);
                    c.local_penalty_coefficient_greater() = r.in(1, 20);
                }
                maxl = std::max(maxl, std::max(c.local_penalty_coefficient_less(), c.local_penalty_coefficient_greater()));
                if (c.is_enabled()) E.rows.push_back(&c);
            }
        m.update();
        double gpc = m.global_penalty_coefficient();
        auto cmp = [&](const char *what, const nb::Move<int, double> &mv, const Score &sc, const Own &w, const Own &now) {
            R.ev(std::string("predicted:") + what);
            std::string z = std::string(what) + " for " + mv.sense_label();
            for (auto &al : mv.alterations) z += " " + al.first->name() + ":" + std::to_string(al.first->value()) + "->" + std::to_string(al.second);
            if (!near(sc.objective, w.obj, 1e-6)) fail("P04:move-objective", z + " predicted " + num(sc.objective) + " actual " + num(w.obj));
            if (!near(sc.objective_improvement, now.obj - w.obj, 1e-6)) fail("P04:move-improvement", z);
            if (!near(sc.total_violation, w.tv, 1e-6)) fail("P04:move-violation", z + " predicted " + num(sc.total_violation) + " actual " + num(w.tv));
            if (std::fabs(sc.local_penalty - w.lp) > 1e-6 * (1 + now.lp + w.lp + maxl * 1e-2)) fail("P04:move-local-penalty", z + " predicted " + num(sc.local_penalty) + " actual " + num(w.lp));
            if (std::fabs(sc.global_penalty - w.tv * gpc) > 1e-6 * (1 + gpc * (1e-2 + now.tv + w.tv))) fail("P04:move-global-penalty", z);
            if (!near(sc.local_augmented_objective, sc.objective + sc.local_penalty, 1e-6)) fail("P04:move-local-augmented", z);
            if (!near(sc.global_augmented_objective, sc.objective + sc.global_penalty, 1e-6)) fail("P04:move-global-augmented", z);
            if (sc.is_feasible != (w.tv < 1e-4)) fail("P04:move-feasible", z + " tv " + num(w.tv));
            if (std::fabs(now.obj - w.obj) > 1e-4 || now.obj == w.obj)
                if (sc.is_objective_improvable != (now.obj - w.obj > 1e-4)) fail("P04:move-objective-improvable", z);
        };
        printemps::solver::IntegerStepSizeAdjuster<int, double> adjuster(&m, o);
        printemps::solver::Memory<int, double> memory(&m);
        std::map<const IPVar *, long> ups;
        std::map<const IPCon *, long> bad;
        long ups_all = 0, bad_all = 0;
        bool murky = false;
        std::mt19937 mt(i);
        int steps = r.in(2, 12);
        for (int st = 0; st < steps && fails == 0; st++) {
            if (r.p(0.15)) {  // jump to another valid state
                for (auto *v : m.variable_reference().variable_ptrs) {
                    auto se = v->sense();
                    if (v->is_fixed() || (se != mc::VariableSense::Binary && se != mc::VariableSense::Integer)) continue;
                    long w = (long)v->upper_bound() - v->lower_bound();
                    v->set_value_if_mutable(v->lower_bound() + r.in(0, (int)std::min(w, 20L)));
                }
                m.update();
            }
            Own   now = own(E, {});
            Score cur = m.evaluate({});
            cmp("full", nb::Move<int, double>(), cur, now, now);
            R.seen(hmix(s.hash(), st * 1000003ull + (uint64_t)std::llround(now.obj * 64) * 31 + (uint64_t)std::llround(now.tv * 64)));
            bool feas = now.tv < 1e-4;
            // --- all moves
            N.update_moves(true, true, true, false, 1);
            std::set<std::pair<IPVar *, int>> single;
            std::set<std::pair<IPVar *, IPVar *>> sel;
            std::vector<nb::Move<int, double> *> ptrs = N.move_ptrs();
            std::set<Alt> multi;
            std::map<std::string, std::set<Alt>> multi_of;
            for (auto *mv : ptrs) if (!mv->is_univariable_move) { Alt k = mv->alterations; std::sort(k.begin(), k.end()); multi.insert(k); multi_of[mv->sense_label()].insert(k); }
            for (auto *mv : ptrs) {
                std::string lab = mv->sense_label();
                R.ev("move:" + lab);
                std::set<IPVar *> vs;
                bool   changes = false;
                std::string z = lab;
                for (auto &al : mv->alterations) {
                    auto *v = al.first;
                    z += " " + v->name() + ":" + std::to_string(v->value()) + "->" + std::to_string(al.second);
                    if (!vs.insert(v).second) fail("P05:move-duplicate-variable", z);
                    if (v->is_fixed()) fail("P05:move-fixed-variable", z);
                    if (al.second < v->lower_bound() || al.second > v->upper_bound()) fail("P05:move-out-of-bounds", z);
                    auto se = v->sense();
                    if (se == mc::VariableSense::DependentInteger || se == mc::VariableSense::DependentBinary) fail("P05:move-dependent-variable", z);
                    changes |= v->value() != al.second;
                }
                if (mv->alterations.empty() || !changes) fail("P05:move-without-effect", z);
                if (fails) break;
                if (mv->is_univariable_move) single.insert({mv->alterations[0].first, mv->alterations[0].second});
                if (mv->is_selection_move) {
                    auto *f = mv->alterations[0].first, *t = mv->alterations[1].first;
                    if (f->value() != 1 || t->value() != 0 || f->selection_ptr() != t->selection_ptr() || mv->alterations[0].second != 0 || mv->alterations[1].second != 1) fail("P05:selection-move", z);
                    sel.insert({f, t});
                } else
                    for (auto *v : vs) if (v->sense() == mc::VariableSense::Selection && vs.size() < 2) fail("P05:single-move-in-selection", z);
                // selections must keep exactly one
                for (auto &q : m.selections()) {
                    long sum = 0;
                    for (auto *v : q.variable_ptrs) sum += val(v, mv->alterations);
                    if (sum != 1) fail("P05:move-breaks-selection", z);
                }
                // rows touched by the move are announced
                std::set<const IPCon *> rel(mv->related_constraint_ptrs.begin(), mv->related_constraint_ptrs.end());
                for (auto *c : E.rows)
                    for (auto *v : vs)
                        if (c->expression().sensitivities().count(v) && !rel.count(c)) { fail("P04:move-misses-row", z + " row " + c->name()); break; }
                // structure-preserving moves satisfy the row they come from
                if (mv->is_special_neighborhood_move && (lab == "ExclusiveOr" || lab == "ExclusiveNor" || lab == "InvertedIntegers" || lab == "BalancedIntegers" || lab == "ConstantSumIntegers" || lab == "ConstantDifferenceIntegers" || lab == "ConstantRatioIntegers" || lab == "TrinomialExclusiveNor")) {
                    bool ok = false, integral = true;
                    for (auto *c : E.rows) {
                        auto &ss = c->expression().sensitivities();
                        if (ss.size() != vs.size()) continue;
                        bool all = true;
                        for (auto *v : vs) all &= ss.count(v) > 0;
                        if (!all) continue;
                        for (auto &q : ss) integral &= q.second == std::round(q.second);
                        double x = eval(c->expression(), mv->alterations);
                        if (c->sense() == mc::ConstraintSense::Equal ? std::fabs(x) < 1e-6 : c->sense() == mc::ConstraintSense::Less ? x < 1e-6 : x > -1e-6) ok = true;
                    }
                    R.ev("structured_moves");
                    if (!ok && integral) fail("P05:structured-move-misses-row", z);
                }
                Own w = own(E, mv->alterations);
                Score sc;
                m.evaluate(&sc, *mv);
                cmp("full", *mv, sc, w, now);
                if (mv->is_univariable_move) { m.evaluate_single(&sc, *mv, cur); cmp("single", *mv, sc, w, now); }
                else if (mv->is_selection_move) { m.evaluate_selection(&sc, *mv, cur); cmp("selection", *mv, sc, w, now); }
                m.evaluate_multi(&sc, *mv, cur);
                cmp("multi", *mv, sc, w, now);
                if (fails) break;
            }
            if (fails) break;
            // --- completeness of the basic neighbourhoods
            for (auto *v : m.variable_reference().variable_ptrs) {
                if (v->is_fixed()) continue;
                if (v->sense() == mc::VariableSense::Binary) { R.ev("steps_expected"); if (!single.count({v, 1 - v->value()})) fail("P05:step-missing", v->name()); }
                if (v->sense() == mc::VariableSense::Integer) {
                    if (v->value() < v->upper_bound()) { R.ev("steps_expected"); if (!single.count({v, v->value() + 1})) fail("P05:step-missing", v->name() + " up"); }
                    if (v->value() > v->lower_bound()) { R.ev("steps_expected"); if (!single.count({v, v->value() - 1})) fail("P05:step-missing", v->name() + " down"); }
                }
            }
            for (auto &q : m.selections())
                for (auto *v : q.variable_ptrs)
                    if (v != q.selected_variable_ptr && !v->is_fixed() && !q.selected_variable_ptr->is_fixed()) { R.ev("swaps_expected"); if (!sel.count({q.selected_variable_ptr, v})) fail("P05:swap-missing", v->name()); }
            // --- completeness of the structured neighbourhoods
            {
                auto &T = m.constraint_type_reference();
                auto &n_ = o.neighborhood;
                auto expect = [&](const IPCon *c, const std::string &lab, Alt al) {
                    for (auto &q : al) if (q.second < q.first->lower_bound() || q.second > q.first->upper_bound()) return;
                    std::sort(al.begin(), al.end());
                    R.ev("structured_moves_expected");
                    R.ev("expected:" + lab);
                    if (!multi_of[lab].count(al)) { std::string z; for (auto &q : al) z += " " + q.first->name() + ":" + std::to_string(q.first->value()) + "->" + std::to_string(q.second); fail("P05:structured-move-missing", lab + z + " of " + (c ? c->name() : std::string("a given pair"))); }
                };
                auto rows_of = [&](auto &ptrs_, bool on, auto f) {
                    if (!on) return;
                    for (auto *c : ptrs_) {
                        if (!c->is_enabled()) continue;
                        std::vector<std::pair<IPVar *, double>> t;
                        bool ok = true;
                        for (auto &q : c->expression().sensitivities()) { t.push_back({q.first, q.second}); auto se = q.first->sense(); ok &= !q.first->is_fixed() && (se == mc::VariableSense::Binary || se == mc::VariableSense::Integer); }
                        if (ok) f(c, t);
                    }
                };
                using T2 = std::vector<std::pair<IPVar *, double>>;
                auto flips = [&](const std::string &lab) {  // all variables change and the row holds afterwards
                    return [&, lab](const IPCon *c, T2 &t) {
                        Alt al;
                        for (auto &q : t) al.push_back({q.first, 1 - q.first->value()});
                        if (std::fabs(eval(c->expression(), al)) < 1e-9) expect(c, lab, al);
                    };
                };
                auto steps_along = [&](const std::string &lab) {  // along an equation that holds: the smallest steps both ways
                    return [&, lab](const IPCon *c, T2 &t) {
                        if (t.size() != 2 || std::fabs(eval(c->expression(), {})) > 1e-9) return;
                        int j = std::fabs(t[0].second) >= std::fabs(t[1].second) ? 0 : 1;  // the variable that steps by one
                        double q = t[j].second / t[1 - j].second;
                        if (q != std::round(q) || std::fabs(q) > 1000 || t[j].second != std::round(t[j].second) || t[1 - j].second != std::round(t[1 - j].second)) return;
                        for (int d : {-1, 1}) expect(c, lab, {{t[j].first, t[j].first->value() + d}, {t[1 - j].first, t[1 - j].first->value() - (int)q * d}});
                    };
                };
                auto both = [&](const IPCon *c, T2 &t) { if (t.size() == 2) for (int d : {-1, 1}) expect(c, "Precedence", {{t[0].first, t[0].first->value() + d}, {t[1].first, t[1].first->value() + d}}); };
                auto tight = [&](const std::string &lab, bool eq) {  // step one variable, the other takes the value that makes the row tight
                    return [&, lab, eq](const IPCon *c, T2 &t) {
                        if (t.size() != 2) return;
                        for (int j : {0, 1}) for (int d : {-1, 1}) {
                            double y = (-c->expression().constant_value() - t[j].second * (t[j].first->value() + d)) / t[1 - j].second;
                            if (std::fabs(y) > 1e6) continue;
                            if (std::fabs(y - std::round(y)) < 1e-6 && y != std::round(y)) continue;
                            if (eq && y != std::round(y)) continue;
                            bool down = (t[1 - j].second > 0) == (c->sense() == mc::ConstraintSense::Less);
                            expect(c, lab, {{t[j].first, t[j].first->value() + d}, {t[1 - j].first, (int)(down ? std::floor(y) : std::ceil(y))}});
                        }
                    };
                };
                if (n_.is_enabled_two_flip_move)
                    for (auto &q : pairs) {
                        if (q.first->is_fixed() || q.second->is_fixed() || q.first->sense() != mc::VariableSense::Binary || q.second->sense() != mc::VariableSense::Binary) continue;
                        if (q.first->value() != q.second->value()) expect(nullptr, "TwoFlip", {{q.first, 1 - q.first->value()}, {q.second, 1 - q.second->value()}});
                    }
                rows_of(T.exclusive_or_ptrs, n_.is_enabled_exclusive_or_move, flips("ExclusiveOr"));
                rows_of(T.exclusive_nor_ptrs, n_.is_enabled_exclusive_nor_move, flips("ExclusiveNor"));
                rows_of(T.trinomial_exclusive_nor_ptrs, n_.is_enabled_trinomial_exclusive_nor_move, flips("TrinomialExclusiveNor"));
                rows_of(T.inverted_integers_ptrs, n_.is_enabled_inverted_integers_move, steps_along("InvertedIntegers"));
                rows_of(T.balanced_integers_ptrs, n_.is_enabled_balanced_integers_move, steps_along("BalancedIntegers"));
                rows_of(T.constant_sum_integers_ptrs, n_.is_enabled_constant_sum_integers_move, steps_along("ConstantSumIntegers"));
                rows_of(T.constant_difference_integers_ptrs, n_.is_enabled_constant_difference_integers_move, steps_along("ConstantDifferenceIntegers"));
                rows_of(T.constant_ratio_integers_ptrs, n_.is_enabled_constant_ratio_integers_move, steps_along("ConstantRatioIntegers"));
                rows_of(T.precedence_ptrs, n_.is_enabled_precedence_move, both);
                rows_of(T.aggregation_ptrs, n_.is_enabled_aggregation_move, tight("Aggregation", true));
                rows_of(T.variable_bound_ptrs, n_.is_enabled_variable_bound_move, tight("VariableBound", false));
            }
            // --- screening
            m.update_variable_objective_improvabilities();
            m.reset_variable_feasibility_improvabilities();
            m.update_variable_feasibility_improvabilities();
            for (int k = 0; k < 3; k++) {
                bool ao = k != 1, af = k != 0;
                std::vector<std::pair<nb::Move<int, double> *, bool>> want;
                N.update_moves(false, ao, af, false, 1);
                std::set<std::pair<IPVar *, int>> got;
                std::set<std::pair<IPVar *, IPVar *>> gsel;
                std::set<Alt> gmulti;
                for (auto *mv : N.move_ptrs()) {
                    if (!mv->is_univariable_move) { Alt z = mv->alterations; std::sort(z.begin(), z.end()); gmulti.insert(z); }
                    if (mv->is_univariable_move) got.insert({mv->alterations[0].first, mv->alterations[0].second});
                    if (mv->is_selection_move) gsel.insert({mv->alterations[0].first, mv->alterations[1].first});
                }
                auto judge = [&](const Alt &al, bool have, const std::string &nm) {
                    Own w = own(E, al);
                    bool need = (ao && w.obj < now.obj - 1e-4) || (af && !feas && w.tv < now.tv - 1e-4);
                    if (need) R.ev("improving_steps_screened");
                    if (need && !have) fail("P05:improving-step-hidden", nm + " screening " + std::to_string(k));
                };
                for (auto &q : single) judge({q}, got.count(q), q.first->name());
                for (auto &q : multi) judge(q, gmulti.count(q), q[0].first->name() + " and " + q[1].first->name());
                for (auto &q : sel) judge({{q.first, 0}, {q.second, 1}}, gsel.count(q), q.second->name());
            }
            // --- lengthening of integer steps, and the memory of the search
            N.update_moves(true, true, true, false, 1);
            ptrs = N.move_ptrs();
            for (auto &q : single) {
                if (q.first->sense() != mc::VariableSense::Integer || !r.p(0.3)) continue;
                nb::Move<int, double> mv;
                for (auto *z : ptrs) if (z->is_univariable_move && z->alterations[0] == std::make_pair(q.first, q.second)) mv = *z;
                if (mv.alterations.size() != 1) continue;  // regenerated meanwhile
                auto long_ = mv;
                adjuster.adjust(&long_, cur);
                int at = q.first->value(), to = long_.alterations.back().second;
                R.ev("steps_lengthened");
                std::string z = q.first->name() + " at " + std::to_string(at) + ": " + std::to_string(q.second) + " lengthened to " + std::to_string(to);
                if (to < q.first->lower_bound() || to > q.first->upper_bound() || (long)(to - (long)at) * (q.second - (long)at) <= 0) fail("P05:lengthened-step-invalid", z);
                Own w1 = own(E, mv.alterations), w2 = own(E, long_.alterations);
                double g1 = w1.obj + gpc * w1.tv, g2 = w2.obj + gpc * w2.tv;
                if (g2 > g1 + 1e-6 * (1 + std::fabs(g1) + gpc * 1e-2)) fail("P05:lengthened-step-worse", z + " score " + num(g1) + " -> " + num(g2));
                if (to != q.second) R.ev("steps_really_lengthened");
            }
            // --- take one
            N.update_moves(true, true, true, false, 1);
            auto &mp = N.move_ptrs();
            if (mp.empty()) break;
            auto mv = *mp[r.in(0, (int)mp.size() - 1)];
            Own  w  = own(E, mv.alterations);
            Score sc;
            if (mv.is_univariable_move) m.evaluate_single(&sc, mv, cur);
            else if (mv.is_selection_move) m.evaluate_selection(&sc, mv, cur);
            else m.evaluate_multi(&sc, mv, cur);
            m.update(mv);
            R.ev("moves_taken");
            Own af = own(E, {});
            if (!near(af.obj, w.obj, 1e-6) || !near(af.tv, w.tv, 1e-6)) fail("P05:alteration-not-applied", mv.sense_label());
            int width = r.p(0.5) ? 0 : r.in(1, 4);
            if (width) memory.update(mv, st, width, &mt); else memory.update(mv, st);
            for (auto &al : mv.alterations) { ups[al.first]++; ups_all++; long u = al.first->local_last_update_iteration(); if (u < st - width || u > st + width) fail("P21:last-update", al.first->name()); }
            for (auto *c : E.rows) { double x = eval(c->expression(), {}); bool le = c->sense() != mc::ConstraintSense::Greater, ge = c->sense() != mc::ConstraintSense::Less; if ((le && x > 1e-4) || (ge && x < -1e-4)) { bad[c]++; bad_all++; } else if ((le && x > 1e-9) || (ge && x < -1e-9)) murky = true; }
            if (memory.total_update_count() != ups_all) fail("P21:memory-updates", std::to_string(memory.total_update_count()) + " for " + std::to_string(ups_all));
            if (!murky && memory.total_violation_count() != bad_all) fail("P21:memory-violations", std::to_string(memory.total_violation_count()) + " for " + std::to_string(bad_all));
            {
                double q2 = 0, v2 = 0;
                for (auto &q : ups) { q2 += (double)q.second * q.second; if (q.first->update_count() != q.second) fail("P21:memory-updates", q.first->name()); }
                for (auto &q : bad) { v2 += (double)q.second * q.second; if (!murky && q.first->violation_count() != q.second) fail("P21:memory-violations", q.first->name()); }
                if (!near(memory.primal_intensity(), q2 / std::max(1.0, (double)ups_all * ups_all), 1e-9)) fail("P21:primal-intensity", num(memory.primal_intensity()));
                if (!murky && !near(memory.dual_intensity(), v2 / std::max(1.0, (double)bad_all * bad_all), 1e-9)) fail("P21:dual-intensity", num(memory.dual_intensity()));
                R.ev("memory_updates_checked");
            }
            Score c2 = m.evaluate({});
            cmp("after", nb::Move<int, double>(), c2, af, af);
            if (std::fabs(c2.local_penalty - sc.local_penalty) > 1e-6 * (1 + c2.local_penalty + now.lp + maxl * 1e-2) || !near(c2.objective, sc.objective, 1e-6) || !near(c2.total_violation, sc.total_violation, 1e-6)) fail("P04:prediction-differs", mv.sense_label());
            if (m.is_feasible() != (af.tv < 1e-4)) fail("P04:feasible-flag", mv.sense_label());
            for (auto *c : E.rows)
                if (!near(c->constraint_value(), eval(c->expression(), {}), 1e-6)) fail("P04:row-value", c->name());
            // a further full update changes nothing
            if (r.p(0.3)) {
                std::vector<double> before;
                for (auto *c : E.rows) before.push_back(c->constraint_value());
                double ob = E.has_obj ? m.objective().value() : 0;
                m.update();
                for (size_t q = 0; q < E.rows.size(); q++) if (!near(before[q], E.rows[q]->constraint_value(), 1e-6)) fail("P04:drift", E.rows[q]->name());
                if (E.has_obj && !near(ob, m.objective().value(), 1e-6)) fail("P04:drift", "objective");
            }
        }
        if (R.evaluations % 997 == 1) R.sample(id + " " + dt);
    }
    R.finish();
    return 0;
}
