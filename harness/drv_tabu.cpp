// Step monitor: runs the tabu search and the local search on prepared models and
// decides, for every step they take, whether the rules of the search allow it.
// The state before the step, the tabu list, the update counts, the best state
// seen and the scores of all offered moves are kept and computed here.
#define PRINTEMPS_VERIF_HOOK 1
#include "vf.h"
using namespace vf;
namespace mc = printemps::model_component;
namespace nb = printemps::neighborhood;
using Mv     = nb::Move<int, double>;

struct Own { double obj = 0, tv = 0, lp = 0, glob = 0; };
struct Mon {
    IPModel *            m = nullptr;
    std::vector<IPCon *> rows;
    double               sign = 1, gpc = 0;
    bool                 has_obj = false, local = false;
    Option               o;
    Report *             R = nullptr;
    std::map<const IPVar *, int>  x;      // the state before the step
    std::map<const IPVar *, int>  last;   // iteration of the last change in this loop
    std::map<const IPVar *, long> count;  // changes over all loops
    long   total = 0;
    int    it = 0, tenure = 0;
    Own    now;
    double best = HUGE_VAL, lo = HUGE_VAL, hi = -HUGE_VAL, best_feasible = HUGE_VAL;
    bool   few = false, found = false, off = false;
    std::set<const Mv *> used;
    std::string bad, key;
    uint64_t    h = 1;
    void fail(const std::string &k, const std::string &d) { if (bad.empty()) key = k, bad = d; }
    double eval(const IPExpr &e, const Mv *v) const {
        double s = e.constant_value();
        for (auto &q : e.sensitivities()) {
            int y = x.at(q.first);
            if (v) for (auto &a : v->alterations) if (a.first == q.first) y = a.second;
            s += q.second * y;
        }
        return s;
    }
    Own score(const Mv *v, bool *improves = nullptr, bool *clear = nullptr) const {
        Own o; bool fi = false, cl = true;
        for (auto *c : rows) {
            double a = eval(c->expression(), v), b = improves ? eval(c->expression(), nullptr) : 0;
            bool   le = c->sense() != mc::ConstraintSense::Greater, ge = c->sense() != mc::ConstraintSense::Less;
            double gain = 0; bool side = false;
            auto   part = [&](double p, double q, double k) { p = std::max(p, 0.0); q = std::max(q, 0.0); o.tv += p; o.lp += p * k; gain += q - p; side |= q - p > 5e-6; };
            if (le) part(a, b, c->local_penalty_coefficient_less());
            if (ge) part(-a, -b, c->local_penalty_coefficient_greater());
            // (an equation whose excess becomes a shortage improves by one reading only)
            if (gain > 2e-5) fi = true; else if (side) cl = false;
        }
        if (has_obj) o.obj = sign * eval(m->objective().expression(), v);
        o.glob = o.obj + gpc * o.tv;
        if (improves) {
            double d = now.obj - o.obj;
            *improves = fi || d > 2e-5;
            *clear = *improves || (cl && d < 5e-6);
        }
        return o;
    }
    void enter(const Own &s) {
        now = s;
        best = std::min(best, s.glob); lo = std::min(lo, s.glob); hi = std::max(hi, s.glob);
        if (s.tv < 1e-6) best_feasible = std::min(best_feasible, s.obj);
        h = hmix(h, (uint64_t)std::llround(s.obj * 64) * 31 + (uint64_t)std::llround(s.tv * 64));
        R->seen(h);
    }
    void take() { for (auto *v : m->variable_reference().variable_ptrs) x[v] = v->value(); }
    static std::string show(const Mv &v, const std::map<const IPVar *, int> &x) { std::string z = v.sense_label(); for (auto &a : v.alterations) z += " " + a.first->name() + ":" + std::to_string(x.at(a.first)) + "->" + std::to_string(a.second); return z; }
    bool permitted(const Mv &v) const {
        bool any = false, all = true;
        for (auto &a : v.alterations) {
            auto p = last.find(a.first); bool ok = p == last.end() || it - p->second >= tenure;
            any |= ok; all &= ok;
        }
        return o.tabu_search.tabu_mode == printemps::option::tabu_mode::All && v.sense != nb::MoveSense::Selection ? any : all;
    }
    void tabu_step(const Mv &mv) {
        auto &L = m->neighborhood().move_ptrs();
        size_t n = L.size();
        if (o.tabu_search.is_enabled_move_curtail) n = (size_t)std::floor(o.tabu_search.move_preserve_rate * n);
        int  chosen = -1;
        for (size_t i = 0; i < n && chosen < 0; i++) if (L[i] == &mv) chosen = i;
        for (size_t i = 0; i < n && chosen < 0; i++) if (L[i]->alterations == mv.alterations && L[i]->sense == mv.sense) chosen = i;
        if (chosen < 0) { fail("P25:not-offered", "step " + show(mv, x) + " was not among the offered moves"); return; }
        double mint = HUGE_VAL, ming = HUGE_VAL; bool eligible = false, open = false, vague = false, anyperm = false;
        double ct = 0, cg = 0; bool cperm = false, cblock = false;
        for (size_t i = 0; i < n; i++) {
            const Mv &v = *L[i]; bool imp = true, clear = true;
            Own  s = score(&v, v.is_special_neighborhood_move ? &imp : nullptr, &clear);
            bool perm = permitted(v), block = !imp;
            double t = s.obj + s.lp;
            if (it > 0) { long k = 0; for (auto &a : v.alterations) { auto p = count.find(a.first); if (p != count.end()) k += p->second; } t += o.tabu_search.frequency_penalty_coefficient * k / (double)std::max(1L, total); }
            anyperm |= perm;
            ming = std::min(ming, s.glob);
            if (!clear) vague = true;
            if (perm && !block) { eligible = true; if (clear) mint = std::min(mint, t); }
            if (!block) open = true;
            if ((int)i == chosen) { ct = t; cg = s.glob; cperm = perm; cblock = block && clear; }
            R->ev("offered_moves_judged");
        }
        if (!anyperm) few = true;
        double tol = 1e-6 * (1 + std::fabs(ct) + std::fabs(now.lp) + std::fabs(now.obj)), gtol = 1e-6 * (1 + std::fabs(cg) + std::fabs(best) + gpc * now.tv);
        bool   asp_must = o.tabu_search.ignore_tabu_if_global_incumbent && ming < best - 1e-5 - gtol;
        bool   asp_may = o.tabu_search.ignore_tabu_if_global_incumbent && ming < best - 1e-5 + gtol;
        bool   best_move = cg <= ming + gtol;
        std::string z = "step " + std::to_string(it) + " " + show(mv, x);
        if (asp_must) {
            R->ev("steps_to_a_new_best");
            if (!cperm) R->ev("tabu_overridden_by_a_new_best");
            if (!best_move) fail("P25:new-best-missed", z + " leads to " + num(cg) + " although " + num(ming) + " is offered, best so far " + num(best));
        } else if (!(asp_may && best_move)) {
            if (eligible && !vague) {
                R->ev("steps_among_permitted_moves");
                if (!cperm) fail("P25:tabu-broken", z + " changes what was changed within the last " + std::to_string(tenure) + " steps although permitted moves are offered");
                else if (cblock) fail("P25:special-not-improving", z + " improves nothing although other moves are offered");
                else if (ct > mint + tol) fail("P25:not-the-best", z + " has score " + num(ct) + " although " + num(mint) + " is offered");
            } else if (!eligible && !vague) {
                R->ev("steps_without_permitted_moves");
                if (open && cblock) fail("P25:special-not-improving", z + " improves nothing although other moves are offered");
            }
        }
        if (mv.is_special_neighborhood_move && mv.sense != nb::MoveSense::Chain) {
            if (!used.insert(L[chosen]).second) fail("P25:special-repeated", z + " is a special move used before in this loop");
            R->ev("special_steps");
        }
        double target = o.general.target_objective_value;
        if (best_feasible < target - 1e-6) fail("P25:after-target", z + " although a solution of value " + num(best_feasible) + " reached the target");
        Own s = score(&mv);
        for (auto &a : mv.alterations) { last[a.first] = it; count[a.first]++; total++; }
        it++;
        take();
        if (s.tv < 1e-6) found = true;
        if (s.tv > 1e-7 && s.tv < 1e-4) off = true;
        enter(s);
        R->ev("tabu_steps_checked");
    }
    void local_step(const Mv &mv) {
        Own s = score(&mv);
        std::string z = "step " + std::to_string(it) + " " + show(mv, x);
        std::set<const IPVar *> d;
        if (best_feasible < o.general.target_objective_value - 1e-6) fail("P25:after-target", z + " although a solution of value " + num(best_feasible) + " reached the target");
        for (auto &a : mv.alterations) if (!d.insert(a.first).second) fail("P25:local-conflict", z + " changes a variable twice");
        if (now.tv < 1e-6) {
            if (s.tv > 1e-4) fail("P25:local-lost", z + " leaves the feasible region, violation " + num(s.tv));
            else if (!(s.obj < now.obj - 1e-6)) fail("P25:local-worse", z + " objective " + num(now.obj) + " to " + num(s.obj));
            R->ev("local_steps_in_feasible_states");
        } else if (now.tv > 1e-4) {
            if (!(s.tv < now.tv + 1e-9 * (1 + now.tv))) fail("P25:local-violation", z + " violation " + num(now.tv) + " to " + num(s.tv));
            R->ev("local_steps_in_infeasible_states");
        }
        for (auto &a : mv.alterations) { count[a.first]++; total++; }
        it++;
        take();
        enter(s);
        R->ev("local_steps_checked");
    }
};
static Mon *M;
static void on_move(const void *m, const void *v) {
    if (!M || m != (const void *)M->m || !M->bad.empty()) return;
    if (M->local) M->local_step(*(const Mv *)v); else M->tabu_step(*(const Mv *)v);
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    printemps_verif::g_model_move = on_move;
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0x7ab0);
        GenCfg g;
        if (r.p(0.4)) { g.nmin = 6; g.nmax = 12; g.kmin = 2; g.kmax = 8; }
        if (r.p(0.5)) g.big = true;
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o = random_option(r, oc, &od);
        std::string id = "tabu:" + std::to_string(a.seed) + ":" + std::to_string(i);
        o.tabu_search.iteration_max = r.pick<int>({3, 10, 25, 60});
        o.tabu_search.initial_tabu_tenure = r.pick<int>({0, 1, 2, 3, 5, 10, 50});
        o.tabu_search.tabu_tenure_randomize_rate = 0;
        o.tabu_search.intensity_increase_count_threshold = o.tabu_search.intensity_decrease_count_threshold = 1000000000;
        o.tabu_search.tabu_mode = r.p(0.5) ? printemps::option::tabu_mode::All : printemps::option::tabu_mode::Any;
        o.tabu_search.frequency_penalty_coefficient = r.pick<double>({0, 1e-4, 0.5, 20});
        o.tabu_search.ignore_tabu_if_global_incumbent = r.p(0.6);
        o.tabu_search.is_enabled_shuffle = r.p(0.6);
        o.tabu_search.is_enabled_move_curtail = r.p(0.15); o.tabu_search.move_preserve_rate = r.pick<double>({1.0, 0.5, 0.8});
        o.tabu_search.is_enabled_automatic_break = r.p(0.5);
        o.tabu_search.number_of_initial_modification = 0;
        o.tabu_search.time_max = o.general.time_max = 1e9; o.tabu_search.time_offset = 0;
        o.tabu_search.pruning_rate_threshold = r.pick<double>({1.0, 1.0, 0.3});
        o.tabu_search.seed = r.in(1, 1000);
        namespace sm = printemps::option::improvability_screening_mode;
        if (o.neighborhood.improvability_screening_mode == sm::Automatic) o.neighborhood.improvability_screening_mode = r.pick<sm::ImprovabilityScreeningMode>({sm::Off, sm::Soft, sm::Aggressive, sm::Intensive});
        o.local_search.iteration_max = r.pick<int>({2, 10, 50}); o.local_search.time_max = 1e9;
        o.lagrange_dual.is_enabled = false;
        o.neighborhood.is_enabled_integer_step_size_adjuster = false;
        o.output.verbose = printemps::option::verbose::Off;
        o.output.is_enabled_store_feasible_solutions = false;
        o.general.target_objective_value = -HUGE_VAL;
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        try { m.setup(o, a.verbose); } catch (std::exception &) { R.ev("setup_threw"); continue; }
        R.evaluations++;
        Mon mon; M = &mon;
        mon.m = &m; mon.R = &R; mon.sign = s.minimize ? 1 : -1; mon.has_obj = s.has_obj;
        for (auto &p : m.constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                c.reset_local_penalty_coefficient();
                if (r.p(0.8)) { c.local_penalty_coefficient_less() = r.pick<double>({0, 0.5, 1, 3, 10}); c.local_penalty_coefficient_greater() = r.pick<double>({0, 0.5, 1, 3, 10}); }
                if (c.is_enabled()) mon.rows.push_back(&c);
            }
        auto &N = m.neighborhood();
        if (r.p(0.8)) {
            if (r.p(0.5)) { N.exclusive_or().enable(); N.exclusive_nor().enable(); N.inverted_integers().enable(); N.balanced_integers().enable(); N.constant_sum_integers().enable(); N.constant_difference_integers().enable(); N.constant_ratio_integers().enable(); }
            if (r.p(0.5)) { N.aggregation().enable(); N.precedence().enable(); N.variable_bound().enable(); N.soft_selection().enable(); N.trinomial_exclusive_nor().enable(); }
            if (r.p(0.8)) { N.binary().enable(); N.integer().enable(); N.selection().enable(); }
        }
        mon.gpc = m.global_penalty_coefficient();
        m.update();
        printemps::solver::GlobalState<int, double> gs;
        gs.memory.setup(&m);
        auto start = m.export_sparse_solution();
        int loops = r.in(1, 3);
        for (int l = 0; l < loops && mon.bad.empty(); l++) {
            mon.local = r.p(0.3); mon.it = 0; mon.last.clear(); mon.used.clear(); mon.few = mon.found = mon.off = false; mon.lo = HUGE_VAL; mon.hi = -HUGE_VAL;
            if (l > 0 && r.p(0.3)) o.general.target_objective_value = r.in(-10, 10);
            o.tabu_search.initial_tabu_tenure = r.pick<int>({0, 1, 2, 3, 5, 10, 50});
            mon.o = o;
            mon.tenure = std::min(o.tabu_search.initial_tabu_tenure, m.number_of_mutable_variables());
            // the search starts from the given solution
            m.import_solution(start); m.update(); mon.take(); mon.enter(mon.score(nullptr));
            try {
                if (mon.local) {
                    printemps::solver::local_search::core::LocalSearchCore<int, double> c(&m, &gs, start, o);
                    c.run();
                    auto &res = c.result();
                    if (mon.it > o.local_search.iteration_max) mon.fail("P25:iterations", "local search made " + std::to_string(mon.it) + " steps");
                    if (res.termination_status == printemps::solver::local_search::core::LocalSearchCoreTerminationStatus::ITERATION_OVER && mon.it != o.local_search.iteration_max) mon.fail("P25:iterations", "local search claims all iterations but made " + std::to_string(mon.it));
                } else {
                    printemps::solver::tabu_search::core::TabuSearchCore<int, double> c(&m, &gs, start, o);
                    c.run();
                    auto &res = c.result();
                    typedef printemps::solver::tabu_search::core::TabuSearchCoreTerminationStatus TS;
                    if (mon.it > o.tabu_search.iteration_max) mon.fail("P25:iterations", "tabu search made " + std::to_string(mon.it) + " steps");
                    if (res.termination_status == TS::ITERATION_OVER && mon.it != o.tabu_search.iteration_max) mon.fail("P25:iterations", "tabu search claims all iterations but made " + std::to_string(mon.it));
                    if (res.termination_status == TS::REACH_TARGET && !(mon.best_feasible <= o.general.target_objective_value + 1e-6)) mon.fail("P25:target", "target claimed reached, best feasible value is " + num(mon.best_feasible));
                    if (res.is_few_permissible_neighborhood != mon.few) mon.fail("P25:few-permitted", std::string("the lack of permitted moves is reported as ") + (res.is_few_permissible_neighborhood ? "true" : "false"));
                    if (!mon.off && res.is_found_new_feasible_solution != mon.found) mon.fail("P25:found-feasible", std::string("finding feasible solutions is reported as ") + (res.is_found_new_feasible_solution ? "true" : "false"));
                    if (!near(res.global_augmented_objective_range, mon.hi - mon.lo, 1e-5 * (1 + std::fabs(mon.hi) + std::fabs(mon.lo)))) mon.fail("P25:range", "range of values " + num(res.global_augmented_objective_range) + ", observed " + num(mon.hi - mon.lo));
                    R.ev("tabu_loops_checked");
                }
            } catch (std::exception &e) { R.ev("loop_threw"); break; }
            N.reset_special_neighborhood_moves_availability();
            if (r.p(0.7)) start = m.export_sparse_solution();
        }
        if (!mon.bad.empty()) R.fail(mon.key, id, mon.bad + " || " + dt);
        M = nullptr;
    }
    R.finish();
    return 0;
}
