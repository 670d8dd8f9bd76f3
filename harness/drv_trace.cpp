// Trace monitor: solves random models with the library's observation points
// enabled and checks every visited search state, every incumbent offer and
// every dual bound against independent recomputation.
#define PRINTEMPS_VERIF_HOOK 1
#include "vf.h"
using namespace vf;
using Holder = printemps::solution::IncumbentHolder<int, double>;
using Score  = printemps::solution::SolutionScore;

struct Ctx {
    const Spec *spec = nullptr;
    Built *     b    = nullptr;
    Report *    R    = nullptr;
    std::string id, dt;
    Brute       B;
    bool        started = false;  // after Model::setup
    int         fails   = 0;
    double      sign    = 1, pmax = 1e7;
    bool        any = false;
    double      best = 0;              // best feasible offer, minimization sense
    std::vector<int> best_x;
    bool        vany = false;
    double      vbest = 0;             // best feasible visited state
    double      last_feas = INFINITY, last_glob = INFINITY;
    bool        have_dual = false;
    double      last_dual = 0;
    int         dual_kind = 0;
    std::map<std::vector<int>, bool> offered;  // feasible states offered during the search -> seen in the archive
    std::map<const IPVar *, long> upd;  // alterations made by moves
    std::map<const IPCon *, long> vio;  // moves after which the row was violated
    long        moves = 0, callbacks = 0, asked = 0, user_moves = 0;
    double      cb_last = INFINITY;
    std::vector<std::array<double, 4>> cb_scores;  // local and global incumbent at each callback
    std::vector<int> pre;              // values before the move, in the order of the model's variables
    bool        complete = false;      // the options promise a complete neighbourhood of single steps
    int         screen = 0;            // improvability screening mode
    bool        bin = true, intg = true;
    bool        moved = false, fresh = true;  // the state was reached by a move of the search; first offer after a (re)start
    void fail(const std::string &k, const std::string &d) {
        if (fails++ < 4) R->fail(k, id, d + " || " + dt);
    }
} C;

static std::vector<int> cur() {
    std::vector<int> x;
    for (auto *v : C.b->v) x.push_back(v->value());
    return x;
}
static bool dep(const IPVar *v) {
    using S = printemps::model_component::VariableSense;
    return v->sense() == S::DependentInteger || v->sense() == S::DependentBinary;
}
// the current point, with eliminated variables at the values they stand for
static std::vector<int> full(const IPModel *m) {
    std::vector<int> x;
    for (auto *v : C.b->v) x.push_back(dep(v) && v->dependent_expression_ptr() ? (int)std::lround(v->dependent_expression_ptr()->evaluate({})) : v->value());
    return x;
}
static double eval(const IPExpr &e) {
    double s = e.constant_value();
    for (auto &q : e.sensitivities()) s += q.second * q.first->value();
    return s;
}

static void check_state(const IPModel *m, bool full) {
    const Spec &s = *C.spec;
    if (!C.started) return;
    C.R->ev(full ? "full_updates_checked" : "move_updates_checked");
    // 1. bounds, fixed variables
    for (size_t i = 0; i < s.v.size(); i++) {
        auto *v = C.b->v[i];
        if (dep(v)) continue;
        if (v->value() < s.v[i].lb || v->value() > s.v[i].ub) C.fail("P05:state-bounds", s.v[i].name + "=" + std::to_string(v->value()));
        if (s.v[i].fixed && v->value() != s.v[i].init) C.fail("P05:state-fixed", s.v[i].name + "=" + std::to_string(v->value()));
    }
    // 2. selections
    for (auto &q : m->selections()) {
        long sum = 0;
        bool neg = false;
        for (auto *v : q.variable_ptrs) { sum += v->value(); neg |= v->value() < 0; }
        C.R->ev("selection_states_checked");
        if (sum != 1 || neg) C.fail("P05:selection", "sum " + std::to_string(sum));
    }
    // 3. stored values agree with the variables
    double viol_count = 0, tv = 0;
    bool   feas = true;
    for (auto &p : m->constraint_proxies())
        for (auto &c : p.flat_indexed_constraints()) {
            if (!c.is_enabled()) continue;
            double a = eval(c.expression());
            if (!near(a, c.constraint_value())) C.fail("P04:row-value", c.name() + " stored " + num(c.constraint_value()) + " actual " + num(a));
            double vi = 0;
            using CS  = printemps::model_component::ConstraintSense;
            if (c.sense() == CS::Less) vi = std::max(a, 0.0);
            if (c.sense() == CS::Greater) vi = std::max(-a, 0.0);
            if (c.sense() == CS::Equal) vi = std::fabs(a);
            if (!near(vi, c.violation_value())) C.fail("P04:row-violation", c.name() + " stored " + num(c.violation_value()) + " actual " + num(vi));
            if (vi > 1e-4) { feas = false; viol_count++; }
            tv += vi;
        }
    if (m->is_feasible() != feas) C.fail("P04:feasible-flag", std::string("flag ") + (m->is_feasible() ? "1" : "0"));
    if ((double)m->current_violative_constraint_ptrs().size() != viol_count) C.fail("P04:violative-list", std::to_string(m->current_violative_constraint_ptrs().size()));
    if (s.has_obj) {
        double ob = eval(m->objective().expression());
        if (!near(ob, m->objective().value())) C.fail("P04:objective-value", "stored " + num(m->objective().value()) + " actual " + num(ob));
        if (feas && (!C.vany || ob * C.sign < C.vbest)) { C.vany = true; C.vbest = ob * C.sign; }
    } else if (feas) { C.vany = true; C.vbest = 0; }
    if (full)
        for (auto &p : m->expression_proxies())
            for (auto &e : p.flat_indexed_expressions())
                if (!near(eval(e), e.value())) C.fail("P04:expression-value", e.name() + " stored " + num(e.value()) + " actual " + num(eval(e)));
    C.R->seen(hmix(C.R->cases, hstr(xs(cur()))));
}
static void keep(const IPModel *m) {
    C.pre.clear();
    for (auto *v : m->variable_reference().variable_ptrs) C.pre.push_back(v->value());
}
// was every improving single step among the moves the search could choose from?
static void check_screening(const IPModel *m) {
    namespace sm = printemps::option::improvability_screening_mode;
    using VS = printemps::model_component::VariableSense;
    using CS = printemps::model_component::ConstraintSense;
    auto &vs = m->variable_reference().variable_ptrs;
    if (C.pre.size() != vs.size() || !C.complete) return;
    std::unordered_map<const IPVar *, int> x;
    for (size_t i = 0; i < vs.size(); i++) x[vs[i]] = C.pre[i];
    auto val = [&](const IPExpr &e, const IPVar *v, int d) {
        double t = e.constant_value();
        for (auto &q : e.sensitivities()) t += q.second * (q.first == v ? x[q.first] + d : x[q.first]);
        return t;
    };
    std::vector<const IPCon *> rows;
    for (auto &p : m->constraint_proxies())
        for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled()) rows.push_back(&c);
    auto tv = [&](const IPVar *v, int d) {
        double t = 0;
        for (auto *c : rows) { double q = val(c->expression(), v, d); t += c->sense() == CS::Less ? std::max(q, 0.0) : c->sense() == CS::Greater ? std::max(-q, 0.0) : std::fabs(q); }
        return t;
    };
    const double t0 = tv(nullptr, 0), o0 = C.spec->has_obj ? val(m->objective().expression(), nullptr, 0) * C.sign : 0;
    if (t0 > 1e-6 && t0 < 1e-3) return;
    const bool feas = t0 < 1e-4;
    if (!feas && C.screen != sm::Off && C.screen != sm::Soft && C.screen != sm::Aggressive) return;
    std::set<std::pair<const IPVar *, int>> have;
    for (auto *mv : const_cast<IPModel *>(m)->neighborhood().move_ptrs()) if (mv->alterations.size() == 1) have.insert({mv->alterations[0].first, mv->alterations[0].second});
    for (auto *v : vs) {
        if (v->is_fixed() || !((v->sense() == VS::Binary && C.bin) || (v->sense() == VS::Integer && C.intg))) continue;
        for (int d : {-1, 1}) {
            long y = (long)x[v] + d;
            if (y < v->lower_bound() || y > v->upper_bound()) continue;
            bool better_o = C.spec->has_obj && val(m->objective().expression(), v, d) * C.sign < o0 - 1e-4, better_v = tv(v, d) < t0 - 1e-4;
            bool need = feas ? better_o : better_v || (C.screen != sm::Aggressive && better_o);
            if (!need) continue;
            C.R->ev("improving_steps_offered");
            if (!have.count({v, (int)y})) C.fail("P05:improving-step-not-offered", v->name() + " to " + std::to_string(y) + (feas ? " in a feasible state" : " in an infeasible state") + ", screening " + std::to_string(C.screen));
        }
    }
}
static void on_update(const void *p) { if (C.started) keep((const IPModel *)p); C.moved = false; C.fresh = true; check_state((const IPModel *)p, true); }
static void on_move(const void *p, const void *mv) {
    auto *m = (const IPModel *)p;
    auto *v = (const IPMove *)mv;
    if (C.started) {
        C.R->ev("move:" + v->sense_label());
        C.moves++;
        for (auto *c : m->current_violative_constraint_ptrs()) C.vio[c]++;
        for (auto &al : v->alterations) C.upd[al.first]++;
        if (v->sense == printemps::neighborhood::MoveSense::UserDefined) C.user_moves++;
        for (auto &al : v->alterations)
            if (al.first->value() != al.second) C.fail("P05:alteration-not-applied", al.first->name() + " wants " + std::to_string(al.second) + " has " + std::to_string(al.first->value()) + " in " + v->sense_label());
    }
    C.moved = true;
    if (C.started && C.moves % 3 == 1) check_screening(m);
    keep(m);
    check_state(m, false);
}
static void on_inc(const void *mp, const void *hp, const void *sp) {
    auto *m = (const IPModel *)mp;
    auto *h = (const Holder *)hp;
    auto *s = (const Score *)sp;
    if (!C.started) C.started = true;  // first offer is made once setup is over
    C.R->ev("incumbent_offers");
    if (m) {
        for (auto &p : m->constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                double a = c.local_penalty_coefficient_less(), b = c.local_penalty_coefficient_greater();
                if (!(a >= 0 && a <= C.pmax && b >= 0 && b <= C.pmax)) C.fail("P13:penalty", c.name() + " has " + num(a) + ", " + num(b) + " allowed up to " + num(C.pmax));
                if (a != C.pmax && b != C.pmax) C.R->ev("adapted_penalties");
            }
        if (!std::isfinite(s->local_augmented_objective) || !std::isfinite(s->global_augmented_objective) || !std::isfinite(s->local_penalty)) C.fail("P13:score", num(s->local_augmented_objective));
        for (auto &q : m->selections())
            if (!q.selected_variable_ptr || q.selected_variable_ptr->value() != 1) C.fail("P05:selected-ptr", "selected variable is not 1");
        // the score offered describes the current state
        double tv = 0;
        for (auto &p : m->constraint_proxies())
            for (auto &c : p.flat_indexed_constraints())
                if (c.is_enabled()) {
                    double a  = eval(c.expression());
                    using CS  = printemps::model_component::ConstraintSense;
                    tv += c.sense() == CS::Less ? std::max(a, 0.0) : c.sense() == CS::Greater ? std::max(-a, 0.0) : std::fabs(a);
                }
        double ob = C.spec->has_obj ? eval(m->objective().expression()) * C.sign : 0.0;
        if (std::fabs(s->total_violation - tv) > 1e-5 * (1 + tv)) C.fail("P04:score-violation", "score " + num(s->total_violation) + " actual " + num(tv));
        if (!near(s->objective, ob, 1e-6)) C.fail("P04:score-objective", "score " + num(s->objective) + " actual " + num(ob));
        if (s->is_feasible != (tv < 1e-4)) C.fail("P04:score-feasible", "tv " + num(tv));
    }
    if (s->is_feasible) {
        C.R->ev("feasible_offers");
        if (!C.any || s->objective < C.best) { C.any = true; C.best = s->objective; }
        if (!h->is_found_feasible_solution()) C.fail("P06:found-flag", "");
        if (m && C.moved && !C.fresh) C.offered[full(m)] = false;
    }
    C.fresh = false;
    if (C.any && h->feasible_incumbent_objective() > C.best + 2e-5) C.fail("P06:best-offer-lost", "holder " + num(h->feasible_incumbent_objective()) + " best offered " + num(C.best));
    if (h->feasible_incumbent_objective() > C.last_feas + 1e-9) C.fail("P06:incumbent-worsened", num(C.last_feas) + " -> " + num(h->feasible_incumbent_objective()));
    if (h->global_augmented_incumbent_objective() > C.last_glob + 1e-9) C.fail("P06:augmented-worsened", num(C.last_glob) + " -> " + num(h->global_augmented_incumbent_objective()));
    if (h->feasible_incumbent_objective() < C.last_feas - 1e-9 && m) {
        C.R->ev("feasible_incumbent_updates");
        // the stored solution is the one the score belongs to
        auto &sol = h->feasible_incumbent_solution();
        double ob = sol.objective;
        if (!near(ob * C.sign, h->feasible_incumbent_objective(), 1e-6)) C.fail("P06:stored-solution-objective", num(ob) + " vs " + num(h->feasible_incumbent_objective()));
        std::vector<int> x;
        for (size_t i = 0; i < C.b->v.size(); i++) {
            auto *v = C.b->v[i];
            x.push_back(sol.variable_value_proxies[v->proxy_index()].flat_indexed_values(v->flat_index()));
        }
        if (!C.spec->feasible(x)) C.fail("P06:stored-solution-infeasible", xs(x));
        else if (!near(C.spec->objective(x) * C.sign, h->feasible_incumbent_objective(), 1e-6)) C.fail("P06:stored-solution-mismatch", xs(x) + " has " + num(C.spec->objective(x)));
    }
    C.last_feas = h->feasible_incumbent_objective();
    C.last_glob = h->global_augmented_incumbent_objective();
}
static void on_dual(const void *, double d) {
    C.R->ev("dual_bounds");
    if (C.dual_kind > 0) C.R->ev("dual_bounds_improved");
    if (C.have_dual && d * C.sign < C.last_dual * C.sign) C.fail("P07:dual-worsened", num(C.last_dual) + " -> " + num(d));
    C.have_dual = true;
    C.last_dual = d;
    C.dual_kind++;
    if (C.B.any) {
        // PDLP/subgradient arithmetic is only exact up to the tolerances they stop at
        double tol = 1e-3 * (1 + std::fabs(C.B.best));
        if (C.dual_kind == 1) tol = 1e-6;
        if (d * C.sign > C.B.best * C.sign + tol) C.fail("P07:dual-bound-cuts-optimum", "bound " + num(d) + " optimum " + num(C.B.best) + " call " + std::to_string(C.dual_kind));
    }
}

static long st_loops(const printemps::solver::Result<int, double> &r) { return r.status.number_of_tabu_search_loops; }
int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    if (a.mode == "use" && !a.scratch.empty() && chdir(a.scratch.c_str())) return 3;
    printemps_verif::g_model_update = on_update;
    printemps_verif::g_model_move   = on_move;
    printemps_verif::g_incumbent    = on_inc;
    printemps_verif::g_dual_bound   = on_dual;
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0x77);
        GenCfg g;
        if (r.p(0.3)) { g.nmax = 5; g.kmax = 3; }
        if (r.p(0.25)) { g.nmin = 6; g.nmax = 11; g.kmax = 4; g.maxbox = 20000; }
        if (r.p(0.08)) { g.p_wide = 1; g.maxbox = 1500; }
        g.p_scale = 0.05;
        bool big = r.p(0.05);
        if (big) { g.p_wide = 0; g.big = true; g.nmin = 15; g.nmax = 40; g.kmin = 5; g.kmax = 30; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        if (a.mode == "dual") oc.duals = false;
        if (a.mode == "short") { oc.outer_max = 6; oc.inner_max = 3; }
        std::string od;
        Option      o = random_option(r, oc, &od);
        { Rng q(case_seed(a, i) ^ 0xa7c); if (q.p(0.5)) { o.output.is_enabled_store_feasible_solutions = true; o.output.feasible_solutions_capacity = q.pick<int>({1, 3, 10, 10000, 10000}); if (q.p(0.5)) o.tabu_search.is_enabled_initial_modification = false; } }
        if (a.mode == "dual") { o.lagrange_dual.is_enabled = r.p(0.6); o.pdlp.is_enabled = r.p(0.6); o.general.iteration_max = 2; }
        // the relaxations are solved to a relative tolerance: not judged on badly scaled models
        if (s.wide >= 0 || s.scaled) o.lagrange_dual.is_enabled = o.pdlp.is_enabled = false;
        C             = Ctx();
        C.spec = &s; C.R = &R;
        C.pmax = o.penalty.initial_penalty_coefficient;
        C.complete = !o.local_search.is_enabled && !o.tabu_search.is_enabled_move_curtail && !o.neighborhood.is_enabled_integer_step_size_adjuster;
        C.screen = (int)o.neighborhood.improvability_screening_mode;
        C.bin = o.neighborhood.is_enabled_binary_move; C.intg = o.neighborhood.is_enabled_integer_move;
        C.id = "trace:" + std::to_string(a.seed) + ":" + std::to_string(i);
        C.dt = s.dump() + " | " + od;
        C.sign = s.minimize ? 1 : -1;
        if (!s.has_obj) C.sign = 1;
        if (a.verbose) printf("%s\n%s\n", C.id.c_str(), C.dt.c_str()), fflush(stdout);
        if (!big) C.B = brute(s);
        IPModel m;
        Built   b;
        C.b = &b;
        build(s, &m, &b);
        const bool with_callback = a.mode == "use" && r.p(0.8), with_moves = a.mode == "use" && r.p(0.7);
        Rng ur(case_seed(a, i) ^ 0x05e2);
        if (with_callback)
            m.set_callback([&](Option *op, Holder *h) {
                C.callbacks++;
                auto &ls = h->local_augmented_incumbent_score();
                auto &gs = h->global_augmented_incumbent_score();
                C.cb_scores.push_back({ls.objective, ls.total_violation, gs.objective, gs.total_violation});
                R.ev("callbacks");
                if (!op || !h) { C.fail("P20:callback-arguments", ""); return; }
                if (h->feasible_incumbent_objective() > C.cb_last) C.fail("P20:callback-incumbent", num(C.cb_last) + " -> " + num(h->feasible_incumbent_objective()));
                C.cb_last = h->feasible_incumbent_objective();
                if (C.any && h->feasible_incumbent_objective() > C.best + 2e-5) C.fail("P20:callback-incumbent", num(h->feasible_incumbent_objective()) + " although " + num(C.best) + " was found");
            });
        if (with_moves) {
            o.neighborhood.is_enabled_user_defined_move = true;
            m.neighborhood().user_defined().set_move_updater([&](std::vector<IPMove> *mv) {
                C.asked++;
                mv->clear();
                int k = ur.in(0, 6);
                for (int q = 0; q < k; q++) {
                    IPMove w;
                    std::set<int> used;
                    int n = ur.in(1, 3);
                    for (int z = 0; z < n; z++) {
                        int j = ur.in(0, (int)b.v.size() - 1);
                        if (!used.insert(j).second) continue;
                        int d = s.v[j].lb + ur.in(-1, 5);  // may be out of bounds: to be refused
                        if (j == s.wide) d = b.v[j]->value() + ur.in(-3, 3);
                        w.alterations.emplace_back(b.v[j], d);
                    }
                    if (!w.alterations.empty()) mv->push_back(w);
                }
                R.ev("user_moves_offered", mv->size());
            });
        }
        const bool with_trend = with_callback && !a.scratch.empty() && r.p(0.25);
        if (with_trend) { o.output.is_enabled_write_trend = true; unlink("trend.txt"); }
        const size_t user_rows = m.constraint_proxies().size();
        printemps::solver::IPSolver solver(&m, o);
        printemps::solver::Result<int, double> res;
        try {
            res = solver.solve();
        } catch (std::exception &e) {
            R.ev("solve_threw");
            if (C.B.any) C.fail("X:throw", e.what());
            continue;
        }
        R.evaluations++;
        bool feas = res.solution.is_feasible();
        double ob = res.solution.objective() * C.sign;
        auto &ih = solver.global_state().incumbent_holder;
        if (C.any != feas) C.fail("P06:feasible-found-but-not-returned", feas ? "returned feasible, never offered" : "offered but not returned");
        if (C.vany && !feas) C.fail("P06:visited-feasible-not-returned", "visited " + num(C.vbest));
        if (C.any && feas && ob > C.best + 2e-5 * (1 + std::fabs(C.best))) C.fail("P06:worse-than-best-offer", "returned " + num(ob) + " best offered " + num(C.best));
        if (C.vany && feas && ob > C.vbest + 2e-5 * (1 + std::fabs(C.vbest))) C.fail("P06:worse-than-visited", "returned " + num(ob) + " best visited " + num(C.vbest));
        if (C.any) R.ev("runs_with_feasible");
        judge_result(R, s, res.solution, &b, [&](const std::string &k, const std::string &d) { C.fail(k, d); });
        if (C.B.any && feas && C.spec->has_obj && ob < C.B.best * C.sign - 1e-6 * (1 + std::fabs(C.B.best))) C.fail("P01:better-than-optimum", num(ob));
        for (auto &q : res.status.penalty_coefficients)
            for (auto z : q.second.flat_indexed_values()) if (!(z >= 0 && z <= C.pmax)) C.fail("P13:reported-penalty", q.first + " " + num(z));
        if (with_trend) {  // the trend log has one complete line per loop, with the incumbents of that moment
            std::ifstream in("trend.txt");
            std::string line, head;
            size_t n = 0, cols = 0;
            while (std::getline(in, line)) {
                std::istringstream ss(line);
                std::vector<std::string> w;
                std::string t;
                while (ss >> t) w.push_back(t);
                if (w.empty()) continue;
                if (w[0][0] == '#') {
                    if (w[0] == "#number_of_variables:" && (w.size() != 2 || w[1] != std::to_string(s.v.size()))) C.fail("P21:trend-head", line);
                    if (w[0] == "#iteration") { cols = w.size(); std::map<std::string, int> at; for (size_t k = 0; k < w.size(); k++) at[w[k]] = k; if (at["local_objective"] != 4 || at["local_violation"] != 5 || at["global_objective"] != 6 || at["global_violation"] != 7) C.fail("P21:trend-head", line); }
                    continue;
                }
                R.ev("trend_lines_checked");
                if (w.size() != cols) { C.fail("P21:trend-columns", line); break; }
                if (n < C.cb_scores.size()) {
                    if (w[0] != std::to_string(n)) C.fail("P21:trend-iteration", line);
                    for (int k = 0; k < 4; k++) { double v = std::stod(w[4 + k]), x = C.cb_scores[n][k]; if (std::fabs(v - x) > 1e-4 * (1 + std::fabs(x))) C.fail("P21:trend-incumbent", line + " instead of " + num(x)); }
                }
                n++;
            }
            if ((long)n != st_loops(res)) C.fail("P21:trend-lines", std::to_string(n) + " lines, " + std::to_string(st_loops(res)) + " loops");
        }
        // statistics of the run
        auto &st = res.status;
        R.ev("statistics_checked");
        if (st.is_found_feasible_solution != feas) C.fail("P21:found-flag", "");
        for (size_t pi = 0; pi < m.variable_proxies().size(); pi++)
            for (auto &v : m.variable_proxies()[pi].flat_indexed_variables()) {
                const std::string pn = m.variable_names()[pi];
                auto it = st.update_counts.find(pn);
                long want = C.upd.count(&v) ? C.upd[&v] : 0;
                if (it == st.update_counts.end()) { C.fail("P21:update-count-missing", pn); continue; }
                long got = it->second.flat_indexed_values(v.flat_index());
                if (want) R.ev("update_counts_checked");
                if (got != want) C.fail("P21:update-count", v.name() + " reported " + std::to_string(got) + " observed " + std::to_string(want));
            }
        for (size_t pi = 0; pi < user_rows; pi++)  // rows added by preprocessing may share a name
            for (auto &c : m.constraint_proxies()[pi].flat_indexed_constraints()) {
                const std::string pn = m.constraint_names()[pi];
                auto it = st.violation_counts.find(pn);
                long want = C.vio.count(&c) ? C.vio[&c] : 0;
                if (it == st.violation_counts.end()) { C.fail("P21:violation-count-missing", pn); continue; }
                long got = it->second.flat_indexed_values(c.flat_index());
                if (want) R.ev("violation_counts_checked");
                if (got != want) C.fail("P21:violation-count", c.name() + " reported " + std::to_string(got) + " observed " + std::to_string(want));
            }
        if (with_callback && C.callbacks != st.number_of_tabu_search_loops) C.fail("P20:callback-count", std::to_string(C.callbacks) + " calls, loops " + std::to_string(st.number_of_tabu_search_loops));
        if (st.number_of_tabu_search_iterations > C.moves) C.fail("P21:iterations", std::to_string(st.number_of_tabu_search_iterations) + " moves " + std::to_string(C.moves));
        if (!o.local_search.is_enabled && !o.tabu_search.is_enabled_initial_modification) { R.ev("iteration_counts_checked"); /* a loop that breaks off does not count its last move */ if (st.number_of_tabu_search_iterations < C.moves - st.number_of_tabu_search_loops) C.fail("P21:iterations-exact", std::to_string(st.number_of_tabu_search_iterations) + " moves " + std::to_string(C.moves)); }
        if (C.user_moves) R.ev("user_moves_made", C.user_moves);
        if (a.mode == "use") {
            bool again = false;
            try { printemps::solver::solve(&m, o); again = true; } catch (std::logic_error &) {}
            if (again) C.fail("P20:solved-twice", "");
        }
        // the archive of feasible solutions
        auto &ar = res.feasible_solution_archive.solutions();
        if (!o.output.is_enabled_store_feasible_solutions) {
            if (!ar.empty()) C.fail("P08:not-requested", std::to_string(ar.size()));
        } else {
            int cap = o.output.feasible_solutions_capacity;
            R.ev("archives_checked");
            if (cap > 0 && (int)ar.size() > cap) C.fail("P08:capacity", std::to_string(ar.size()) + " of " + std::to_string(cap));
            std::set<std::vector<int>> got;
            double prev = -INFINITY, worst = -INFINITY;
            for (auto &q : ar) {
                std::vector<int> x;
                size_t           nz = 0;
                for (size_t k = 0; k < b.v.size(); k++) { auto it = q.variables.find(b.v[k]->name()); x.push_back(it == q.variables.end() ? 0 : it->second); nz += it != q.variables.end(); }
                R.ev("archived_solutions_checked");
                if (nz != q.variables.size()) C.fail("P08:unknown-variable", "");
                if (!q.is_feasible) C.fail("P08:flag", xs(x));
                if (!s.feasible(x)) C.fail("P08:infeasible", xs(x));
                else if (!near(q.objective, s.objective(x))) C.fail("P08:objective", xs(x) + " stored " + num(q.objective) + " actual " + num(s.objective(x)));
                if (q.objective * C.sign < prev) C.fail("P08:order", num(prev) + " before " + num(q.objective));
                prev = worst = q.objective * C.sign;
                if (!got.insert(x).second) C.fail("P08:duplicate", xs(x));
            }
            bool fullcap = cap > 0 && (int)ar.size() >= cap;
            if (feas && (!fullcap || ob < worst - 1e-6 * (1 + std::fabs(worst))) && !got.count(values_of(s, res.solution))) C.fail("P08:returned-solution-missing", xs(values_of(s, res.solution)) + " archive " + std::to_string(ar.size()));
            // states of the random perturbation between searches are not archived by design
            if (!o.tabu_search.is_enabled_initial_modification) for (auto &e : C.offered) {
                R.ev("visited_feasible_states_looked_up");
                double ob1 = s.objective(e.first) * C.sign;
                if (!got.count(e.first) && (!fullcap || ob1 < worst - 1e-9 * (1 + std::fabs(worst)))) C.fail("P08:missing", xs(e.first) + " objective " + num(ob1) + " archive " + std::to_string(ar.size()));
            }
            if (fullcap) R.ev("archives_full");
        }
        // optimality claim
        using TS = printemps::solver::tabu_search::core::TabuSearchCoreTerminationStatus;
        auto ts  = solver.tabu_search_controller().result().state.tabu_search_result.termination_status;
        R.ev("termination:" + std::to_string((int)ts));
        if (ts == TS::OPTIMAL) {
            R.ev("optimality_claims");
            if (!feas) C.fail("P07:optimal-without-feasible", "");
            else if (C.B.any && ob > C.B.best * C.sign + 1e-4 * (1 + std::fabs(C.B.best))) C.fail("P07:false-optimality", "returned " + num(ob * C.sign) + " optimum " + num(C.B.best) + " dual " + num(ih.dual_bound()));
        }
        if (R.evaluations % 997 == 1) R.sample(C.id + " " + C.dt + " -> dual " + num(ih.dual_bound()) + " best " + num(ob * C.sign));
    }
    R.finish();
    return 0;
}
