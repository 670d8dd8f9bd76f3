// Adaptation monitor: runs loops of the tabu search with the real state manager
// between them and decides after each loop whether penalty weights, start
// solution, search parameters and neighbourhoods were adapted as documented.
#include "vf.h"
using namespace vf;
namespace mc = printemps::model_component;
namespace po = printemps::option;
namespace tc = printemps::solver::tabu_search::core;
using Sparse = printemps::solution::SparseSolution<int, double>;
using Dense  = printemps::solution::DenseSolution<int, double>;
using SM     = printemps::solver::tabu_search::controller::TabuSearchControllerStateManager<int, double>;

struct Side { IPCon *c; bool less; size_t proxy; double w0, w1, viol; };
static double weight(const Side &s) { return s.less ? s.c->local_penalty_coefficient_less() : s.c->local_penalty_coefficient_greater(); }
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0xada9);
        GenCfg g;
        if (r.p(0.4)) { g.nmin = 6; g.nmax = 12; g.kmin = 2; g.kmax = 8; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o = random_option(r, oc, &od);
        std::string id = "adapt:" + std::to_string(a.seed) + ":" + std::to_string(i);
        o.tabu_search.iteration_max = r.pick<int>({3, 10, 25});
        o.tabu_search.initial_tabu_tenure = r.pick<int>({0, 1, 2, 3, 5, 10});
        o.tabu_search.is_enabled_automatic_tabu_tenure_adjustment = r.p(0.6);
        o.tabu_search.is_enabled_automatic_iteration_adjustment = r.p(0.6);
        o.tabu_search.is_enabled_initial_modification = r.p(0.7);
        o.tabu_search.is_enabled_automatic_break = r.p(0.3);
        o.tabu_search.iteration_increase_rate = r.pick<double>({1.0, 1.2, 1.5, 2.0});
        o.tabu_search.time_max = o.general.time_max = 1e9; o.tabu_search.time_offset = 0;
        o.penalty.penalty_coefficient_relaxing_rate = r.pick<double>({0.9, 0.5, 0.99});
        o.penalty.penalty_coefficient_relaxing_rate_min = r.pick<double>({0.3, 0.1});
        o.penalty.penalty_coefficient_relaxing_rate_max = r.pick<double>({0.9999, 0.995});
        o.penalty.penalty_coefficient_tightening_rate = r.pick<double>({1.0, 0.5, 2.0});
        o.penalty.penalty_coefficient_updating_balance = r.pick<double>({0, 1.0, 0.5, 1.0});
        o.penalty.is_enabled_group_penalty_coefficient = r.p(0.25);
        o.penalty.initial_penalty_coefficient = r.pick<double>({1e7, 1e3, 100, 10.0, 10.0, 3.0});
        o.penalty.inner_stagnation_threshold = r.pick<int>({0, 1, 3, 20});
        o.penalty.outer_stagnation_threshold = r.pick<int>({0, 1, 2, 10});
        o.penalty.is_enabled_inner_stagnation_breaker = r.p(0.6);
        o.penalty.is_enabled_outer_stagnation_breaker = r.p(0.6);
        if (r.p(0.6)) o.preprocess.is_enabled_presolve = false;
        o.lagrange_dual.is_enabled = false;
        o.neighborhood.is_enabled_integer_step_size_adjuster = false;
        o.output.verbose = po::verbose::Off;
        o.output.is_enabled_store_feasible_solutions = false;
        o.general.target_objective_value = -HUGE_VAL;
        o.parallel.is_enabled_move_update_parallelization = o.parallel.is_enabled_move_evaluation_parallelization = false;
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        if (r.p(0.3)) {  // given pairs for the two-flip neighbourhood
            std::vector<int> bin;
            for (size_t j = 0; j < s.v.size(); j++) if (s.v[j].lb == 0 && s.v[j].ub == 1) bin.push_back(j);
            std::vector<std::pair<std::string, std::string>> nm;
            for (int x : bin) b.v[x]->set_name("flip" + std::to_string(x));
            for (size_t j = 1; j < bin.size() && j < 5; j++) nm.push_back({b.v[bin[j - 1]]->name(), b.v[bin[j]]->name()});
            m.setup_flippable_variable_ptr_pairs(nm);
            o.neighborhood.is_enabled_two_flip_move = true;
        }
        try { m.setup(o, a.verbose); } catch (std::exception &) { R.ev("setup_threw"); continue; }
        R.evaluations++;
        std::string bad, key;
        auto fail = [&](const std::string &k, const std::string &d) { if (bad.empty()) key = "P26:" + k, bad = d; };
        const double init = o.penalty.initial_penalty_coefficient;
        std::vector<Side> sides;
        for (size_t p = 0; p < m.constraint_proxies().size(); p++)
            for (auto &c : m.constraint_proxies()[p].flat_indexed_constraints()) {
                c.reset_local_penalty_coefficient();
                if (c.sense() != mc::ConstraintSense::Greater) sides.push_back({&c, true, p, 0, 0, 0});
                if (c.sense() != mc::ConstraintSense::Less) sides.push_back({&c, false, p, 0, 0, 0});
            }
        auto &N = m.neighborhood();
        struct Gen { const char *n; bool wanted; std::function<bool()> on; std::function<size_t()> size; };
        std::vector<Gen> gens;
#define GEN(x) gens.push_back({#x, o.neighborhood.is_enabled_##x##_move, [&]() { return N.x().is_enabled(); }, [&]() { return (size_t)N.x().moves().size(); }})
        GEN(exclusive_or); GEN(exclusive_nor); GEN(inverted_integers); GEN(balanced_integers); GEN(constant_sum_integers); GEN(constant_difference_integers); GEN(constant_ratio_integers);
        GEN(aggregation); GEN(precedence); GEN(variable_bound); GEN(trinomial_exclusive_nor); GEN(soft_selection); GEN(two_flip); GEN(chain);
        if (o.neighborhood.is_enabled_binary_move) N.binary().enable();
        if (o.neighborhood.is_enabled_integer_move) N.integer().enable();
        if (m.number_of_selection_variables() > 0) N.selection().enable();
        m.update();
        printemps::solver::GlobalState<int, double> gs;
        gs.memory.setup(&m);
        auto &H = gs.incumbent_holder;
        H.try_update_incumbent(&m, m.evaluate({}));
        SM           sm(&m, &gs, o);
        std::mt19937 mt(r.in(1, 1000));
        auto &       st = sm.state();
        st.current_solution = m.export_sparse_solution();
        sm.set_tabu_search_start_time(0);
        sm.reset_iteration();
        int  loops = r.p(0.3) ? r.in(12, 30) : r.in(3, 12), since_relax = 0, since_update = 0;
        bool feasible_ever = H.is_found_feasible_solution(), vague_ever = false;
        uint64_t h = 1;
        typedef tc::TabuSearchCoreTerminationStatus TS;
        for (int l = 0; l < loops && bad.empty(); l++) {
            try {
                sm.set_total_elapsed_time(1.0 + l);
                auto   opt = sm.create_option();
                auto   start = st.current_solution;
                double g0 = H.global_augmented_incumbent_objective();
                int    tenure0 = st.initial_tabu_tenure, limit0 = st.iteration_max;
                // what the loop is given
                if (opt.tabu_search.iteration_max != limit0 || opt.tabu_search.initial_tabu_tenure != tenure0 || opt.tabu_search.number_of_initial_modification != st.number_of_initial_modification) fail("options-not-passed", "loop " + std::to_string(l));
                if (opt.tabu_search.tabu_mode != o.tabu_search.tabu_mode || opt.penalty.initial_penalty_coefficient != init || opt.general.target_objective_value != o.general.target_objective_value) fail("options-not-passed", "loop " + std::to_string(l) + " other options changed");
                tc::TabuSearchCore<int, double> core(&m, &gs, start, opt);
                core.run();
                const auto &res = core.result();
                bool  updated = H.global_augmented_incumbent_objective() < g0, nothing = res.total_update_status == 0;
                Dense local = H.local_augmented_incumbent_solution();
                bool  vague = false; double tv = 0;
                // rows at the best state of the loop, from its variable values
                std::map<const IPVar *, int> x;
                for (auto &p : m.variable_proxies()) for (auto &v : p.flat_indexed_variables()) x[&v] = local.variable_value_proxies[p.index()][v.flat_index()];
                for (auto &q : sides) {
                    double e = q.c->expression().constant_value();
                    for (auto &t : q.c->expression().sensitivities()) e += t.second * x[t.first];
                    q.viol = std::max(0.0, q.less ? e : -e);
                    if (q.viol > 1e-7 && q.viol < 1e-4) vague = true;
                    if (q.c->is_enabled()) tv += q.viol;
                    q.w0 = weight(q);
                }
                bool feas = tv < 1e-7;
                if (feas != H.local_augmented_incumbent_score().is_feasible) vague = true;
                feasible_ever |= H.is_found_feasible_solution();
                double gap = H.global_augmented_incumbent_objective() - H.local_augmented_incumbent_objective();
                std::vector<bool> on0; for (auto &q : gens) on0.push_back(q.on());

                sm.update(res, &mt);

                std::string z = "after loop " + std::to_string(l) + (updated ? " (improved the incumbent)" : "") + (feas ? " (best state feasible)" : "") + ": ";
                if (updated) since_update = 0; else since_update++;
                vague_ever |= vague;
                bool reset = st.penalty_coefficient_reset_flag, up = false, down = false;
                for (auto &q : sides) {
                    q.w1 = weight(q);
                    if (!(q.w1 >= 0 && q.w1 <= init * (1 + 1e-12))) fail("weight-out-of-range", z + q.c->name() + " weight " + num(q.w1));
                    up |= q.w1 > q.w0 * (1 + 1e-12) + 1e-12; down |= q.w1 < q.w0 * (1 - 1e-12) - 1e-12;
                }
                const bool group = o.penalty.is_enabled_group_penalty_coefficient;
                auto name = [](const Side &q) { return q.c->name() + (q.less ? "(<=)" : "(>=)") + " violated by " + num(q.viol) + " weight " + num(q.w0) + " -> " + num(q.w1); };
                bool relaxed = false;
                if (reset) {
                    R.ev("resets_checked");
                    for (auto &q : sides) if (!same(q.w1, q.c->global_penalty_coefficient())) fail("reset-incomplete", z + name(q));
                    if (!o.penalty.is_enabled_inner_stagnation_breaker) fail("reset-though-off", z);
                    if (feasible_ever) fail("reset-after-feasible", z + "weights reset although a feasible solution is known");
                    if (since_update < o.penalty.outer_stagnation_threshold || since_relax <= o.penalty.inner_stagnation_threshold) fail("reset-too-early", z + std::to_string(since_update) + " loops since the last improvement, " + std::to_string(since_relax) + " since the last relaxation");
                } else if (!vague) {
                    bool must_relax = updated || nothing || feas;
                    // factor of the relaxation, common to all satisfied sides
                    auto is_relax = [&](std::string *why) {
                        double f = -1; 
                        for (auto &q : sides) {
                            if (q.viol > 0.5e-4) { if (!same(q.w1, q.w0)) { *why = "relaxation-of-violated " + name(q); return false; } continue; }
                            if (q.w0 < 1e-9) continue;
                            double k = q.w1 / q.w0;
                            if (f < 0) f = k;
                            else if (std::fabs(k - f) > 1e-9 * (1 + k)) { *why = "relaxation-uneven " + name(q) + " factor " + num(k) + " others " + num(f); return false; }
                        }
                        if (f >= 0) {
                            double hi = o.penalty.penalty_coefficient_relaxing_rate, lo = hi;
                            if (o.penalty.is_enabled_outer_stagnation_breaker) { hi = std::max(hi, o.penalty.penalty_coefficient_relaxing_rate_max); lo = std::min(lo, o.penalty.penalty_coefficient_relaxing_rate_min); }
                            if (f > hi + 1e-9 || f > 1) { *why = "relaxation-missing factor " + num(f); return false; }
                            if (!feas && f < lo - 1e-9) { *why = "relaxation-excessive factor " + num(f); return false; }
                            if (f <= 0) { *why = "relaxation-to-zero"; return false; }
                        }
                        return true;
                    };
                    auto is_tight = [&](std::string *why) {
                        std::map<size_t, double> mx; std::map<size_t, bool> vio;
                        double d0 = -1;
                        for (auto &q : sides) { mx[q.proxy] = std::max(mx[q.proxy], q.w0); vio[q.proxy] = vio[q.proxy] || q.viol > 0.5e-4; }
                        for (auto &q : sides) {
                            if (q.w1 < q.w0 * (1 - 1e-12) - 1e-12) { *why = "tightening-lowers " + name(q); return false; }
                            if (group) { for (auto &p : sides) if (p.proxy == q.proxy && !same(p.w1, q.w1)) { *why = "group-uneven " + name(q) + " / " + name(p); return false; } continue; }
                            if (q.viol < 0.5e-4) { if (!same(q.w1, q.w0)) { *why = "tightening-of-satisfied " + name(q); return false; } continue; }
                            double d = q.w1 - q.w0;
                            if (gap > 1e-3 && o.penalty.penalty_coefficient_updating_balance > 0 && q.w0 < init && !(d > 0) && gap > 1e-7 * (1 + std::fabs(H.global_augmented_incumbent_objective())) && q.w0 < 1e6) { *why = "tightening-missing " + name(q) + " gap " + num(gap); return false; }
                            if (o.penalty.penalty_coefficient_updating_balance == 1.0 && q.w1 < init * (1 - 1e-9)) { if (d0 < 0) d0 = d; else if (std::fabs(d - d0) > 1e-7 * (1 + d + d0) + 1e-9 * q.w0) { *why = "tightening-uneven " + name(q) + " others by " + num(d0); return false; } }
                        }
                        return true;
                    };
                    std::string w1, w2;
                    if (must_relax) {
                        relaxed = true;
                        if (!is_relax(&w1)) fail(w1.substr(0, w1.find(' ')), z + w1);
                        R.ev("relaxations_checked");
                    } else if (o.restart.restart_mode == po::restart_mode::Smart && gap < -1e-6) {
                        if (!is_tight(&w1)) fail(w1.substr(0, w1.find(' ')), z + w1);
                        R.ev("tightenings_checked");
                    } else {
                        bool t = is_tight(&w1), x2 = is_relax(&w2);
                        if (!t && !x2) fail(w1.substr(0, w1.find(' ')), z + w1 + " and " + w2);
                        double rel = res.global_augmented_objective_range / std::max(1.0, std::fabs(H.global_augmented_incumbent_objective()));
                        if (rel > 1e-2 && std::fabs(gap) > 1e-4 && !t) fail(w1.substr(0, w1.find(' ')), z + w1);
                        if (up && t) R.ev("tightenings_checked");
                    }
                    if (up) R.ev("weights_raised"); 
                    if (down) R.ev("weights_lowered");
                }
                if (st.is_enabled_penalty_coefficient_relaxing) since_relax = 0; else since_relax++;

                // the next start
                auto &cur = st.current_solution;
                auto  gsol = H.global_augmented_incumbent_solution().to_sparse(), lsol = local.to_sparse();
                bool  isg = cur.variables == gsol.variables, isl = cur.variables == lsol.variables, isp = cur.variables == start.variables;
                if (!isg && !isl && !isp) fail("start-unknown", z + "the next loop starts from neither incumbent nor the last start");
                if (o.restart.restart_mode == po::restart_mode::Simple && !reset && !isl) fail("start-not-local", z + "the next loop does not start from the best state of the loop");
                if (o.restart.restart_mode == po::restart_mode::Smart && (updated || nothing) && !isg) fail("start-not-incumbent", z + "the next loop does not start from the incumbent");
                if (o.restart.restart_mode == po::restart_mode::Smart && !vague && !updated && !nothing && gap > 1e-3 && feas && !isl) fail("start-not-local", z + "the feasible best state of the loop is not the next start");
                R.ev("starts_checked");

                // parameters of the next loop
                int lowt = std::min(o.tabu_search.initial_tabu_tenure, m.number_of_mutable_variables());
                if (!o.tabu_search.is_enabled_automatic_tabu_tenure_adjustment) { if (st.initial_tabu_tenure != tenure0) fail("tenure-changed", z + "tenure " + std::to_string(tenure0) + " -> " + std::to_string(st.initial_tabu_tenure)); }
                else {
                    if (updated && st.initial_tabu_tenure != lowt) fail("tenure-not-reset", z + "tenure " + std::to_string(st.initial_tabu_tenure) + ", configured " + std::to_string(lowt));
                    if (st.initial_tabu_tenure < lowt || (st.initial_tabu_tenure > tenure0 && (st.initial_tabu_tenure > tenure0 + 1 || st.initial_tabu_tenure > m.number_of_mutable_variables()))) fail("tenure-out-of-range", z + "tenure " + std::to_string(tenure0) + " -> " + std::to_string(st.initial_tabu_tenure));
                    if (st.initial_tabu_tenure != tenure0) R.ev("tenure_changes");
                }
                int k = st.number_of_initial_modification;
                if (k != 0 && (!o.tabu_search.is_enabled_initial_modification || updated || (o.restart.restart_mode == po::restart_mode::Simple && !reset))) fail("modification-unwanted", z + std::to_string(k) + " random modifications planned");
                if (k < 0) fail("modification-negative", z + std::to_string(k));
                if (o.tabu_search.is_enabled_initial_modification && !updated && k == 0 && ((o.restart.restart_mode == po::restart_mode::Smart && nothing) || reset)) fail("modification-missing", z + "no random modification planned although nothing was found from this start");
                if (k > 0) R.ev("modifications_planned");
                int lim = st.iteration_max, cap = std::max(o.tabu_search.initial_tabu_tenure, o.tabu_search.iteration_max);
                if (!o.tabu_search.is_enabled_automatic_iteration_adjustment ? lim != limit0 : lim > cap) fail("iteration-limit", z + "limit " + std::to_string(limit0) + " -> " + std::to_string(lim));
                if (o.tabu_search.is_enabled_automatic_iteration_adjustment) {
                    if (res.number_of_iterations != limit0 && lim != limit0) fail("iteration-limit", z + "limit " + std::to_string(limit0) + " -> " + std::to_string(lim) + " though the loop ended before it");
                    if (res.number_of_iterations == limit0 && !updated && lim < std::min(limit0, cap)) fail("iteration-limit", z + "limit lowered " + std::to_string(limit0) + " -> " + std::to_string(lim) + " without an improvement");
                    if (lim != limit0) R.ev("iteration_limit_changes");
                }
                namespace im = po::improvability_screening_mode;
                auto mode = st.improvability_screening_mode;
                if (o.neighborhood.improvability_screening_mode != im::Automatic) { if (mode != o.neighborhood.improvability_screening_mode) fail("screening-changed", z); }
                else {
                    bool okm = res.termination_status == TS::NO_MOVE ? mode == im::Soft : updated ? mode == im::Intensive : res.is_few_permissible_neighborhood ? mode == im::Soft : !res.is_found_new_feasible_solution ? mode == im::Aggressive || mode == im::Intensive : mode == im::Soft;
                    if (!okm) fail("screening-mode", z + "mode " + std::to_string((int)mode));
                    R.ev("screening_modes_checked");
                }
                for (size_t j = 0; j < gens.size(); j++) {
                    auto &q = gens[j]; bool on = q.on();
                    if (!q.wanted) { if (on && !on0[j]) fail("neighbourhood-switched-on", z + q.n + " enabled although switched off"); continue; }
                    if (updated) { if (on) fail("neighbourhood-left-on", z + q.n + " still enabled"); if (on0[j]) R.ev("neighbourhoods_switched_off"); }
                    else if (res.number_of_iterations == o.tabu_search.iteration_max) { if (!on && q.size() > 0) fail("neighbourhood-not-enabled", z + q.n + " not enabled after a full loop without improvement"); if (on && !on0[j]) R.ev("neighbourhoods_switched_on"); }
                    else if (on != on0[j]) fail("neighbourhood-changed", z + q.n);
                }
                int chains = (int)N.chain().moves().size();
                if (chains > o.neighborhood.chain_move_capacity) fail("chain-capacity", z + std::to_string(chains) + " chain moves kept, capacity " + std::to_string(o.neighborhood.chain_move_capacity));
                if (updated && o.neighborhood.is_enabled_chain_move && chains) fail("chain-kept", z + std::to_string(chains) + " chain moves kept after an improvement");
                if (chains) R.ev("chain_moves_kept");
                h = hmix(h, (up ? 1 : 0) + (down ? 2 : 0) + (updated ? 4 : 0) + (feas ? 8 : 0) + (nothing ? 16 : 0) + (isg ? 32 : 0) + (isl ? 64 : 0) + (uint64_t)(tv * 64) * 128);
                R.seen(h);
                R.ev("loops_judged");
                (void)relaxed;
                sm.next_iteration();
            } catch (std::exception &e) { R.ev("loop_threw"); break; }
        }
        if (!bad.empty()) R.fail(key, id, bad + " || " + dt);
    }
    R.finish();
    return 0;
}
