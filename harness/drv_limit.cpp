// Limits: iteration limits, time limits (on a virtual clock that advances with
// every reading) and target values, judged from what the search did.
#define PRINTEMPS_VERIF_HOOK 1
#include "vf.h"
using namespace vf;
using Holder = printemps::solution::IncumbentHolder<int, double>;
using Score  = printemps::solution::SolutionScore;

struct Clock { double now = 1000, step = 0.01, start = 0, limit = 1e9; long reads = 0, late = 0; bool over = false; } K;
extern "C" double omp_get_wtime(void) noexcept {
    K.now += K.step;
    if (K.reads++ == 0) K.start = K.now;
    if (K.over) K.late++;
    if (K.now - K.start > K.limit) K.over = true;
    return K.now;
}
struct { double target = -INFINITY, sign = 1; bool reached = false; long moves = 0, late_moves = 0, over_moves = 0; } T;
static void on_move(const void *, const void *) { T.moves++; if (T.reached) T.late_moves++; if (K.over) T.over_moves++; }
static void on_inc(const void *, const void *h, const void *) {
    auto *H = (const Holder *)h;
    if (H->is_found_feasible_solution() && H->feasible_incumbent_objective() <= T.target) T.reached = true;
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    printemps_verif::g_model_move = on_move;
    printemps_verif::g_incumbent  = on_inc;
    long maxlate = 0, maxover = 0, maxt = 0;
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i));
        std::string id = "limit:" + std::to_string(a.seed) + ":" + std::to_string(i);
        GenCfg g;
        if (r.p(0.3)) { g.nmin = 6; g.nmax = 12; g.maxbox = 20000; }
        Spec   s = generate(r, g);
        OptCfg oc; oc.outer_max = 6; oc.inner_max = 60;
        std::string od;
        Option o = random_option(r, oc, &od);
        o.tabu_search.number_of_initial_modification = std::min(o.tabu_search.number_of_initial_modification, 1);
        Brute  B = brute(s);
        K = Clock(); K.step = r.pick<double>({0.001, 0.01, 0.1, 1.0});
        T = {}; T.sign = s.minimize || !s.has_obj ? 1 : -1;
        int kind = r.in(0, 3);
        if (kind == 0) {  // total time
            o.general.iteration_max = r.in(20, 60); o.tabu_search.iteration_max = r.in(50, 200);
            o.local_search.iteration_max = 1000; o.lagrange_dual.iteration_max = 500; o.pdlp.iteration_max = 500;
            o.general.time_max = K.limit = r.in(0, r.pick<int>({10, 100, 3000})) * K.step;
            od += " total-time";
        }
        if (kind == 1) {  // time of a phase
            o.local_search.iteration_max = 1000; o.lagrange_dual.iteration_max = 500; o.tabu_search.iteration_max = r.in(50, 200);
            o.lagrange_dual.is_enabled = r.p(0.7);
            o.tabu_search.time_max = r.in(0, 100) * K.step; o.local_search.time_max = r.in(0, 20) * K.step; o.lagrange_dual.time_max = r.in(0, 20) * K.step;
            o.pdlp.time_max = r.in(0, 20) * K.step;
            od += " phase-time";
        }
        if (kind == 2 && B.any && s.has_obj) {  // target
            long want = r.in(0, (int)std::min<long>(B.nfeas - 1, 1000)), at = 0;
            double t = B.best;
            if (r.p(0.7)) enumerate(box_of(s), [&](const std::vector<int> &x) { if (s.feasible(x) && at++ == want) t = s.objective(x); });
            if (r.p(0.2)) t += r.in(-2, 2);
            o.general.target_objective_value = t;
            T.target = t * T.sign;
            o.general.iteration_max = r.in(5, 30);
            od += " target " + num(t);
        }
        if (!s.has_obj) T.target = 0;
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        printemps::solver::IPSolver solver(&m, o);
        printemps::solver::Result<int, double> res;
        try {
            res = solver.solve();
        } catch (std::exception &e) { R.ev("solve_threw"); continue; }
        R.evaluations++;
        auto &st   = res.status;
        int   ts   = (int)solver.tabu_search_controller().result().state.tabu_search_result.termination_status;
        long  lp   = st.number_of_tabu_search_loops, ti = st.number_of_tabu_search_iterations, li = st.number_of_local_search_iterations, la = st.number_of_lagrange_dual_iterations;
        bool  feas = res.solution.is_feasible();
        double obj = res.solution.objective() * T.sign;
        R.seen(hmix(s.hash(), hmix(lp * 1000003 + ti, li * 1009 + la)));
        if (R.evaluations % 997 == 1) R.sample(id + " " + dt + " loops " + std::to_string(lp) + " tabu " + std::to_string(ti) + " local " + std::to_string(li) + " dual " + std::to_string(la));
        auto bad = [&](const char *k, const std::string &w) { R.fail(k, id, w + " loops " + std::to_string(lp) + " tabu " + std::to_string(ti) + " local " + std::to_string(li) + " dual " + std::to_string(la) + " status " + std::to_string((int)ts) + " moves " + std::to_string(T.moves) + " || " + dt); };
        R.ev("tabu_iterations", ti); R.ev("tabu_loops", lp); R.ev("local_iterations", li); R.ev("lagrange_iterations", la);
        if (lp > o.general.iteration_max) bad("P17:iterations", "too many loops");
        if (ti > lp * (long)std::max(o.tabu_search.iteration_max, o.tabu_search.is_enabled_automatic_iteration_adjustment ? o.tabu_search.initial_tabu_tenure : 0)) bad("P17:iterations", "too many tabu search iterations");
        if (li > o.local_search.iteration_max) bad("P17:iterations", "too many local search iterations");
        if (la > o.lagrange_dual.iteration_max) bad("P17:iterations", "too many Lagrange dual iterations");
        if (!o.local_search.is_enabled && li) bad("P17:iterations", "a disabled phase ran");
        if (!o.lagrange_dual.is_enabled && la) bad("P17:iterations", "a disabled phase ran");
        bool target = feas && obj <= T.target + 1e-9;
        if (kind == 0) {
            R.ev(K.over ? "deadline_passed" : "deadline_not_reached");
            if (K.over) { maxlate = std::max(maxlate, K.late); maxover = std::max(maxover, T.over_moves); }
            if (K.late > 30) bad("P17:time", "clock read " + std::to_string(K.late) + " times after the time limit");
            if (T.over_moves > 20) bad("P17:time", std::to_string(T.over_moves) + " moves after the time limit");
        }
        if (kind == 1) {
            R.ev("phase_limits");
            if (li > o.local_search.time_max / K.step + 2) bad("P17:phase-time", "local search passed its time limit");
            if (la > o.lagrange_dual.time_max / K.step + 2) bad("P17:phase-time", "Lagrange dual passed its time limit");
            if (ti > lp * (o.tabu_search.time_max / K.step + 2)) bad("P17:phase-time", "tabu search passed its time limit");
        }
        if (T.reached) {
            R.ev("target_reached");
            maxt = std::max(maxt, T.late_moves);
            if (!target) bad("P17:target", "a solution meeting the target was found but not returned");
            if (T.late_moves > 12) bad("P17:target", std::to_string(T.late_moves) + " moves after the target was reached");
        }
        // nothing but a limit, the target or optimality ends a search
        if (lp < o.general.iteration_max && ts != 5 && !target && !(kind == 0 && K.over)) bad("P17:early", "ended early");
        if (lp == o.general.iteration_max) R.ev("loop_limit_used");
        if (ts == 5) R.ev("optimal_end");
    }
    if (a.verbose || getenv("VF_MAX")) fprintf(stderr, "maxlate %ld maxover %ld maxt %ld\n", maxlate, maxover, maxt);
    R.finish();
    return 0;
}
