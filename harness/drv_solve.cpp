// End-to-end solve monitor: random models x random options, judged against the
// reference model kept outside the library.
#include "vf.h"
using namespace vf;

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i));
        GenCfg g;
        if (r.p(0.3)) { g.nmax = 5; g.kmax = 3; }
        if (r.p(0.25)) { g.nmin = 6; g.nmax = 11; g.kmax = 4; g.maxbox = 20000;}
        if (r.p(0.12)) { g.p_wide = 1; g.maxbox = 1500; }
        g.p_scale = 0.07;
        bool big = r.p(0.03);
        if (big) { g.p_wide = 0; g.big = true; g.nmin = 15; g.nmax = 50; g.kmin = 8; g.kmax = 40; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o  = random_option(r, oc, &od);
        std::string id = "solve:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        Brute B;
        if (!big) B = brute(s);
        if (big) R.ev("big_model");
        else R.ev(B.any ? "model_feasible" : "model_infeasible");
        IPModel m;
        Built   b;
        try {
            build(s, &m, &b);
        } catch (std::exception &e) {
            R.fail("P01:build-throw", id, std::string(e.what()) + " || " + dt);
            continue;
        }
        printemps::solver::Result<int, double> res;
        try {
            res = printemps::solver::solve(&m, o);
        } catch (std::exception &e) {
            std::string w = e.what();
            R.ev("solve_threw");
            if (B.any) R.fail("X:throw", id, w + " || " + dt);
            continue;
        }
        auto x    = values_of(s, res.solution);
        bool feas = res.solution.is_feasible();
        R.evaluations++;
        if (R.evaluations % 997 == 1) R.sample(id + " " + dt + " -> " + (feas ? "feasible " : "infeasible ") + xs(x));
        R.seen(hmix(s.hash(), hstr(xs(x))));
        R.ev(feas ? "claimed_feasible" : "claimed_infeasible");
        double obj = s.objective(x);
        judge_result(R, s, res.solution, &b, [&](const std::string &k, const std::string &d) { R.fail(k, id, d + " || " + dt); });
        if (B.any && !big) {
            if (feas) R.ev(near(obj, B.best) ? "optimum_hit" : "suboptimal");
            else R.ev("missed_feasible");
            if (feas && (s.minimize ? obj < B.best - 1e-6 : obj > B.best + 1e-6)) R.fail("P01:better-than-optimum", id, dt);
        }
    }
    R.finish();
    return 0;
}
