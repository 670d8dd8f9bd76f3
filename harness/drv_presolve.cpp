// Preprocessing monitor: after Model::setup the reduced problem is enumerated
// completely through the model's own update(); its set of feasible points is
// compared with the brute-force solution of the original (spec) problem.
#include "vf.h"
using namespace vf;

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0x50);
        GenCfg g;
        g.maxbox = 3000;
        g.layouts = r.p(0.1);
        if (r.p(0.3)) { g.nmax = 5; g.kmax = 3; }
        if (r.p(0.25)) { g.nmin = 6; g.nmax = 10; g.kmax = 4; }
        if (r.p(0.15)) { g.p_wide = 1; g.maxbox = 800; }
        g.p_scale = 0.07;
        Spec   s = generate(r, g);
        OptCfg oc;
        std::string od;
        Option o = random_option(r, oc, &od);
        if (r.p(0.5)) o.preprocess.is_enabled_remove_redundant_set_variables = true;
        const bool online = a.mode == "online";  // judge the bounds left after a search that tightened them
        if (online) {
            o.preprocess.is_enabled_presolve = o.preprocess.is_enabled_online_bounding = true;
            o.lagrange_dual.is_enabled = o.pdlp.is_enabled = false;
            o.general.iteration_max = r.in(1, 6);
            o.tabu_search.iteration_max = r.in(1, 6);
            if (r.p(0.5)) o.local_search.is_enabled = false;
        }
        std::string id = "presolve:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        Brute   B = brute(s);
        R.ev(B.any ? "model_feasible" : "model_infeasible");
        IPModel m;
        Built   b;
        build(s, &m, &b);
        bool   sfeas = false;
        double sobj  = 0;
        try {
            if (online) {
                auto res = printemps::solver::solve(&m, o);
                sfeas = res.solution.is_feasible();
                sobj  = res.solution.objective();
                R.ev("bounds_tightened_online", m.problem_size_reducer().variable_bound_update_count_in_optimization());
            } else
                m.setup(o, a.verbose);
        } catch (std::exception &e) {
            R.ev("setup_threw");
            if (B.any) R.fail("P03:throw", id, std::string(e.what()) + " || " + dt);
            continue;
        }
        // what is left to the search
        std::vector<IPVar *>             free;
        std::vector<std::pair<int, int>> box;
        double                           sz = 1;
        int nfix = 0, ndep = 0;
        bool empty = false;
        int  wide_free = -1, wlo = 0, whi = 0;  // a variable too wide to be enumerated: tried at the ends of its ranges
        for (size_t j = 0; j < b.v.size(); j++) {
            auto *v = b.v[j];
            auto  se = v->sense();
            if (se == printemps::model_component::VariableSense::DependentInteger || se == printemps::model_component::VariableSense::DependentBinary) { ndep++; continue; }
            if (v->is_fixed()) {
                nfix += !s.v[j].fixed;
                if (v->value() < s.v[j].lb || v->value() > s.v[j].ub || (s.v[j].fixed && v->value() != s.v[j].init)) {
                    if (B.any) R.fail("P03:fixed-out-of-bounds", id, s.v[j].name + "=" + std::to_string(v->value()) + " || " + dt);
                    empty = true;
                }
                continue;
            }
            if (s.v[j].fixed) R.fail("P03:user-fixed-lost", id, s.v[j].name + " || " + dt);
            int lo = v->lower_bound(), hi = v->upper_bound();
            if (lo < s.v[j].lb || hi > s.v[j].ub) R.fail("P03:bounds-widened", id, s.v[j].name + " || " + dt);
            free.push_back(v);
            if ((int)j == s.wide) { wide_free = (int)free.size() - 1; wlo = lo; whi = hi; box.push_back({0, 0}); continue; }
            box.push_back({lo, hi});
            sz *= (double)hi - lo + 1;
        }
        R.ev("fixed_by_presolve", nfix);
        R.ev("dependent_variables", ndep);
        R.ev("selections", m.selections().size());
        if (m.constraint_proxies().size() > (s.klayout ? 1 : s.k.size())) R.ev("models_with_added_rows");
        if (sz > 40000) { R.inconclusive++; continue; }
        std::vector<IPCon *> rows, sel;
        int                  disabled = 0;
        for (auto &p : m.constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                if (c.is_enabled()) rows.push_back(&c);
                else disabled++;
            }
        R.ev("rows_disabled", disabled);
        long             nf = 0, np = 0;
        bool             any = false, bad = false;
        double           best = 0;
        std::vector<int> x(b.v.size());
        auto point = [&](const std::vector<int> &y) {
            for (size_t q = 0; q < y.size(); q++) free[q]->set_value_force(y[q]);
            for (auto &se : m.selections()) {
                long sum = 0;
                for (auto *v : se.variable_ptrs) sum += v->value();
                if (sum != 1) return;
            }
            m.update();
            np++;
            bool ok = true;
            for (auto *c : rows) if (c->violation_value() > 1e-5) { ok = false; break; }
            for (size_t q = 0; q < x.size(); q++) x[q] = b.v[q]->value();
            if (m.is_feasible() != ok && !bad) { bad = true; R.fail("P03:feasibility-flag", id, "x=" + xs(x) + " || " + dt); }
            if (!ok) return;
            nf++;
            if (!s.feasible(x) && !bad) { bad = true; R.fail("P03:admits-infeasible", id, "x=" + xs(x) + " || " + dt); return; }
            double ob = s.objective(x);
            if (!near(m.objective().value(), ob) && !bad) { bad = true; R.fail("P03:objective-changed", id, "x=" + xs(x) + " model " + num(m.objective().value()) + " actual " + num(ob) + " || " + dt); }
            if (!any || (s.minimize ? ob < best : ob > best)) { any = true; best = ob; }
        };
        enumerate(box, [&](const std::vector<int> &y) {
            if (wide_free < 0) { point(y); return; }
            std::vector<int> z = y;
            std::set<int>    w{wlo, whi};
            // values of the others as the model sees them (dependent ones may change with the wide one)
            if (ndep == 0) {
                std::vector<int> x0(b.v.size());
                for (size_t q = 0; q < y.size(); q++) if ((int)q != wide_free) free[q]->set_value_force(y[q]);
                for (size_t q = 0; q < x0.size(); q++) x0[q] = b.v[q]->value();
                auto f = s.wide_range(x0);
                if (f.first <= f.second) for (int d = -1; d <= 1; d++) { w.insert(f.first + d); w.insert(f.second + d); }
            } else {
                for (int d = -3; d <= 3; d++) { w.insert(B.any ? B.arg[s.wide] + d : d); w.insert(wlo + d); w.insert(whi + d); w.insert(d); }
            }
            for (int q : w) if (q >= wlo && q <= whi) { z[wide_free] = q; point(z); }
        });
        R.evaluations += 1;
        R.ev("reduced_points_enumerated", np);
        R.ev("reduced_feasible_points", nf);
        if (nfix || ndep || disabled) R.seen(s.hash());
        if (s.wide >= 0) R.ev("wide_models");
        if (online) {
            if (B.any && sfeas && near(sobj, B.best)) R.ev("optimum_already_found");
            else if (wide_free >= 0 && ndep > 0) R.ev("wide_with_dependent");
            else if (B.any && (!any || !near(best, B.best))) R.fail("P03:online-bounds-cut-optimum", id, "optimum " + num(B.best) + " at " + xs(B.arg) + " incumbent " + (sfeas ? num(sobj) : "none") + " left " + (any ? num(best) : "nothing") + " || " + dt);
            else R.ev("better_solution_kept");
        } else if (B.any && !any && !(wide_free >= 0 && ndep > 0)) R.fail("P03:lost-feasibility", id, "optimum " + num(B.best) + " at " + xs(B.arg) + " || " + dt);
        else if (wide_free >= 0 && ndep > 0) R.ev("wide_with_dependent");
        else if (!B.any && any && !empty) R.fail("P03:admits-infeasible-model", id, dt);
        else if (B.any && any && !near(best, B.best)) R.fail("P03:lost-optimum", id, "optimum " + num(B.best) + " at " + xs(B.arg) + " reduced best " + num(best) + " || " + dt);
        if (R.evaluations % 997 == 1) R.sample(id + " " + dt + " -> free " + std::to_string(free.size()) + " dep " + std::to_string(ndep) + " fixed " + std::to_string(nfix));
    }
    R.finish();
    return 0;
}
