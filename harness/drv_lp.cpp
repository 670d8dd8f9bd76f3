// Relaxation monitor: the linear program exported from prepared models against
// the model itself (over all integer points, independently of row and column
// order), its scaling against the unscaled one, and what the linear solver
// reports about it against direct evaluation and an independent vertex search.
#include "vf.h"
using namespace vf;
namespace mc = printemps::model_component;
namespace pd = printemps::solver::pdlp::core;
using LP     = printemps::linear_programming::LinearProgramming;
using Vec    = printemps::utility::sparse::Vector;

struct Dense {  // plain copy of a linear program: min c x + k, A x >= b (rows with eq: ==), l <= x <= u
    int n = 0, m = 0;
    std::vector<double> c, l, u, b;
    std::vector<std::vector<double>> A;
    std::vector<char> eq;
    double k = 0;
};
static Dense dense(const LP &p) {
    Dense d;
    d.n = p.number_of_columns; d.m = p.number_of_rows; d.k = p.objective_offset;
    for (int i = 0; i < d.n; i++) { d.c.push_back(p.primal_objective_coefficients[i]); d.l.push_back(p.primal_lower_bounds[i]); d.u.push_back(p.primal_upper_bounds[i]); }
    for (int j = 0; j < d.m; j++) {
        d.b.push_back(p.dual_objective_coefficients[j]);
        d.eq.push_back(j >= p.equal_constraint_index_range.first && j < p.equal_constraint_index_range.second);
    }
    d.A.assign(d.m, std::vector<double>(d.n, 0));
    auto &M = p.primal_constraint_coefficients;
    for (int i = 0; i < d.n; i++) {
        Vec e(d.n, 0.0), y(d.m, 0.0);
        e[i] = 1;
        if (d.m) { M.dot(&y, e); for (int j = 0; j < d.m; j++) d.A[j][i] = y[j]; }
    }
    return d;
}
static double obj(const Dense &d, const std::vector<double> &x) { double s = d.k; for (int i = 0; i < d.n; i++) s += d.c[i] * x[i]; return s; }
static double res(const Dense &d, int j, const std::vector<double> &x) { double s = -d.b[j]; for (int i = 0; i < d.n; i++) s += d.A[j][i] * x[i]; return s; }
static double viol(const Dense &d, const std::vector<double> &x) {
    double s = 0;
    for (int j = 0; j < d.m; j++) { double r = res(d, j, x); s += d.eq[j] ? std::fabs(r) : std::max(0.0, -r); }
    return s;
}
// optimum of the linear program by trying every vertex; false: no vertex is feasible
static bool vertices(const Dense &d, double *best, std::vector<double> *arg, double tol = 1e-9) {
    int n = d.n, N = d.m + 2 * n;
    std::vector<int> pick(n);
    bool found = false;
    std::function<void(int, int)> rec = [&](int at, int from) {
        if (at == n) {
            std::vector<std::vector<double>> a(n, std::vector<double>(n + 1, 0));
            for (int q = 0; q < n; q++) {
                int k = pick[q];
                if (k < d.m) { for (int i = 0; i < n; i++) a[q][i] = d.A[k][i]; a[q][n] = d.b[k]; }
                else { int i = (k - d.m) / 2; a[q][i] = 1; a[q][n] = (k - d.m) % 2 ? d.u[i] : d.l[i]; }
            }
            for (int q = 0; q < n; q++) {
                int p = q;
                for (int t = q; t < n; t++) if (std::fabs(a[t][q]) > std::fabs(a[p][q])) p = t;
                if (std::fabs(a[p][q]) < 1e-9) return;
                std::swap(a[p], a[q]);
                for (int t = 0; t < n; t++) if (t != q) { double f = a[t][q] / a[q][q]; if (f) for (int z = q; z <= n; z++) a[t][z] -= f * a[q][z]; }
            }
            std::vector<double> x(n);
            for (int q = 0; q < n; q++) { x[q] = a[q][n] / a[q][q]; if (x[q] < d.l[q] - tol || x[q] > d.u[q] + tol) return; }
            for (int j = 0; j < d.m; j++) { double r = res(d, j, x); if (r < -tol * 10 || (d.eq[j] && r > tol * 10)) return; }
            double o = obj(d, x);
            if (!found || o < *best) { *best = o; *arg = x; found = true; }
            return;
        }
        for (int k = from; k < N; k++) { pick[at] = k; rec(at + 1, k + 1); }
    };
    rec(0, 0);
    return found;
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0x19);
        GenCfg g;
        g.p_scale = 0;
        if (r.p(0.5)) { g.nmin = 2; g.nmax = 4; g.kmin = 1; g.kmax = 4; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o = random_option(r, oc, &od);
        if (r.p(0.5)) o.preprocess.is_enabled_presolve = false;
        std::string id = "lp:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        try { m.setup(o, false); } catch (std::exception &e) { R.ev("setup_threw"); continue; }
        R.evaluations++;
        int  fails = 0;
        auto fail = [&](const std::string &k, const std::string &d) { if (fails++ < 3) R.fail(k, id, d + " || " + dt); };
        std::vector<IPVar *> mv;
        for (auto *v : m.variable_reference().variable_ptrs) {
            auto se = v->sense();
            if (!v->is_fixed() && (se == mc::VariableSense::Binary || se == mc::VariableSense::Integer || se == mc::VariableSense::Selection)) mv.push_back(v);
        }
        std::vector<IPCon *> rows;
        for (auto &p : m.constraint_proxies()) for (auto &c : p.flat_indexed_constraints()) if (c.is_enabled()) rows.push_back(&c);
        for (auto &q : m.selections()) if (!q.constraint_ptr->is_enabled()) rows.push_back(q.constraint_ptr);
        LP p;
        try { p = m.export_lp_instance(); } catch (std::exception &e) { fail("P24:export-threw", e.what()); continue; }
        Dense d = dense(p);
        if (d.n != (int)mv.size()) fail("P24:columns", std::to_string(d.n) + " for " + std::to_string(mv.size()) + " changeable variables");
        if (d.m != (int)rows.size()) fail("P24:rows", std::to_string(d.m) + " for " + std::to_string(rows.size()) + " rows");
        if (fails || d.n == 0) continue;
        R.seen(hmix(s.hash(), (uint64_t)d.n * 64 + d.m));
        double sg = s.minimize ? 1 : -1, box = 1;
        bool   wide = false;
        for (auto *v : mv) { box *= (double)v->upper_bound() - v->lower_bound() + 1; wide |= v->upper_bound() > 1e6 || v->lower_bound() < -1e6; }
        // --- the exported program over all points
        bool has_point = false; double ip = 0;
        if (box <= 3000) {
            std::vector<std::pair<double, double>> L, M;
            std::vector<double> x(d.n);
            std::vector<std::pair<long, long>> bl, bm;
            for (int q = 0; q < d.n; q++) { bl.push_back({std::lround(d.l[q]), std::lround(d.u[q])}); bm.push_back({mv[q]->lower_bound(), mv[q]->upper_bound()}); }
            auto s1 = bl, s2 = bm;
            std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
            if (s1 != s2) { fail("P24:bounds", ""); continue; }
            auto walk = [&](std::vector<std::pair<long, long>> &bb, auto f) {
                std::vector<long> z;
                for (auto &q : bb) z.push_back(q.first);
                while (true) {
                    f(z);
                    int q = 0;
                    while (q < d.n && ++z[q] > bb[q].second) z[q] = bb[q].first, q++;
                    if (q == d.n) break;
                }
            };
            walk(bl, [&](std::vector<long> &z) { for (int q = 0; q < d.n; q++) x[q] = z[q]; L.push_back({viol(d, x), obj(d, x)}); });
            std::map<const IPVar *, int> at;
            for (int q = 0; q < d.n; q++) at[mv[q]] = q;
            auto ev = [&](const IPExpr &e, std::vector<long> &z) {
                double t = e.constant_value();
                for (auto &q : e.sensitivities()) { auto it = at.find(q.first); t += q.second * (it == at.end() ? (double)q.first->value() : (double)z[it->second]); }
                return t;
            };
            walk(bm, [&](std::vector<long> &z) {
                double w = 0, ob = s.has_obj ? sg * ev(m.objective().expression(), z) : 0;
                for (auto *c : rows) { double t = ev(c->expression(), z); if (c->sense() != mc::ConstraintSense::Greater) w += std::max(0.0, t); if (c->sense() != mc::ConstraintSense::Less) w += std::max(0.0, -t); }
                M.push_back({w, ob});
                if (w < 1e-6 && (!has_point || ob < ip)) { has_point = true; ip = ob; }
            });
            for (auto *S : {&L, &M}) { for (auto &q : *S) q.first = std::round(q.first * 1e4) / 1e4, q.second = std::round(q.second * 1e4) / 1e4; std::sort(S->begin(), S->end()); }
            R.ev("relaxation_points_compared", L.size());
            for (size_t q = 0; q < L.size(); q++)
                if (!near(L[q].first, M[q].first, 3e-4) || !near(L[q].second, M[q].second, 3e-4)) { fail("P24:relaxation-differs", "violation/objective " + num(L[q].first) + "/" + num(L[q].second) + " vs " + num(M[q].first) + "/" + num(M[q].second)); break; }
        }
        if (fails) continue;
        for (int j = 0; j < d.m; j++) {
            double lo = p.dual_lower_bounds[j], up = p.dual_upper_bounds[j];
            if (up < 1e300 || (d.eq[j] ? lo > -1e300 : lo != 0)) fail("P24:dual-bounds", "row " + std::to_string(j));
        }
        for (int q = 0; q < d.n; q++) if (p.primal_initial_solution[q] < d.l[q] || p.primal_initial_solution[q] > d.u[q]) fail("P24:start-outside", "");
        // the transposed matrix
        for (int j = 0; j < d.m; j++) {
            Vec e(d.m, 0.0), y(d.n, 0.0);
            e[j] = 1;
            p.dual_constraint_coefficients.dot(&y, e);
            for (int q = 0; q < d.n; q++) if (!near(y[q], d.A[j][q], 1e-9)) fail("P24:transposed", "");
        }
        if (fails) continue;
        // --- scaling keeps the program
        if (d.m == 0) continue;
        LP  sc    = p;
        int ruiz  = r.p(0.3) ? 0 : r.in(1, 12);
        bool pock = r.p(0.6);
        sc.scaling(ruiz, pock);
        Dense e = dense(sc);
        auto &M = sc.primal_constraint_coefficients;
        {
            R.ev("scalings_checked");
            for (int q = 0; q < d.n; q++) {
                double f = M.column_scaler[q];
                if (!(f > 0)) fail("P24:scaler", "column");
                if (!near(e.c[q] * f, d.c[q], 1e-7) || !near(e.l[q], d.l[q] * f, 1e-7) || !near(e.u[q], d.u[q] * f, 1e-7)) fail("P24:scaling-column", "column " + std::to_string(q));
                for (int j = 0; j < d.m; j++) if (!near(e.A[j][q] * f * M.row_scaler[j], d.A[j][q], 1e-7)) fail("P24:scaling-matrix", "");
            }
            for (int j = 0; j < d.m; j++) {
                if (!(M.row_scaler[j] > 0)) fail("P24:scaler", "row");
                if (!near(e.b[j] * M.row_scaler[j], d.b[j], 1e-7)) fail("P24:scaling-row", "row " + std::to_string(j));
            }
            for (int j = 0; j < d.m; j++) {
                Vec t(d.m, 0.0), y(d.n, 0.0);
                t[j] = 1;
                sc.dual_constraint_coefficients.dot(&y, t);
                for (int q = 0; q < d.n; q++) if (!near(y[q], e.A[j][q], 1e-9)) fail("P24:transposed", "after scaling");
            }
        }
        double am = 0;
        for (auto &w : d.A) for (double z : w) am = std::max(am, std::fabs(z));
        if (fails || d.n < 2 || d.m < 2 || am == 0) continue;
        // --- the solver's report
        Option po = o;
        auto & q_ = po.pdlp;
        q_.iteration_max = r.p(0.2) ? r.in(0, 20) : r.in(100, 4000);
        q_.time_max = po.general.time_max = 1e9;
        q_.tolerance = r.p(0.5) ? 1e-5 : r.p(0.5) ? 1e-4 : 1e-6;
        if (r.p(0.3)) { q_.restart_check_interval = r.in(1, 20); q_.convergence_check_interval = r.in(1, 20); }
        po.output.verbose = printemps::option::verbose::Off;
        pd::PDLPCore core(&sc, po);
        core.run();
        auto &raw = core.result();
        auto  t   = core.result();
        t.scaling(M.row_scaler, M.column_scaler);
        R.ev("relaxations_solved");
        if (raw.number_of_iterations > q_.iteration_max) fail("P24:iterations", std::to_string(raw.number_of_iterations) + " of " + std::to_string(q_.iteration_max));
        bool over = raw.termination_status == pd::PDLPCoreTerminationStatus::ITERATION_OVER;
        bool opt  = raw.termination_status == pd::PDLPCoreTerminationStatus::OPTIMAL;
        bool inf  = raw.termination_status == pd::PDLPCoreTerminationStatus::INFEASIBLE;
        if (over && raw.number_of_iterations < q_.iteration_max) fail("P24:stopped-early", "");
        if (raw.termination_status == pd::PDLPCoreTerminationStatus::TIME_OVER) fail("P24:time", "");
        if (!opt && !inf) continue;
        double tol = q_.tolerance, cn = 0, bn = 0, pob = raw.primal.objective, dob = raw.dual.objective, ym = 0;
        for (int q = 0; q < d.n; q++) cn += e.c[q] * e.c[q];
        for (int j = 0; j < d.m; j++) { bn += e.b[j] * e.b[j]; ym += std::fabs(raw.dual.solution[j]); }
        cn = std::sqrt(cn); bn = std::sqrt(bn);
        if (!std::isfinite(pob) || !std::isfinite(dob)) fail("P24:not-finite", "");
        if (ym > 1e6) { R.ev("diverged"); continue; }
        if (opt) {
            R.ev("optimal_relaxations");
            if (std::fabs(pob - dob) > 1.01 * tol * (1 + std::fabs(pob) + std::fabs(dob)) + 1e-7) fail("P24:claimed-optimal-gap", num(pob) + " " + num(dob));
            if (raw.primal.relative_violation_norm > 1.01 * tol || raw.dual.relative_violation_norm > 1.01 * tol) fail("P24:claimed-optimal-infeasible", "");
        }
        if (wide) continue;
        double span = 0;
        for (int q = 0; q < d.n; q++) span += std::max(std::fabs(d.l[q]), std::fabs(d.u[q]));
        double slack = 1e-6 + tol * 3 * (1 + std::fabs(dob)) + 2 * tol * (1 + cn) * span;
        if (box <= 3000) {
            if (inf && has_point) fail("P24:claimed-infeasible", "a feasible point has objective " + num(ip));
            if (has_point && dob > ip + slack) fail("P24:bound-above-optimum", num(dob) + " > " + num(ip));
            if (inf && !has_point) R.ev("infeasible_relaxations");
        }
        if (d.n <= 4 && d.m + 2 * d.n <= 14) {
            double best = 0; std::vector<double> arg;
            bool   ok = vertices(d, &best, &arg);
            R.ev("relaxations_by_vertices");
            if (inf && ok) fail("P24:claimed-infeasible", "a vertex has objective " + num(best));
            if (opt && ok) {
                R.ev("relaxation_optima_compared");
                for (double w : {dob, pob}) if (std::fabs(w - best) > 0.02 * (1 + std::fabs(best)) + 200 * tol * (1 + bn) * (1 + ym)) fail("P24:wrong-optimum", num(w) + " instead of " + num(best));
            }
        }
        if (R.evaluations % 997 == 1) R.sample(id + " " + dt);
    }
    R.finish();
    return 0;
}
