// The standalone solver: command line, auxiliary files and the files it writes,
// judged against the reference model the MPS file was written from.
#define PRINTEMPS_VERIF_HOOK 1
#define _PRINTEMPS_MPS_SOLVER
#include "vf.h"
#include "vfjson.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
static bool        exists(const std::string &f) { struct stat st; return stat(f.c_str(), &st) == 0; }
static std::string g17(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }

static std::string mps_of(const Spec &s, const std::vector<std::string> &vn, const std::vector<std::string> &kn, bool continuous) {
    std::ostringstream o;
    o << "NAME prob\nROWS\n N  cost\n";
    for (size_t k = 0; k < s.k.size(); k++) o << " " << s.k[k].sense << "  " << kn[k] << "\n";
    o << "COLUMNS\n";
    if (!continuous) o << "    M1  'MARKER'  'INTORG'\n";
    for (size_t i = 0; i < s.v.size(); i++) {
        double c = 0;
        if (s.has_obj) for (auto &e : s.obj) if (e.first == (int)i) c += e.second;
        o << "    " << vn[i] << "  cost  " << g17(c) << "\n";
        for (size_t k = 0; k < s.k.size(); k++) {
            double q = 0;
            bool   any = false;
            for (auto &e : s.k[k].t) if (e.first == (int)i) { q += e.second; any = true; }
            if (any) o << "    " << vn[i] << "  " << kn[k] << "  " << g17(q) << "\n";
        }
    }
    if (!continuous) o << "    M2  'MARKER'  'INTEND'\n";
    o << "RHS\n";
    if (s.has_obj && s.oc != 0) o << "    RHS  cost  " << g17(-s.oc) << "\n";
    for (size_t k = 0; k < s.k.size(); k++) o << "    RHS  " << kn[k] << "  " << g17(-s.k[k].c) << "\n";
    o << "BOUNDS\n";
    for (size_t i = 0; i < s.v.size(); i++) {
        if (s.v[i].fixed) { o << " FX BND  " << vn[i] << "  " << s.v[i].init << "\n"; continue; }
        o << " LO BND  " << vn[i] << "  " << s.v[i].lb << "\n UP BND  " << vn[i] << "  " << s.v[i].ub << "\n";
    }
    o << "ENDATA\n";
    return o.str();
}
// does the prepared problem still admit the given start? (preprocessing may
// remove it in favour of one at least as good)
static std::map<std::string, int> g_start;
static int                        g_start_state;  // 0 not seen, 1 admitted, 2 removed
static void on_inc(const void *mp, const void *, const void *) {
    if (!mp || g_start_state) return;
    g_start_state = 1;
    auto *m = (const IPModel *)mp;
    for (auto &px : m->variable_proxies())
        for (auto &v : px.flat_indexed_variables()) {
            auto it = g_start.find(v.name());
            if (it == g_start.end()) continue;
            if ((v.is_fixed() && v.value() != it->second) || it->second < v.lower_bound() || it->second > v.upper_bound()) g_start_state = 2;
        }
}
static void put(const std::string &f, const std::string &t) { std::ofstream o(f); o << t; }
static std::string run_cli(std::vector<std::string> args, bool *threw) {
    args.insert(args.begin(), "mps_solver");
    std::vector<char *> av;
    for (auto &s : args) av.push_back(const_cast<char *>(s.c_str()));
    int n = av.size();
    av.push_back(nullptr);
    *threw = false;
    // the solver prints its warnings: keep them out of the report
    std::ostringstream sink;
    auto *ob = std::cout.rdbuf(sink.rdbuf());
    auto *eb = std::cerr.rdbuf(sink.rdbuf());
    std::string w;
    try {
        printemps::standalone::MPSSolver m(n, av.data());
        m.run();
    } catch (std::exception &e) { *threw = true; w = e.what(); }
    std::cout.rdbuf(ob);
    std::cerr.rdbuf(eb);
    return w;
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    printemps_verif::g_incumbent = on_inc;
    std::string dir = a.scratch.empty() ? "/tmp/vf_cli" : a.scratch;
    mkdir(dir.c_str(), 0755);
    if (chdir(dir.c_str())) return 3;
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng r(case_seed(a, i));
        std::string id = "cli:" + std::to_string(a.seed) + ":" + std::to_string(i);
        for (auto f : {"incumbent.json", "incumbent.sol", "status.json", "feasible.json", "flip.txt", "prob.json"}) unlink(f);
        GenCfg g;
        g.expressions = false; g.layouts = false; g.allow_noobj = false;
        if (r.p(0.4)) { g.nmax = 5; g.kmax = 3; }
        Spec s = generate(r, g);
        s.minimize = true;
        int n = s.v.size();
        std::vector<std::string> vn, kn;
        static const char *dec[] = {"", "_", ".a", "[1]", "#", "(1,2)"};
        for (int q = 0; q < n; q++) vn.push_back("x" + std::to_string(q) + (r.p(0.3) ? dec[r.in(0, 5)] : ""));
        for (size_t q = 0; q < s.k.size(); q++) kn.push_back("c" + std::to_string(q) + (r.p(0.3) ? dec[r.in(0, 5)] : ""));
        bool continuous = r.p(0.05);
        put("prob.mps", mps_of(s, vn, kn, continuous));
        Brute B0 = brute(s);
        std::vector<std::string> args;
        if (continuous) args.push_back("--accept-continuous");
        OptCfg oc; oc.outer_max = 4; oc.inner_max = 40;
        std::string od;
        Option o = random_option(r, oc, &od);
        printemps::utility::json::write_json_object(o.to_json(), "opt.json");
        args.push_back("-p"); args.push_back("opt.json");
        Spec z = s;  // the problem the command line describes
        std::string cmd;
        // -f / -m
        std::vector<int> base = B0.any && r.p(0.8) ? B0.arg : [&] { std::vector<int> x; for (auto &v : s.v) x.push_back(v.fixed ? v.init : r.in(v.lb, v.ub)); return x; }();
        int  fm = r.in(0, 3);
        long fixedn = 0;
        std::vector<bool> cli(n, false);
        if (fm == 1) {
            std::string t;
            for (int q = 0; q < n; q++) if (r.p(0.3)) {
                t += vn[q] + (r.p(0.5) ? " " : "   ") + std::to_string(base[q]) + (r.p(0.1) ? ".0" : "") + "\n";
                z.v[q].fixed = true; z.v[q].init = base[q]; cli[q] = true; fixedn++;
            }
            if (r.p(0.2)) t += "unknown 3\n";
            if (r.p(0.2)) t += "\n";
            put("fix.txt", t);
            args.push_back("-f"); args.push_back("fix.txt");
        }
        if (fm == 2) {
            std::string t;
            for (int q = 0; q < n; q++) {
                bool zero_ok = s.v[q].fixed ? s.v[q].init == 0 : s.v[q].lb <= 0 && s.v[q].ub >= 0;
                if (!zero_ok || r.p(0.6)) t += vn[q] + "\n";
                else { z.v[q].fixed = true; z.v[q].init = 0; cli[q] = true; fixedn++; }
            }
            put("mut.txt", t);
            args.push_back("-m"); args.push_back("mut.txt");
        }
        Brute B = brute(z);
        // -i
        std::vector<int> start;
        std::map<std::string, int> start_of;
        bool has_start = r.p(0.4);
        if (has_start) {
            start = B.any && r.p(0.7) ? B.arg : [&] { std::vector<int> x; for (auto &v : z.v) x.push_back(v.fixed ? v.init : r.in(v.lb, v.ub)); return x; }();
            if (B.any && r.p(0.6)) {  // some feasible point which is not the optimum
                long want = r.in(0, (int)std::min<long>(B.nfeas - 1, 1000)), at = 0;
                enumerate(box_of(z), [&](const std::vector<int> &x) { if (z.feasible(x) && at++ == want) start = x; });
            }
            std::string t = r.p(0.5) ? "=obj= 12.5\n" : "";
            bool sparse = r.p(0.5);
            for (int q = 0; q < n; q++) if (!sparse || start[q] != 0) t += vn[q] + " " + std::to_string(start[q]) + (r.p(0.1) ? ".0000" : "") + "\n";
            put("start.sol", t);
            for (int q = 0; q < n; q++) start_of[vn[q]] = start[q];
            args.push_back("-i"); args.push_back("start.sol");
        }
        if (r.p(0.15)) {
            std::string t;
            for (size_t k = 0; k < s.k.size(); k++) if (s.k[k].sel) t += kn[k] + "\n";
            put("sel.txt", t);
            args.push_back("-s"); args.push_back("sel.txt");
        }
        if (r.p(0.15)) {
            std::string t;
            for (int q = 0; q < 4; q++) t += vn[r.in(0, n - 1)] + " " + (r.p(0.9) ? vn[r.in(0, n - 1)] : "unknown") + " 3 3\n";
            // pairs of one variable with itself are not pairs
            std::istringstream is(t); std::string l, u;
            while (std::getline(is, l)) { std::istringstream ls(l); std::string p, q; ls >> p >> q; int ip = -1, iq = -1; for (int w = 0; w < n; w++) { if (vn[w] == p) ip = w; if (vn[w] == q) iq = w; }
                if (p != q && (ip < 0 || (s.v[ip].lb == 0 && s.v[ip].ub == 1)) && (iq < 0 || (s.v[iq].lb == 0 && s.v[iq].ub == 1))) u += l + "\n"; }
            put("pairs.txt", u);
            args.push_back("-x"); args.push_back("pairs.txt");
        }
        if (r.p(0.2)) args.push_back("--include-mps-loading-time");
        bool exp = r.p(0.15);
        if (exp) args.push_back("--export-json-instance");
        bool extract = r.p(0.1);
        int  common = r.in(1, 3);
        if (extract) { args.push_back("--extract-flippable-variable-pairs"); args.push_back("-c"); args.push_back(std::to_string(common)); }
        args.insert(args.begin() + (r.p(0.3) ? 0 : (int)args.size()), "prob.mps");
        for (auto &w : args) cmd += w + " ";
        std::string dt = cmd + "| " + z.dump() + " | " + od + (has_start ? " | start " + xs(start) : "");
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        // wrong use is rejected
        if (r.p(0.1)) {
            auto bad = args;
            std::string why;
            switch (r.in(0, 4)) {
                case 0: bad.push_back(r.pick<std::string>({"-p", "-i", "-m", "-f", "-s", "-x", "-c"})); why = "flag without its value"; break;
                case 1: for (auto &w : bad) if (w == "prob.mps") w = "nosuch.mps"; why = "missing problem file"; break;
                case 2: bad.push_back(r.pick<std::string>({"-p", "-i", "-s", "-x"})); bad.push_back("nosuch.txt"); why = "missing auxiliary file"; break;
                case 3: put("mut.txt", ""); put("fix.txt", ""); bad.insert(bad.begin(), {"-m", "mut.txt", "-f", "fix.txt"}); why = "-m and -f together"; break;
                default: put("cont.mps", mps_of(s, vn, kn, true)); bad.clear(); bad = {"-p", "opt.json", "cont.mps"}; why = "continuous variables"; break;
            }
            bool threw;
            if (!(why == "continuous variables" && n == 0)) {
                run_cli(bad, &threw);
                R.ev("misuse_tried");
                if (!threw) R.fail("P19:misuse", id, why + " was accepted || " + dt);
                for (auto f : {"incumbent.json", "incumbent.sol", "status.json"}) if (exists(f)) R.fail("P19:misuse", id, std::string(f) + " written after " + why + " || " + dt);
            }
            if (fm == 1 || fm == 2) continue;
        }
        bool threw;
        g_start = start_of; g_start_state = 0;
        std::string w = run_cli(args, &threw);
        R.evaluations++;
        if (threw) {
            R.ev("threw");
            if (B.any) R.fail("P19:throw", id, w + " || " + dt);
            continue;
        }
        if (extract) {
            R.ev("pair_files");
            if (!exists("flip.txt")) { R.fail("P19:pairs", id, "no file || " + dt); continue; }
            std::istringstream is(slurp("flip.txt"));
            std::string l;
            double last = 1e9;
            while (std::getline(is, l)) {
                std::istringstream ls(l);
                std::string p, q; int a1, a2, c; double ov;
                if (!(ls >> p >> q >> a1 >> a2 >> c >> ov)) { R.fail("P19:pairs", id, "line " + l + " || " + dt); break; }
                R.ev("pairs_checked");
                int ip = -1, iq = -1;
                for (int t = 0; t < n; t++) { if (vn[t] == p) ip = t; if (vn[t] == q) iq = t; }
                if (ip < 0 || iq < 0 || ip == iq || c < common || c > a1 || c > a2 || ov > last + 1e-5 || std::fabs(ov - (double)c / (a1 + a2 - c)) > 1e-4 || z.v[ip].fixed || z.v[iq].fixed) { R.fail("P19:pairs", id, "line " + l + " || " + dt); break; }
                last = ov;
            }
            if (exists("incumbent.json")) R.fail("P19:pairs", id, "a solution was written || " + dt);
            continue;
        }
        try {
            auto j  = vfj::parse(slurp("incumbent.json"));
            auto st = vfj::parse(slurp("status.json"));
            std::vector<int> x(n);
            auto &jv = j.at("variables");
            for (int q = 0; q < n; q++) x[q] = (int)jv.at(vn[q]).i;
            R.seen(hmix(z.hash(), hstr(xs(x) + cmd)));
            if (R.evaluations % 997 == 1) R.sample(id + " " + dt + " -> " + xs(x));
            bool feas = j.at("is_found_feasible_solution").b;
            R.ev(feas ? "claimed_feasible" : "claimed_infeasible");
            auto bad = [&](const char *k, const std::string &e) { R.fail(k, id, e + " x=" + xs(x) + " || " + dt); };
            if ((int)jv.o.size() != n) bad("P19:incumbent", "number of variables");
            if (j.at("name").s != "prob") bad("P19:incumbent", "name " + j.at("name").s);
            if (j.at("number_of_variables").i != n || j.at("number_of_constraints").i < (long)s.k.size()) bad("P19:incumbent", "sizes");
            for (int q = 0; q < n; q++) if (cli[q]) { R.ev("fixed_by_command_line"); if (x[q] != z.v[q].init) bad("P19:fixed", vn[q] + " was fixed"); }
            if (feas && !z.feasible(x)) bad("P19:feasible", "not feasible");
            if (!feas && z.feasible(x)) bad("P19:feasible", "feasible point reported infeasible");
            double obj = z.objective(x);
            if (!near(j.at("objective").num(), obj)) bad("P19:objective", "reported " + num(j.at("objective").num()) + " actual " + num(obj));
            if (feas && B.any && obj < B.best - 1e-6 * (1 + std::fabs(B.best))) bad("P19:feasible", "better than the optimum");
            if (feas && !B.any) bad("P19:feasible", "problem has no feasible point");
            for (size_t k = 0; k < s.k.size(); k++) {
                if (!near(j.at("constraints").at(kn[k]).num(), z.con_value(k, x))) bad("P19:rows", kn[k]);
                if (!near(j.at("violations").at(kn[k]).num(), z.violation(k, x))) bad("P19:rows", "violation of " + kn[k]);
                R.ev("rows_checked");
            }
            // solution file
            std::istringstream is(slurp("incumbent.sol"));
            std::string l;
            std::getline(is, l);
            if (feas ? l.compare(0, 6, "=obj= ") != 0 || !near(atof(l.c_str() + 6), obj, 1e-8) : l != "=infeas=") bad("P19:solution-file", "head " + l);
            std::map<std::string, int> got;
            while (std::getline(is, l)) { std::istringstream ls(l); std::string nm; int v; if (!(ls >> nm >> v) || got.count(nm)) bad("P19:solution-file", "line " + l); got[nm] = v; }
            if ((int)got.size() != n) bad("P19:solution-file", "number of lines");
            for (int q = 0; q < n; q++) if (!got.count(vn[q]) || got[vn[q]] != x[q]) { bad("P19:solution-file", vn[q]); break; }
            // status
            if (st.at("name").s != "prob" || st.at("is_found_feasible_solution").b != feas || st.at("number_of_variables").i != n || st.at("number_of_constraints").i < (long)s.k.size()) bad("P19:status", "head");
            auto &so = st.at("option");
            if (so.at("general").at("seed").i != o.general.seed || so.at("general").at("iteration_max").i != o.general.iteration_max || so.at("tabu_search").at("iteration_max").i != o.tabu_search.iteration_max) bad("P19:status", "options");
            R.ev("status_files_checked");
            // archive
            if (exists("feasible.json") != o.output.is_enabled_store_feasible_solutions) bad("P19:archive", "file");
            else if (o.output.is_enabled_store_feasible_solutions) {
                auto ar = vfj::parse(slurp("feasible.json"));
                bool has = false;
                for (auto &e : ar.at("solutions").a) {
                    std::vector<int> y(n, 0);
                    for (auto &v : e.at("variables").o) { int at = -1; for (int q = 0; q < n; q++) if (vn[q] == v.first) at = q; if (at < 0) bad("P19:archive", "unknown " + v.first); else y[at] = (int)v.second.i; }
                    R.ev("archived_checked");
                    if (!z.feasible(y)) bad("P19:archive", "infeasible " + xs(y));
                    if (!near(e.at("objective").num(), z.objective(y))) bad("P19:archive", "objective of " + xs(y));
                    has |= y == x;
                }
                if (feas && !has && o.output.feasible_solutions_capacity >= 1000) bad("P19:archive", "the returned solution is missing");
            }
            // instance
            if (exists("prob.json") != exp) bad("P19:instance", "file");
            else if (exp) {
                auto in = vfj::parse(slurp("prob.json"));
                std::map<std::string, double> val;
                for (auto &v : in.at("variables").a) val[v.at("name").s] = v.at("value").num();
                for (int q = 0; q < n; q++) if (!val.count(vn[q]) || val[vn[q]] != x[q]) { bad("P19:instance", "value of " + vn[q]); break; }
                if (in.at("constraints").a.size() < s.k.size()) bad("P19:instance", "number of rows");
                R.ev("instances_exported");
            }
            if (has_start && z.feasible(start) && g_start_state == 2) R.ev("feasible_starts_presolved_away");
            if (has_start && z.feasible(start) && g_start_state == 1) {
                R.ev("feasible_starts");
                if (!feas) bad("P19:start", "no feasible solution returned");
                else if (obj > z.objective(start) + 1e-6 * (1 + std::fabs(z.objective(start)))) bad("P19:start", "worse than the start");
            }
        } catch (std::exception &e) {
            R.fail("P19:files", id, std::string(e.what()) + " || " + dt);
        }
    }
    R.finish();
    return 0;
}
