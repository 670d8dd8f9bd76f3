// Reproducibility monitor: the same model, options and seed are solved several
// times - at other addresses, with other numbers of threads, other orders of the
// team's members, other verbosity - and the visited states and results compared.
// mode race: real threads, for ThreadSanitizer.
#define PRINTEMPS_VERIF_HOOK 1
#ifndef VF_RACE
#include "arena.h"
#endif
#include "stable_hash.h"
#include "vf.h"
#include <fcntl.h>
#include <unistd.h>
using namespace vf;
extern "C" { extern int vf_omp_threads, vf_omp_real; extern uint64_t vf_omp_seed; extern long vf_omp_team_regions, vf_omp_max_team; }

static uint64_t g_hash; static long g_states; static Built *g_b;
static std::vector<uint64_t> g_seq;
static void note() {
    uint64_t h = 1469598103934665603ull;
    for (auto *v : g_b->v) h = (h ^ (uint64_t)(uint32_t)v->value()) * 1099511628211ull;
    g_hash = hmix(g_hash, h);
    g_states++;
    if (g_seq.size() < 20000) g_seq.push_back(h);
}
static bool g_text; static std::vector<std::string> g_moves;
static void on_move(const void *, const void *mv) {
    note();
    if (!g_text) return;
    auto *q = (const printemps::neighborhood::Move<int, double> *)mv;
    std::string t = q->sense_label();
    for (auto &al : q->alterations) t += " " + al.first->name() + "->" + std::to_string(al.second);
    g_moves.push_back(t);
}

struct Out {
    bool threw = false; std::string what;
    std::vector<int> x; double obj = 0; bool feas = false; uint64_t h = 0; long states = 0;
    std::vector<uint64_t> seq; std::vector<std::string> moves; std::vector<double> arch; double dual = 0;
};
static void solve_once(const Spec &s, const Option &o, Rng &r, bool junk, Out *t) {
    std::vector<void *> y;
    if (junk) { int n = r.in(1, 30); for (int i = 0; i < n; i++) y.push_back(::operator new(r.in(1, 4000))); }
    auto *m = new IPModel;
    Built b;
    build(s, m, &b);
    g_b = &b; g_hash = 7; g_states = 0; g_seq.clear(); g_moves.clear();
    printemps_verif::g_model_move = on_move;
    try {
        printemps::solver::IPSolver sv(m, o);
        auto res = sv.solve();
        t->x = values_of(s, res.solution); t->obj = res.solution.objective(); t->feas = res.solution.is_feasible();
        for (auto &q : res.feasible_solution_archive.solutions()) t->arch.push_back(q.objective);
    } catch (std::exception &e) { t->threw = true; t->what = e.what(); }
    printemps_verif::g_model_move = nullptr;
    t->h = g_hash; t->states = g_states; t->moves = g_moves;
    g_moves.clear();
    delete m;
    for (void *p : y) ::operator delete(p);
}
static bool g_overflow;
static Out run(const Spec &s, const Option &o, Rng &r, bool junk) {
    std::vector<void *> z;
    if (junk) { int n = r.in(1, 300); for (int i = 0; i < n; i++) z.push_back(malloc(r.in(1, 4000))); for (size_t i = 0; i < z.size(); i += 2) { free(z[i]); z[i] = nullptr; } }
#ifdef VF_RACE
    Out t;
    solve_once(s, o, r, junk, &t);
#else
    vfarena::start();
    Out *in = new Out;
    solve_once(s, o, r, junk, in);
    vfarena::active = false;
    g_overflow |= vfarena::overflow;
    Out t(*in);
    delete in;
    vfarena::stop();
#endif
    t.seq = g_seq;
    for (void *p : z) free(p);
    return t;
}
static std::string diff(const Out &a, const Out &b) {
    if (a.threw != b.threw) return "one run threw: " + a.what + b.what;
    if (a.threw) return "";
    if (a.feas != b.feas || a.x != b.x) return "solution " + xs(a.x) + " vs " + xs(b.x);
    if (a.obj != b.obj && !near(a.obj, b.obj, 1e-9)) return "objective " + num(a.obj) + " vs " + num(b.obj);
    if (a.states != b.states || a.h != b.h) {
        size_t i = 0;
        while (i < a.seq.size() && i < b.seq.size() && a.seq[i] == b.seq[i]) i++;
        for (size_t j = i > 3 ? i - 3 : 0; j < i + 2 && j < a.moves.size() && j < b.moves.size(); j++) printf("move %zu: %s | %s\n", j, a.moves[j].c_str(), b.moves[j].c_str());
        return "visited states differ from move " + std::to_string(i) + " of " + std::to_string(a.states) + "/" + std::to_string(b.states);
    }
    if (a.arch.size() != b.arch.size()) return "archive size";
    return "";
}

int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    g_text = a.verbose;
    bool race = a.mode == "race";
    vf_omp_real = race;
    g_seq.reserve(20001); g_moves.reserve(200000);
    int devnull = open("/dev/null", O_WRONLY);
    if (!race) {  // let the library set up its static data outside the arena
        for (int k = 0; k < 40; k++) {
            Rng r(k); GenCfg g; Spec s = generate(r, g); OptCfg oc; Option o = random_option(r, oc, nullptr);
            o.output.verbose = printemps::option::verbose::Full; oc.duals = true;
            fflush(stdout); int keep = dup(1); dup2(devnull, 1);
            { IPModel m; Built b; build(s, &m, &b); try { printemps::solver::IPSolver sv(&m, o); sv.solve(); } catch (std::exception &) {} }
            std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep);
        }
    }
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0xde7);
        GenCfg g;
        g.big = r.p(0.8);
        if (r.p(0.7)) { g.nmin = 6; g.nmax = 24; g.kmin = 2; g.kmax = 16; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        oc.parallel = true;
        if (race) { oc.outer_max = 3; oc.inner_max = 25; }
        std::string od;
        Option      o  = random_option(r, oc, &od);
        std::string id = "det:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        Option p = o;
        p.parallel.is_enabled_move_update_parallelization = true;
        p.parallel.is_enabled_move_evaluation_parallelization = true;
        p.parallel.is_enabled_automatic_move_update_parallelization = r.p(0.3);
        p.parallel.is_enabled_automatic_move_evaluation_parallelization = r.p(0.3);
        p.parallel.number_of_threads_move_update = r.p(0.3) ? -1 : r.in(2, 8);
        p.parallel.number_of_threads_move_evaluation = r.p(0.3) ? -1 : r.in(2, 8);
        R.evaluations++;
        if (race) {
            vf_omp_threads = r.in(2, 4);
            vf_omp_seed = r.next() | 1;
            p.parallel.number_of_threads_move_update = p.parallel.number_of_threads_move_evaluation = vf_omp_threads;
            p.parallel.is_enabled_automatic_move_update_parallelization = p.parallel.is_enabled_automatic_move_evaluation_parallelization = false;
            Out t = run(s, p, r, false);
            R.ev("moves_made", t.states); R.seen(t.h);
            continue;
        }
        g_overflow = false;
        // reference: one thread
        o.parallel.is_enabled_move_update_parallelization = o.parallel.is_enabled_move_evaluation_parallelization = false;
        vf_omp_threads = 1;
        Out ref = run(s, o, r, false);
        if (ref.threw) R.ev("solve_threw");
        R.ev("moves_made", ref.states);
        if (ref.states) R.seen(hmix(s.hash(), ref.h));
        auto judge = [&](const char *what, const Out &t) {
            R.ev(std::string("compared:") + what);
            std::string d = diff(ref, t);
            if (g_overflow) { R.inconclusive++; return false; }
            if (!d.empty()) { R.fail(std::string("P14:") + what, id, d + " || " + dt); return false; }
            return true;
        };
        if (!judge("repeat", run(s, o, r, true))) continue;
        vf_omp_threads = r.in(2, 8); vf_omp_seed = r.next() | 1;
        int nt = vf_omp_threads;
        if (!judge("threads", run(s, p, r, false))) continue;
        vf_omp_threads = 1;
        if (r.p(0.2)) {
            Option q = o;
            q.output.verbose = (printemps::option::verbose::Verbose)r.in(1, 4);
            fflush(stdout);
            int keep = dup(1); dup2(devnull, 1);
            Out t = run(s, q, r, false);
            std::cout.flush(); fflush(stdout);
            dup2(keep, 1); close(keep);
            judge("verbosity", t);
        }
        (void)nt;
    }
    R.ev("team_regions", vf_omp_team_regions);
    R.finish();
    return 0;
}
