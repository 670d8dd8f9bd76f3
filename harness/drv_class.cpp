// Structure monitor: the classes and counts the library reports for a model
// (before and after preprocessing) against the rows and variables themselves.
#include "vf.h"
using namespace vf;
namespace mc = printemps::model_component;
using VS = mc::VariableSense;
using CS = mc::ConstraintSense;
using TR = mc::ConstraintTypeReference<int, double>;
struct Term { double c; bool bin, dep, fixed, sel = false; };
struct Row {
    std::vector<Term> t;
    double k = 0;
    char   s = 'E';
    int n() const { return t.size(); }
    template <class F> bool all(F f) const { for (auto &x : t) if (!f(x)) return false; return true; }
    template <class F> int count(F f) const { int q = 0; for (auto &x : t) q += f(x); return q; }
};
static bool B(const Term &x) { return x.bin; }
static bool I(const Term &x) { return !x.bin; }
static bool one(const Term &x) { return x.c == 1; }
static bool pm1(const Term &x) { return std::fabs(x.c) == 1; }
struct Class { const char *label; std::vector<mc::Constraint<int, double> *> TR::*list; std::function<bool(const Row &)> form; };
static bool eq2(const Row &r, bool bin, double a, double b, int zero) {  // a x + b y + k = 0 up to the sign
    if (r.n() != 2 || r.s != 'E' || !(bin ? r.all(B) : r.all(I))) return false;
    if (zero == 1 && r.k != 0) return false;
    if (zero == 0 && r.k == 0) return false;
    double p = r.t[0].c, q = r.t[1].c;
    return (p == a && q == b) || (p == b && q == a) || (p == -a && q == -b) || (p == -b && q == -a);
}
static bool knap(const Row &r) { return (r.s == 'L' && r.all([](const Term &x) { return x.c >= 0; })) || (r.s == 'G' && r.all([](const Term &x) { return x.c <= 0; })); }
static const std::vector<Class> &classes() {
    static std::vector<Class> v = {
        {"Singleton", &TR::singleton_ptrs, [](const Row &r) { return r.n() == 1; }},
        {"Exclusive OR", &TR::exclusive_or_ptrs, [](const Row &r) { return eq2(r, true, 1, 1, 2) && r.k == -r.t[0].c; }},
        {"Exclusive NOR", &TR::exclusive_nor_ptrs, [](const Row &r) { return eq2(r, true, 1, -1, 1); }},
        {"Inverted Integers", &TR::inverted_integers_ptrs, [](const Row &r) { return eq2(r, false, 1, 1, 1); }},
        {"Balanced Integers", &TR::balanced_integers_ptrs, [](const Row &r) { return eq2(r, false, 1, -1, 1); }},
        {"Constant Sum Integers", &TR::constant_sum_integers_ptrs, [](const Row &r) { return eq2(r, false, 1, 1, 0); }},
        {"Constant Difference Integers", &TR::constant_difference_integers_ptrs, [](const Row &r) { return eq2(r, false, 1, -1, 0); }},
        {"Constant Ratio Integers", &TR::constant_ratio_integers_ptrs, [](const Row &r) { return r.n() == 2 && r.s == 'E' && r.k == 0 && r.all(I) && r.count(pm1) == 1; }},
        {"Aggregation", &TR::aggregation_ptrs, [](const Row &r) { return r.n() == 2 && r.s == 'E' && r.all([](const Term &x) { return x.c != 0; }); }},
        {"Precedence", &TR::precedence_ptrs, [](const Row &r) { return r.n() == 2 && r.s != 'E' && r.t[0].bin == r.t[1].bin && r.t[0].c == -r.t[1].c && r.t[0].c != 0; }},
        {"Variable Bound", &TR::variable_bound_ptrs, [](const Row &r) { return r.n() == 2 && r.s != 'E'; }},
        {"Trinomial Exclusive NOR", &TR::trinomial_exclusive_nor_ptrs, [](const Row &r) { int p = r.count(one), m = r.count([](const Term &x) { return x.c == -1; }), P = r.count([](const Term &x) { return x.c == 2; }), M = r.count([](const Term &x) { return x.c == -2; }); return r.n() == 3 && r.s == 'E' && r.k == 0 && r.all(B) && ((p == 2 && M == 1) || (m == 2 && P == 1)); }},
        {"Set Partitioning", &TR::set_partitioning_ptrs, [](const Row &r) { return r.s == 'E' && r.k == -1 && r.all(B) && r.all(one); }},
        {"Set Packing", &TR::set_packing_ptrs, [](const Row &r) { return r.s == 'L' && r.k == -1 && r.all(B) && r.all(one); }},
        {"Set Covering", &TR::set_covering_ptrs, [](const Row &r) { return r.s == 'G' && r.k == -1 && r.all(B) && r.all(one); }},
        {"Cardinality", &TR::cardinality_ptrs, [](const Row &r) { return r.s == 'E' && r.k <= -2 && r.all(B) && r.all(one); }},
        {"Invariant Knapsack", &TR::invariant_knapsack_ptrs, [](const Row &r) { return r.s == 'L' && r.k <= -2 && r.all(B) && r.all(one); }},
        {"Multiple Covering", &TR::multiple_covering_ptrs, [](const Row &r) { return r.s == 'G' && r.k <= -2 && r.all(B) && r.all(one); }},
        {"Binary Flow", &TR::binary_flow_ptrs, [](const Row &r) { return r.s == 'E' && r.all(B) && r.all(pm1); }},
        {"Integer Flow", &TR::integer_flow_ptrs, [](const Row &r) { int p = r.count(one); return r.s == 'E' && r.all(I) && r.all(pm1) && p > 1 && r.n() - p > 1; }},
        {"Soft Selection", &TR::soft_selection_ptrs, [](const Row &r) { int p = r.count(one); return r.s == 'E' && r.k == 0 && r.all(B) && r.all(pm1) && (p == 1 || r.n() - p == 1); }},
        {"Min-Max", &TR::min_max_ptrs, [](const Row &r) { return r.s != 'E' && r.count([&](const Term &x) { return I(x) && !x.fixed && x.c == (r.s == 'L' ? -1 : 1); }) == 1; }},
        {"Max-Min", &TR::max_min_ptrs, [](const Row &r) { return r.s != 'E' && r.count([&](const Term &x) { return I(x) && !x.fixed && x.c == (r.s == 'L' ? 1 : -1); }) == 1; }},
        {"Intermediate", &TR::intermediate_ptrs, [](const Row &r) { return r.s == 'E' && (r.count([](const Term &x) { return I(x) && x.c == 1; }) == 1 || r.count([](const Term &x) { return I(x) && x.c == -1; }) == 1 || r.count([](const Term &x) { return I(x) && !x.fixed && x.c == 1; }) == 1 || r.count([](const Term &x) { return I(x) && !x.fixed && x.c == -1; }) == 1); }},
        {"Equation Knapsack", &TR::equation_knapsack_ptrs, [](const Row &r) { return r.s == 'E' && r.all(B) && (r.all([](const Term &x) { return x.c >= 0; }) || r.all([](const Term &x) { return x.c <= 0; })); }},
        {"Bin Packing", &TR::bin_packing_ptrs, [](const Row &r) { return knap(r) && r.all(B) && r.count([&](const Term &x) { return x.c == -r.k; }) > 0; }},
        {"Knapsack", &TR::knapsack_ptrs, [](const Row &r) { return knap(r) && r.all(B); }},
        {"Integer Knapsack", &TR::integer_knapsack_ptrs, [](const Row &r) { return knap(r) && (r.count(I) > 0 || r.count([](const Term &x) { return x.dep; }) > 0); }},
        {"GF(2)", &TR::gf2_ptrs, [](const Row &r) { return r.s == 'E' && std::fabs(r.k) <= 1 && r.count([](const Term &x) { return std::fabs(x.c) == 2; }) == 1 && r.count([](const Term &x) { return std::fabs(x.c) == 1 && x.bin; }) == r.n() - 1; }},
        {"General Linear", &TR::general_linear_ptrs, [](const Row &r) { return true; }},
    };
    return v;
}
// classes a row without fixed variables and zero coefficients must belong to (empty: no claim)
static std::vector<std::string> must(const Row &r) {
    std::vector<std::string> w;
    if (!r.all([](const Term &x) { return !x.fixed && x.c != 0 && !x.dep && !x.sel; })) return w;
    auto form = [&](const char *l) { for (auto &c : classes()) if (l == std::string(c.label)) return c.form(r); return false; };
    if (r.n() == 1) return {"Singleton"};
    if (r.n() == 2) {
        for (auto l : {"Exclusive OR", "Exclusive NOR", "Inverted Integers", "Balanced Integers", "Constant Sum Integers", "Constant Difference Integers", "Constant Ratio Integers", "Precedence", "Variable Bound"}) if (form(l)) return {l};
        return {"Aggregation", "Intermediate"};
    }
    if (form("Trinomial Exclusive NOR")) return {"Trinomial Exclusive NOR"};
    for (auto l : {"Set Partitioning", "Set Packing", "Set Covering", "Cardinality", "Invariant Knapsack", "Multiple Covering"}) if (form(l)) return {l};
    if (form("Soft Selection")) return {"Soft Selection"};
    if (form("Binary Flow")) return {"Binary Flow"};
    if (form("Integer Flow")) return {"Integer Flow"};
    if (r.all(B)) {
        if (form("Equation Knapsack")) return {"Equation Knapsack"};
        if (form("Bin Packing")) return {"Bin Packing"};
        if (form("Knapsack")) return {"Knapsack"};
    } else if (r.count(I) == r.n() && form("Integer Knapsack")) return {"Integer Knapsack", "Min-Max", "Max-Min"};
    return w;
}
int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng    r(case_seed(a, i) ^ 0xc1a5);
        GenCfg g;
        if (r.p(0.3)) { g.nmax = 5; g.kmax = 3; }
        if (r.p(0.25)) { g.nmin = 6; g.nmax = 11; g.kmax = 6; g.maxbox = 20000; }
        if (r.p(0.1)) { g.big = true; g.nmin = 12; g.nmax = 30; g.kmin = 5; g.kmax = 30; }
        Spec        s = generate(r, g);
        OptCfg      oc;
        std::string od;
        Option      o  = random_option(r, oc, &od);
        std::string id = "class:" + std::to_string(a.seed) + ":" + std::to_string(i);
        std::string dt = s.dump() + " | " + od;
        if (a.verbose) printf("%s\n%s\n", id.c_str(), dt.c_str()), fflush(stdout);
        IPModel m;
        Built   b;
        build(s, &m, &b);
        // the rows as the user defined them
        std::map<const IPCon *, Row> own;
        std::map<const IPVar *, std::pair<bool, bool>> vk;  // binary, fixed
        for (auto &p : m.variable_proxies()) for (auto &v : p.flat_indexed_variables()) vk[&v] = {v.sense() != VS::Integer && v.sense() != VS::DependentInteger, v.is_fixed()};
        for (auto &p : m.constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                Row w;
                w.k = c.expression().constant_value();
                w.s = c.sense() == CS::Less ? 'L' : c.sense() == CS::Greater ? 'G' : 'E';
                for (auto &q : c.expression().sensitivities()) w.t.push_back({q.second, vk[q.first].first, false, vk[q.first].second});
                own[&c] = w;
            }
        try {
            m.setup(o, a.verbose);
        } catch (std::exception &e) {
            R.ev("setup_threw");
            continue;
        }
        R.evaluations++;
        R.seen(s.hash());
        int  fails = 0;
        auto fail  = [&](const std::string &k, const std::string &d) { if (fails++ < 3) R.fail(k, id, d + " || " + dt); };
        auto check = [&](const TR &ref, const std::map<const IPCon *, Row> &rows, const std::string &when) {
            std::map<const IPCon *, std::string> of;
            for (auto &c : classes())
                for (auto *q : ref.*(c.list)) {
                    if (!rows.count(q)) { fail("P22:unknown-row", when + " " + c.label); continue; }
                    if (of.count(q)) { fail("P22:row-counted-twice", when + " " + q->name() + " as " + of[q] + " and " + c.label); continue; }
                    of[q] = c.label;
                    auto &w = rows.at(q);
                    if (w.n() == 0) continue;
                    R.ev(std::string("class:") + c.label);
                    if (!c.form(w)) fail("P22:wrong-class", when + " " + q->name() + " is not " + c.label);
                    auto mu = must(w);
                    if (!mu.empty()) { R.ev("class_demanded"); if (std::find(mu.begin(), mu.end(), c.label) == mu.end()) fail("P22:missed-class", when + " " + q->name() + " is " + mu[0] + ", reported as " + c.label); }
                }
            for (auto &q : rows) if (!of.count(q.first)) fail("P22:row-without-class", when + " " + q.first->name());
        };
        check(m.constraint_type_reference_original(), own, "original");
        std::map<const IPCon *, Row> now;
        long en = 0, nl = 0, ng = 0, ne = 0;
        for (auto &p : m.constraint_proxies())
            for (auto &c : p.flat_indexed_constraints()) {
                Row w;
                w.k = c.expression().constant_value();
                w.s = c.sense() == CS::Less ? 'L' : c.sense() == CS::Greater ? 'G' : 'E';
                for (auto &q : c.expression().sensitivities()) {
                    auto se = q.first->sense();
                    bool dep = se == VS::DependentBinary || se == VS::DependentInteger;
                    w.t.push_back({q.second, se != VS::Integer && se != VS::DependentInteger, dep, q.first->is_fixed(), se == VS::Selection});
                }
                now[&c] = w;
                if (c.is_enabled()) { en++; (w.s == 'L' ? nl : w.s == 'G' ? ng : ne)++; }
            }
        check(m.constraint_type_reference(), now, "prepared");
        auto &cr = m.constraint_reference();
        if ((long)cr.enabled_constraint_ptrs.size() != en || cr.enabled_constraint_ptrs.size() + cr.disabled_constraint_ptrs.size() != now.size() || cr.constraint_ptrs.size() != now.size()) fail("P22:row-counts", "");
        if ((long)cr.less_ptrs.size() != nl || (long)cr.greater_ptrs.size() != ng || (long)cr.equal_ptrs.size() != ne) fail("P22:sense-counts", "");
        // variables
        auto &vr = m.variable_reference();
        auto &vt = m.variable_type_reference();
        std::map<const IPVar *, int> seen;
        for (auto *v : vt.binary_variable_ptrs) { seen[v]++; if (v->sense() != VS::Binary || v->lower_bound() < 0 || v->upper_bound() > 1) fail("P22:not-binary", v->name()); }
        for (auto *v : vt.integer_variable_ptrs) { seen[v]++; if (v->sense() != VS::Integer) fail("P22:not-integer", v->name()); }
        for (auto *v : vt.selection_variable_ptrs) { seen[v]++; if (v->sense() != VS::Selection || !v->selection_ptr()) fail("P22:not-selection", v->name()); }
        for (auto *v : vt.dependent_binary_variable_ptrs) { seen[v]++; if (!v->dependent_expression_ptr()) fail("P22:not-dependent", v->name()); }
        for (auto *v : vt.dependent_integer_variable_ptrs) { seen[v]++; if (!v->dependent_expression_ptr()) fail("P22:not-dependent", v->name()); }
        long total = 0, mut = 0;
        for (auto &p : m.variable_proxies())
            for (auto &v : p.flat_indexed_variables()) {
                total++; mut += !v.is_fixed();
                if (seen[&v] != 1) fail("P22:variable-classes", v.name() + " in " + std::to_string(seen[&v]) + " classes");
                R.ev("variables_classified");
            }
        if ((long)vr.variable_ptrs.size() != total || (long)vr.mutable_variable_ptrs.size() != mut || (long)vr.fixed_variable_ptrs.size() != total - mut) fail("P22:variable-counts", "");
        // the printed summary
        if (r.p(0.2)) {
            std::ostringstream out;
            auto *old = std::cout.rdbuf(out.rdbuf());
            fflush(stdout);
            m.print_number_of_variables();
            m.print_number_of_constraints();
            std::cout.rdbuf(old);
            std::map<std::string, std::pair<long, long>> rep;
            std::istringstream in(out.str());
            std::string line;
            while (std::getline(in, line)) {
                size_t p = line.find(" -- ");
                std::string lab;
                if (p != std::string::npos) lab = line.substr(p + 4);
                else if ((p = line.find("The number of ")) != std::string::npos) lab = line.substr(p + 14);
                else continue;
                size_t q = lab.find(": ");
                long x = -1, y = -1;
                if (q == std::string::npos || sscanf(lab.c_str() + q + 2, "%ld (%ld)", &x, &y) != 2) { fail("P22:summary-line", line); continue; }
                rep[lab.substr(0, q)] = {x, y};
            }
            auto want = [&](const std::string &l, long x, long y) {
                R.ev("summary_lines_checked");
                if (!rep.count(l) || rep[l].first != x || rep[l].second != y) fail("P22:summary", l + " should be " + std::to_string(x) + " (" + std::to_string(y) + "), printed " + (rep.count(l) ? std::to_string(rep[l].first) + " (" + std::to_string(rep[l].second) + ")" : "nothing"));
            };
            auto nmut = [](auto &v) { long k = 0; for (auto *x : v) k += !x->is_fixed(); return k; };
            auto nen = [](auto &v) { long k = 0; for (auto *x : v) k += x->is_enabled(); return k; };
            auto &v0 = m.variable_type_reference_original();
            want("variables", (long)s.v.size(), mut);
            want("constraints", (long)own.size(), en);
            want("Binary", v0.binary_variable_ptrs.size(), nmut(vt.binary_variable_ptrs));
            want("Integer", v0.integer_variable_ptrs.size(), nmut(vt.integer_variable_ptrs));
            want("Selection", v0.selection_variable_ptrs.size(), nmut(vt.selection_variable_ptrs));
            want("Dependent Binary", v0.dependent_binary_variable_ptrs.size(), nmut(vt.dependent_binary_variable_ptrs));
            want("Dependent Integer", v0.dependent_integer_variable_ptrs.size(), nmut(vt.dependent_integer_variable_ptrs));
            for (auto &c : classes()) want(c.label, (m.constraint_type_reference_original().*(c.list)).size(), nen(m.constraint_type_reference().*(c.list)));
        }
        if (R.evaluations % 9973 == 1) R.sample(id + " " + dt);
    }
    R.finish();
    return 0;
}
