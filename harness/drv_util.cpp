// Support structures against simple reference models: random operation
// sequences on the containers, graphs and matrices the solver is built on.
#include "vf.h"
using namespace vf;
namespace u = printemps::utility;
namespace sp = printemps::utility::sparse;
int main(int argc, char **argv) {
    Args   a = parse(argc, argv);
    Report R;
    R.attach(a.state);
    for (long i = a.from; i < a.from + a.n; i++) {
        R.begin(i);
        Rng         r(case_seed(a, i) ^ 0x071);
        std::string id = "util:" + std::to_string(a.seed) + ":" + std::to_string(i);
        int         fails = 0;
        auto fail = [&](const std::string &k, const std::string &d) { if (fails++ < 2) R.fail("P23:" + k, id, d); };
        R.evaluations++;
        uint64_t h = r.next();
        R.seen(h);
        auto dbl = [&]() { return r.in(-8, 8) * r.pick<double>({1, 0.5, 0.25, 100}); };
        switch (i % 8) {
            case 0: {  // bounded queue
                int n = r.in(1, 6);
                u::FixedSizeQueue<int> q(n);
                std::deque<int> d;
                for (int k = r.in(1, 20); k > 0; k--) {
                    if (r.p(0.05)) { n = r.in(1, 6); q.setup(n); d.clear(); }
                    int x = r.in(-9, 9);
                    q.push(x); d.push_back(x);
                    if ((int)d.size() > n) d.pop_front();
                    R.ev("queue_steps");
                    if (q.queue() != d || q.size() != (int)d.size() || q.max_size() != n) fail("queue", "contents");
                    double s = 0;
                    for (int y : d) s += y;
                    if (q.min() != *std::min_element(d.begin(), d.end()) || q.max() != *std::max_element(d.begin(), d.end()) || !near(q.average(), s / d.size())) fail("queue", "statistics");
                }
                break;
            }
            case 1: {  // fixed hash map keyed by addresses
                std::vector<double> pool(200);
                std::unordered_map<double *, double> m;
                int n = r.in(0, 60), stride = r.pick<int>({1, 2, 4, 8});
                for (int k = 0; k < n; k++) m[&pool[(r.in(0, 199) / stride) * stride]] = r.in(-5, 5);
                if (n == 0 && r.p(0.5)) m[&pool[0]] = 3;
                u::FixedSizeHashMap<double *, double> f(m, sizeof(double) * r.pick<int>({1, 1, 2, 8}));
                for (auto &x : pool) {
                    R.ev("hash_lookups");
                    double want = m.count(&x) ? m[&x] : 0;
                    if (f.at(&x) != want) fail("hash-map", "lookup");
                }
                break;
            }
            case 2: {  // union-find and spanning tree
                int n = r.in(1, 9);
                std::unordered_set<int> es;
                for (int k = 0; k < n; k++) es.insert(k);
                u::UnionFind<int> uf(es);
                std::vector<int> c(n);
                for (int k = 0; k < n; k++) c[k] = k;
                for (int k = r.in(0, 14); k > 0; k--) {
                    int x = r.in(0, n - 1), y = r.in(0, n - 1);
                    bool same = c[x] == c[y];
                    if (uf.unite(x, y) == same) fail("union-find", "unite");
                    int o = c[y], w = c[x];
                    for (auto &z : c) if (z == o) z = w;
                    for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) { R.ev("union_find_pairs"); if (uf.is_same(p, q) != (c[p] == c[q])) fail("union-find", "is_same"); }
                }
                u::graph::Graph<int> g;
                std::vector<std::array<double, 3>> ed;
                for (int k = 0; k < n; k++) g.add_node(k, 1.0);
                for (int k = r.in(0, 20); k > 0; k--) {
                    int x = r.in(0, n - 1), y = r.in(0, n - 1);
                    if (x == y) continue;
                    double w = dbl();
                    if (r.p(0.5)) g.add_edge(x, y, w); else g.add_edge(u::graph::Edge<int>(x, y, w));
                    ed.push_back({w, (double)x, (double)y});
                }
                std::sort(ed.begin(), ed.end());
                for (int k = 0; k < n; k++) c[k] = k;
                double best = 0; int cnt = 0;
                for (auto &e : ed) if (c[(int)e[1]] != c[(int)e[2]]) { best += e[0]; cnt++; int o = c[(int)e[2]], w = c[(int)e[1]]; for (auto &z : c) if (z == o) z = w; }
                auto t = g.minimum_spanning_tree();
                double got = 0;
                std::vector<int> c2(n);
                for (int k = 0; k < n; k++) c2[k] = k;
                for (auto &e : t.edges()) { got += e.weight(); int o = c2[e.node_keys().second], w = c2[e.node_keys().first]; if (o == w) fail("spanning-tree", "cycle"); for (auto &z : c2) if (z == o) z = w; }
                R.ev("spanning_trees");
                if ((int)t.edges().size() != cnt || !near(got, best) || (int)t.nodes().size() != n) fail("spanning-tree", num(got) + " instead of " + num(best));
                for (int k = 0; k < n; k++) {
                    std::set<int> want;
                    for (size_t e = 0; e < t.edges().size(); e++) if (t.edges()[e].node_keys().first == k || t.edges()[e].node_keys().second == k) want.insert(e);
                    auto &gi = t.nodes().at(k).edge_indices();
                    if (std::set<int>(gi.begin(), gi.end()) != want) fail("spanning-tree", "incident edges");
                }
                break;
            }
            case 3: {  // matrices over GF(2), reachability
                int n = r.in(1, 7);
                u::BinaryMatrix A(n, n);
                double d = r.pick<double>({0.2, 0.5, 0.7});
                for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) A[p][q] = r.p(d);
                auto ir = A.inverse_and_rank();
                std::vector<unsigned> rows(n);
                for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if (A[p][q]) rows[p] |= 1u << q;
                int rank = 0;
                { auto w = rows; for (int b = 0; b < n; b++) { int piv = -1; for (int p = rank; p < n; p++) if (w[p] >> b & 1) { piv = p; break; } if (piv < 0) continue; std::swap(w[piv], w[rank]); for (int p = 0; p < n; p++) if (p != rank && (w[p] >> b & 1)) w[p] ^= w[rank]; rank++; } }
                R.ev(rank == n ? "binary_inverses" : "binary_singular");
                if (ir.second != rank) fail("binary-matrix", "rank " + std::to_string(ir.second) + " instead of " + std::to_string(rank));
                else if (rank == n) {
                    auto I = A.dot(ir.first);
                    for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if (I[p][q] != (p == q)) fail("binary-matrix", "inverse");
                }
                std::vector<int> x(n);
                for (auto &y : x) y = r.in(0, 1);
                auto Ax = A.dot(x);
                for (int p = 0; p < n; p++) { int w = 0; for (int q = 0; q < n; q++) w ^= A[p][q] & x[q]; if (Ax[p] != w) fail("binary-matrix", "product"); }
                auto C = A.reachability();
                auto W = rows;
                for (int k = 0; k < n; k++) for (int p = 0; p < n; p++) if (W[p] >> k & 1) W[p] |= W[k];
                for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if ((C[p][q] != 0) != (int)(W[p] >> q & 1)) fail("reachability", "");
                break;
            }
            case 4: case 5: {  // sparse matrices and vectors
                int m = r.in(1, 6), n = r.in(1, 6);
                std::vector<double> v; std::vector<int> ri, ci;
                std::vector<std::vector<double>> D(m, std::vector<double>(n, 0));
                double dens = r.pick<double>({0.1, 0.4, 0.9});
                for (int p = 0; p < m; p++) { std::vector<int> cs; for (int q = 0; q < n; q++) if (r.p(dens)) cs.push_back(q); r.shuffle(cs); for (int q : cs) { double z = dbl(); if (z == 0) z = 1; v.push_back(z); ri.push_back(p); ci.push_back(q); D[p][q] = z; } }
                sp::SparseMatrix A(v, ri, ci, m, n);
                auto vec = [&](int k) { sp::Vector x(k); for (int p = 0; p < k; p++) x[p] = dbl(); return x; };
                auto mul = [&](const sp::Vector &x) { std::vector<double> y(m, 0); for (int p = 0; p < m; p++) for (int q = 0; q < n; q++) y[p] += D[p][q] * x[q]; return y; };
                auto same = [&](const sp::Vector &x, const std::vector<double> &y) { if (x.size() != y.size()) return false; for (size_t p = 0; p < y.size(); p++) if (!near(x.values[p], y[p], 1e-9)) return false; return true; };
                auto x = vec(n), y = vec(m), z = vec(m);
                R.ev("sparse_products");
                if (!same(A * x, mul(x))) fail("sparse", "product");
                auto T = A.transpose();
                { std::vector<double> w(n, 0); for (int p = 0; p < m; p++) for (int q = 0; q < n; q++) w[q] += D[p][q] * y[p]; if (!same(T * y, w)) fail("sparse", "transpose"); if (!same(T.transpose() * x, mul(x))) fail("sparse", "double transpose"); }
                double n1 = 0, ni = 0;
                for (int q = 0; q < n; q++) { double w = 0; for (int p = 0; p < m; p++) { w += std::fabs(D[p][q]); ni = std::max(ni, std::fabs(D[p][q])); } n1 = std::max(n1, w); }
                if (!near(A.norm_one, n1) || !near(A.norm_infty, ni)) fail("sparse", "norms");
                sp::Diagonal L(m), C(n);
                for (int p = 0; p < m; p++) L[p] = r.pick<double>({0.5, 2, 3, -1});
                for (int q = 0; q < n; q++) C[q] = r.pick<double>({0.5, 2, 3, -1});
                auto S = L * A, U = A * C;
                { auto w = mul(x); for (int p = 0; p < m; p++) w[p] *= L[p]; if (!same(S * x, w)) fail("sparse", "row scaling"); auto e = C.dot(x); if (!same(U * x, mul(e))) fail("sparse", "column scaling"); }
                double al = dbl(), be = dbl(), ga = dbl();
                sp::Vector o(m);
                auto Ax = mul(x);
                auto lin = [&](std::function<double(int)> f) { std::vector<double> w; for (int p = 0; p < m; p++) w.push_back(f(p)); return w; };
                sp::linear_combination(&o, al, A, x, be, y); if (!same(o, lin([&](int p) { return al * Ax[p] + be * y[p]; }))) fail("sparse", "combination 2");
                sp::linear_combination(&o, al, A, x, be, y, ga, z); if (!same(o, lin([&](int p) { return al * Ax[p] + be * y[p] + ga * z[p]; }))) fail("sparse", "combination 3");
                sp::linear_combination(&o, al, A, x, {be, ga}, {&y, &z}); if (!same(o, lin([&](int p) { return al * Ax[p] + be * y[p] + ga * z[p]; }))) fail("sparse", "combination list");
                sp::linear_combination(&o, be, y, ga, z); if (!same(o, lin([&](int p) { return be * y[p] + ga * z[p]; }))) fail("sparse", "combination of vectors");
                { auto x3 = vec(m); sp::linear_combination(&o, be, y, ga, z, al, x3); if (!same(o, lin([&](int p) { return be * y[p] + ga * z[p] + al * x3[p]; }))) fail("sparse", "combination of three vectors");
                  sp::linear_combination(&o, std::vector<double>{be, ga, al}, {&y, &z, &x3}); if (!same(o, lin([&](int p) { return be * y[p] + ga * z[p] + al * x3[p]; }))) fail("sparse", "combination of listed vectors"); }
                sp::sum(&o, y, z); if (!same(o, lin([&](int p) { return y[p] + z[p]; }))) fail("sparse", "sum");
                sp::subtract(&o, y, z); if (!same(o, lin([&](int p) { return y[p] - z[p]; }))) fail("sparse", "difference");
                double dd = 0, dt = 0, bil = 0;
                for (int p = 0; p < m; p++) { dd += (y[p] - z[p]) * (y[p] - z[p]); dt += y[p] * z[p]; bil += y[p] * Ax[p]; }
                if (!near(sp::distance(y, z), std::sqrt(dd), 1e-9) || !near(y.dot(z), dt, 1e-9) || !near(sp::dot_dot(&o, y, A, x), bil, 1e-9)) fail("sparse", "inner products");
                if (!same(al + y, lin([&](int p) { return al + y[p]; })) || !same(al - y, lin([&](int p) { return al - y[p]; })) || !same(y - al, lin([&](int p) { return y[p] - al; })) || !same(y * al, lin([&](int p) { return al * y[p]; })) || !same(y / 4.0, lin([&](int p) { return y[p] / 4; })) || !same(-y, lin([&](int p) { return -y[p]; })) || !same(y - z, lin([&](int p) { return y[p] - z[p]; })) || !same(y + z, lin([&](int p) { return y[p] + z[p]; }))) fail("sparse", "operators");
                { auto w = y; w.clamp_positive(); if (!same(w, lin([&](int p) { return std::max(0.0, y[p]); }))) fail("sparse", "positive part"); w = y; w.clamp_negative(); if (!same(w, lin([&](int p) { return std::min(0.0, y[p]); }))) fail("sparse", "negative part");
                  sp::Vector lo(m), up(m); for (int p = 0; p < m; p++) { lo[p] = dbl(); up[p] = lo[p] + r.in(0, 5); } w = y; w.clamp(lo, up); if (!same(w, lin([&](int p) { return std::max(lo[p], std::min(up[p], y[p])); }))) fail("sparse", "clamp");
                  w = y; w.learn(z, 0.25); if (!same(w, lin([&](int p) { return 0.75 * y[p] + 0.25 * z[p]; }))) fail("sparse", "learn"); w = y; w.extend(z); if ((int)w.size() != 2 * m || w[m] != z[0]) fail("sparse", "extend"); }
                // scaling keeps the matrix recoverable: entry = scaled * row scaler * column scaler
                auto Q = A;
                if (r.p(0.5)) Q.ruiz_scaling(r.in(1, 5));
                if (r.p(0.6)) Q.pock_chambolle_scaling();
                R.ev("scalings");
                for (size_t k = 0; k < Q.values.size(); k++) {
                    double back = Q.values[k] * Q.row_scaler[Q.row_indices[k]] * Q.column_scaler[Q.column_indices[k]];
                    if (!near(back, v[k], 1e-8)) fail("sparse", "scaling is not recoverable");
                    if (!(std::fabs(Q.values[k]) <= std::fabs(v[k]) * 1e6 + 1)) fail("sparse", "scaling blows up");
                }
                break;
            }
            case 6: {  // maps, sets, ranges, vectors, strings
                u::BidirectionalMap<int, std::string> bm;
                std::map<int, std::string> f;
                for (int k = r.in(0, 10); k > 0; k--) { int x = r.in(0, 100); if (f.count(x)) continue; f[x] = "s" + std::to_string(x * 7); bm.insert(x, f[x]); }
                if (bm.size() != (int)f.size() || bm.empty() != f.empty()) fail("bidirectional-map", "size");
                for (auto &q : f) { R.ev("map_lookups"); if (bm.forward_at(q.first) != q.second || bm.reverse_at(q.second) != q.first) fail("bidirectional-map", "lookup"); }
                std::unordered_set<int> A, B;
                for (int k = r.in(0, 8); k > 0; k--) A.insert(r.in(0, 9));
                for (int k = r.in(0, 8); k > 0; k--) B.insert(r.in(0, 9));
                auto I = u::intersection_set(A, B), U = u::union_set(A, B);
                auto I2 = A, U2 = A; u::update_intersection_set(&I2, B); u::update_union_set(&U2, B);
                for (int k = 0; k < 10; k++) { bool p = A.count(k), q = B.count(k); if (I.count(k) != (p && q) || I2.count(k) != (p && q) || U.count(k) != (p || q) || U2.count(k) != (p || q)) fail("sets", "operations"); }
                std::unordered_map<int, int> P, Q;
                for (int k = r.in(0, 8); k > 0; k--) { int x = r.in(-4, 4); if (x) P[r.in(0, 9)] = x; }
                for (int k = r.in(0, 8); k > 0; k--) { int x = r.in(-4, 4); if (x) Q[r.in(0, 9)] = x; }
                int l0 = 0, l1 = 0;
                for (int k = 0; k < 10; k++) { int p = P.count(k) ? P[k] : 0, q = Q.count(k) ? Q[k] : 0; l0 += p != q; l1 += std::abs(p - q); }
                R.ev("distances");
                if (u::distance_l0(P, Q) != l0 || u::distance_l1(P, Q) != l1) fail("distance", std::to_string(u::distance_l0(P, Q)) + "," + std::to_string(u::distance_l1(P, Q)) + " instead of " + std::to_string(l0) + "," + std::to_string(l1));
                std::vector<int> v;
                for (int k = r.in(1, 9); k > 0; k--) v.push_back(r.in(-5, 5));
                std::set<int> dv(v.begin(), v.end());
                int mn = *dv.begin(), mx = *dv.rbegin();
                if (u::min(v) != mn || u::max(v) != mx || u::max_abs(v) != std::max(std::abs(mn), std::abs(mx)) || v[u::argmin(v)] != mn || v[u::argmax(v)] != mx || u::count_duplicate(v) != (int)(v.size() - dv.size())) fail("vector", "statistics");
                u::Range<double> rg;
                for (int x : v) rg.update(x);
                if (rg.min() != mn || rg.max() != mx || rg.range() != mx - mn || rg.max_abs() != std::max(std::abs(mn), std::abs(mx))) fail("range", "");
                std::string t;
                for (int k = r.in(0, 8); k > 0; k--) t += r.p(0.5) ? ' ' : (char)('a' + r.in(0, 3));
                size_t p = t.find_first_not_of(' '), q = t.find_last_not_of(' ');
                if (u::trim(t) != (p == std::string::npos ? "" : t.substr(p, q - p + 1)) || u::has_space(t) != (t.find(' ') != std::string::npos)) fail("string", "[" + t + "]");
                auto word = [&]() { std::string w; for (int k = r.in(1, 4); k > 0; k--) w += (char)('a' + r.in(0, 3)); return w; };
                std::string path, stem = word(), ext = r.p(0.7) ? "." + word() : "";
                for (int k = r.in(0, 3); k > 0; k--) path += (r.p(0.3) ? word() + "." + word() : r.p(0.2) ? ".." : word()) + "/";
                if (r.p(0.2)) path = "/" + path;
                if (!ext.empty() && r.p(0.2)) stem += "." + word();
                R.ev("base_names");
                if (u::base_name(path + stem + ext) != stem || u::remove_path(path + stem + ext) != stem + ext) fail("base-name", path + stem + ext + " -> " + u::base_name(path + stem + ext));
                break;
            }
            case 7: {  // adaptive choice: every action is tried and the samples are counted
                int n = r.in(1, 5);
                std::vector<u::ucb1::Action<int>> ac;
                for (int k = 0; k < n; k++) ac.emplace_back(k);
                double decay = r.pick<double>({0.9, 0.99, 1.0});
                u::ucb1::Learner<int> L(ac, decay);
                std::vector<long> cnt(n, 0);
                std::vector<double> mean(n, 0), tot(n, 0);
                int steps = r.in(1, 60);
                for (int k = 0; k < steps; k++) { int b = L.best_action().body; if (b < 0 || b >= n) { fail("learner", "unknown action"); break; } double sc = r.in(0, 100) / 10.0; mean[b] = cnt[b] ? decay * mean[b] + (1 - decay) * sc : sc; tot[b] += sc; cnt[b]++; L.learn(sc); }
                R.ev("learner_steps", steps);
                if (L.total_number_of_samples() != steps) fail("learner", "number of samples");
                for (int k = 0; k < n; k++) if (L.actions()[k].number_of_samples != cnt[k]) fail("learner", "samples of an action");
                for (int k = 0; k < n; k++) if (!near(L.actions()[k].mean, mean[k], 1e-9) || !near(L.actions()[k].total_score, tot[k], 1e-9)) fail("learner", "mean of an action");
                if (steps >= n) for (long c : cnt) if (c == 0) fail("learner", "an action was never tried");
                break;
            }
        }
    }
    R.finish();
    return 0;
}
