// C08: k-means is a Lloyd fixed point from distinct seeds for every entropy.
#include "core.hpp"
#include "methods/cluster/kmeans.hpp"
#include "common.hpp"
using namespace sim;
typedef openml::cluster::KMeans<double> KM;

// the nearest centre; of centres at one place the first (or last) gets the point
static int nearest(const Mat& C, const Eigen::RowVectorXd& p, double& margin, bool last = false) {
    int b = 0; double d1 = INFINITY, d2 = INFINITY;
    for (int j = 0; j < C.rows(); j++) {
        double d = (C.row(j) - p).norm();
        if (d < d1) { d2 = d1; d1 = d; b = j; } else if (d == d1 && C.row(j) == C.row(b)) { if (last) b = j; } else if (d < d2) d2 = d;
    }
    margin = d2 - d1;
    return b;
}
// Lloyd iterations; clear becomes false when rounding could decide
static Mat lloyd(const Mat& X, Mat C, size_t T, double tol, double eps, bool& clear, bool last = false) {
    for (size_t t = 0; t < T; t++) {
        Mat S = Mat::Zero(C.rows(), C.cols()); Vec cnt = Vec::Zero(C.rows());
        for (int i = 0; i < X.rows(); i++) { double mg; int b = nearest(C, X.row(i), mg, last); if (mg < eps) clear = false; S.row(b) += X.row(i); cnt(b)++; }
        double mv = 0;
        for (int j = 0; j < C.rows(); j++) if (cnt(j) > 0) { Mat z = S.row(j) / cnt(j); mv += (z - C.row(j)).norm(); C.row(j) = z; }
        if (tol > 0 && std::fabs(mv - tol) < eps * 1e-3 + 1e-9 * tol) clear = false;
        if (mv < tol) break;
    }
    return C;
}
struct Fit { Vec train, probe; };
static Fit fit_predict(KM& km, const Mat& X, const Mat& P, int k, const char* what) {
    Fit f; const Mat X0 = X;
    Outcome o = attempt([&] { km.fit(X); f.train = km.predict(X); f.probe = km.predict(P); });
    if (!o.ok()) violate("C08:threw", "%s threw: %s", what, o.what.c_str());
    if (!bit_equal(X, X0)) violate("C08:data-modified", "the training data changed");
    if (f.train.size() != X.rows() || f.probe.size() != P.rows()) violate("C08:shape", "%ld labels for %ld rows", (long)f.train.size(), (long)X.rows());
    for (const Vec* v : {&f.train, &f.probe}) for (int i = 0; i < v->size(); i++) if (!((*v)(i) >= 0 && (*v)(i) < k && (*v)(i) == std::floor((*v)(i)))) violate("C08:label-range", "label %g for %d clusters", (*v)(i), k);
    return f;
}
static bool labels_agree(const Mat& C, const Mat& P, const Vec& lab, double eps) {
    for (int i = 0; i < P.rows(); i++) {
        double mg; int b = nearest(C, P.row(i), mg);
        if (b != (int)lab(i) && (C.row((int)lab(i)) - P.row(i)).norm() > (C.row(b) - P.row(i)).norm() + eps) return false;
    }
    return true;
}
static void subsets(int n, int k, std::vector<int>& cur, std::vector<std::vector<int>>& out) {
    if ((int)cur.size() == k) { out.push_back(cur); return; }
    for (int i = 0; i < n; i++) if (!std::count(cur.begin(), cur.end(), i)) { cur.push_back(i); subsets(n, k, cur, out); cur.pop_back(); }
}
static Mat probes(Rng& r, const Mat& X, int q) {
    Mat P(q, X.cols());
    for (int i = 0; i < q; i++) {
        int a = (int)r.below(X.rows()), b = (int)r.below(X.rows()); double t = r.uniform(-0.3, 1.3);
        for (int j = 0; j < X.cols(); j++) P(i, j) = X(a, j) + t * (X(b, j) - X(a, j)) + 0.2 * (max_abs(X) + 1e-3) * r.normal();
    }
    return P;
}

SIM_SCENARIO("C08") {
    bool pp = choose(2, "kmeans++");
    int n = range(1, 7, "n"), m = range(1, 3, "m"), k = range(1, std::min(n, 4), "k");
    if (n == 7 && k == 4) k = 3;
    size_t T = choose(3, "T.kind") == 2 ? 50 : choose(5, "T");
    double tol = choose(3, "tol") == 0 ? 0.0 : choose(2, "tol.big") ? 0.3 : 1e-4;
    double scale = choose(4, "scale") == 3 ? 1e4 : 1;
    Rng r = data_rng("data");
    Mat X = rand_mat(r, n, m, scale); if (choose(3, "offset") == 2) X.array() += 50 * scale;
    bool dup = !pp && n > 1 && choose(4, "duplicates") == 3;     // equal rows: coinciding seeds, of which one gets no point
    if (dup) { int c = 1 + (int)r.below(3); for (int i = 0; i < c; i++) { int a = (int)r.below(n), b = (int)r.below(n); X.row(a) = Eigen::RowVectorXd(X.row(b)); } count("data with equal rows"); }
    Mat P = probes(r, X, 30);
    double eps = 1e-9 * (max_abs(X) + scale);
    Env e = choose_env(); set_env(e); heap_fill((int)choose(5, "fill"), 2); set_console((int)choose(3, "console"), 3);
    KM km(pp ? "kmeans++" : "random", 1 + choose(4, "num_init"), k, T, tol);
    Fit f = fit_predict(km, X, P, k, "k-means");
    std::vector<std::vector<int>> subs; std::vector<int> cur; subsets(n, k, cur, subs);
    bool found = false, unclear = false; Mat FC;
    for (int last = 0; last <= (dup && !found); last++) for (auto& s : subs) {
        Mat C(k, m); for (int j = 0; j < k; j++) C.row(j) = X.row(s[j]);
        bool clear = true; C = lloyd(X, C, T, tol, eps, clear, last);
        if (!clear) { unclear = true; continue; }
        if (labels_agree(C, X, f.train, eps) && labels_agree(C, P, f.probe, eps)) { found = true; FC = C; break; }
    }
    if (!found && !unclear) violate("C08:no-lloyd-start", "%s n=%d k=%d max_iter=%zu tol=%g: the labels of %d points are those of no %zu Lloyd runs from distinct rows", pp ? "kmeans++" : "random", n, k, T, tol, n + 30, subs.size());
    if (found) count("fits matched to a Lloyd run");
    if (found && !unclear && k > 1) {   // points just beside the border between two centres
        Mat B(16, m);
        for (int i = 0; i < 16; i++) {
            int a = (int)r.below(k), b = (int)((a + 1 + r.below(k - 1)) % k);
            Vec d = (FC.row(b) - FC.row(a)).transpose(), w = rand_mat(r, m, 1, d.norm()); if (d.norm() > 0) w -= d * (d.dot(w) / d.squaredNorm());
            B.row(i) = FC.row(a) + ((0.5 + (r.below(2) ? 1 : -1) * std::pow(10, r.uniform(-8, -2))) * d + w).transpose();
        }
        Vec lb; Outcome o = attempt([&] { lb = km.predict(B); });
        if (!o.ok() || lb.size() != 16) violate("C08:threw", "predicting 16 points: %s", o.what.c_str());
        bool ok = false;
        for (auto& s : subs) {
            Mat C(k, m); for (int j = 0; j < k; j++) C.row(j) = X.row(s[j]);
            bool clear = true; C = lloyd(X, C, T, tol, eps, clear);
            if (dup && !ok) { Mat C2(k, m); for (int j = 0; j < k; j++) C2.row(j) = X.row(s[j]); C2 = lloyd(X, C2, T, tol, eps, clear, true); ok = labels_agree(C2, X, f.train, eps) && labels_agree(C2, P, f.probe, eps) && labels_agree(C2, B, lb, eps); }
            if (ok || labels_agree(C, X, f.train, eps) && labels_agree(C, P, f.probe, eps) && labels_agree(C, B, lb, eps)) { ok = true; break; }
        }
        if (!ok) violate("C08:border", "%s n=%d k=%d: points beside the border between two centres %s are not labelled with the nearest", pp ? "kmeans++" : "random", n, k, show(FC).c_str());
        count("border points asked");
    }
    // the same on a used object, with everything but data and entropy changed
    Env e2 = e; e2.clk_base += 12345; e2.clk_seed += 3; e2.rnd_seed ^= 5; set_env(e2); heap_fill((int)choose(5, "fill2"), 77);
    KM* again = &km; KM fresh(pp ? "kmeans++" : "random", 1, k, T, tol);
    if (choose(2, "fresh")) again = &fresh;
    else if (choose(2, "dirty") && k <= 3) { Mat Z = rand_mat(r, 4 + (int)r.below(4), m, 3); set_env(e2); fit_predict(km, Z, P, k, "k-means"); set_env(e2); }
    Fit g = fit_predict(*again, X, P, k, "k-means again");
    if (!bit_equal(f.train, g.train) || !bit_equal(f.probe, g.probe)) violate("C08:not-a-function", "the same data and entropy gave other labels");
    Vec one; int i = (int)r.below(P.rows()); attempt([&] { one = again->predict(P.row(i)); });
    if (one.size() != 1 || one(0) != g.probe(i)) violate("C08:prediction-context", "a point is labelled differently alone");
    if (choose(40, "crowd") == 39) {    // very many points at once
        int c = 900 + (int)r.below(2500); Mat Q(c, m); Vec lq; for (int t = 0; t < c; t++) Q.row(t) = P.row(t * 7 % P.rows());
        Outcome o = attempt([&] { lq = again->predict(Q); });
        if (!o.ok() || lq.size() != c) violate("C08:threw", "predicting %d points: %s", c, o.what.c_str());
        for (int t = 0; t < c; t++) if (lq(t) != g.probe(t * 7 % P.rows())) violate("C08:prediction-context", "a point is labelled differently among %d", c);
        count("large query sets");
    }
    heap_check(); nontrivial(); state(hmat(f.probe, hmat(f.train, hmat(X))));
    event("%d n=%d m=%d k=%d T=%zu tol=%g labels=%llx", pp, n, m, k, T, tol, (unsigned long long)hmat(f.probe));
    sample("%s n=%d m=%d k=%d max_iter=%zu tol=%g entropy mode %d", pp ? "kmeans++" : "random", n, m, k, T, tol, e.ent_mode);
}

SIM_SCENARIO("C08.groups") {
    bool big = choose(60, "big") == 59; int k = range(2, big ? 11 : 6, "k"), m = range(1, 4, "m");
    bool pp = choose(3, "random.seeding") != 2;
    Rng r = data_rng("data");
    // pp: tight groups; otherwise (or loosely) any data, checked as a fixed point
    bool tight = pp && choose(3, "loose") != 2;
    std::vector<int> grp; Mat G(k, m);
    for (int j = 0; j < k; j++) for (;;) {
        for (int q = 0; q < m; q++) G(j, q) = r.uniform(-10, 10);
        double d = INFINITY; for (int q = 0; q < j; q++) d = std::min(d, (G.row(q) - G.row(j)).norm());
        if (d > 1) break;
    }
    for (int j = 0; j < k; j++) { int s = 1 + (int)r.below(big ? 60 : 9); for (int q = 0; q < s; q++) grp.push_back(j); }
    for (size_t i = grp.size(); i-- > 1;) std::swap(grp[i], grp[r.below(i + 1)]);
    int n = (int)grp.size(); double sp = tight ? (r.below(2) ? 1e-8 : 0) : 1.5;
    Mat X(n, m); for (int i = 0; i < n; i++) for (int q = 0; q < m; q++) X(i, q) = G(grp[i], q) + sp * r.uniform(-1, 1);
    Mat P = tight ? Mat(G) : probes(r, X, 40);
    Env e = choose_env(); set_env(e); heap_fill((int)choose(5, "fill"), 2);
    size_t T = tight ? range(0, 30, "max_iter") : 300; double tol = tight ? (choose(2, "tol") ? 1e-4 : 0) : 0;
    KM km(pp ? "kmeans++" : "random", 1, k, T, tol);
    Fit f = fit_predict(km, X, P, k, "k-means");
    if (tight) {
        std::set<int> used;
        for (int j = 0; j < k; j++) used.insert((int)f.probe(j));
        if ((int)used.size() != k) violate("C08:groups-merged", "k-means++ found %zu of %d groups %d points far apart and %.0e wide", used.size(), k, n, sp);
        for (int i = 0; i < n; i++) if (f.train(i) != f.probe(grp[i])) violate("C08:group-split", "k-means++ labels two points of one group differently");
        count("tight groups recovered");
    } else {
        // 300 iterations converge on so few points: the centres are the means of their points
        Mat C = Mat::Zero(k, m); Vec cnt = Vec::Zero(k); for (int i = 0; i < n; i++) { C.row((int)f.train(i)) += X.row(i); cnt((int)f.train(i))++; }
        if ((cnt.array() > 0).all()) {
            for (int j = 0; j < k; j++) C.row(j) /= cnt(j);
            if (!labels_agree(C, X, f.train, 1e-8) || !labels_agree(C, P, f.probe, 1e-8)) violate("C08:not-a-fixed-point", "after 300 iterations the labels of n=%d k=%d are not those of the nearest cluster mean", n, k);
            count("fixed points checked");
        }
    }
    heap_check(); nontrivial(); state(hmat(f.train, hmat(X)));
    event("groups k=%d n=%d tight=%d labels=%llx", k, n, tight, (unsigned long long)hmat(f.train));
    sample("k=%d n=%d m=%d %s %s", k, n, m, pp ? "kmeans++" : "random", tight ? "tight groups" : "loose data");
}

// with random seeding every choice of rows occurs
SIM_SCENARIO("C08.reach") {
    int n = range(2, 5, "n"), k = range(1, n >= 5 ? 2 : std::min(n, 3), "k"), m = 2;
    Rng r = data_rng("data");
    Mat X = rand_mat(r, n, m), P = probes(r, X, 150);
    std::vector<std::vector<int>> subs; std::vector<int> cur; subsets(n, k, cur, subs);
    std::map<std::string, int> sig; bool unique = true;
    auto sig_of = [&](const Vec& a) { std::string s; for (int i = 0; i < a.size(); i++) s += (char)('0' + (int)a(i)); return s; };
    for (size_t q = 0; q < subs.size(); q++) {
        Mat C(k, m); for (int j = 0; j < k; j++) C.row(j) = X.row(subs[q][j]);
        Vec lab(P.rows()); double mg; for (int i = 0; i < P.rows(); i++) lab(i) = nearest(C, P.row(i), mg);
        if (sig.count(sig_of(lab))) unique = false;
        sig[sig_of(lab)] = (int)q;
    }
    if (!unique && k > 1) discard("two choices of rows cannot be told apart");
    Env e; e.ent_mode = (int)choose(3, "entropy.mode"); uint64_t base = choose(1u << 30, "base");
    std::set<int> seen; KM km("random", 1, k, 0, 1e-4);
    const int M = 700;
    for (int t = 0; t < M; t++) {
        e.ent_seed = base + t; set_env(e);
        Vec lab; Outcome o = attempt([&] { km.fit(X); lab = km.predict(P); });
        if (!o.ok()) violate("C08:threw", "k-means threw: %s", o.what.c_str());
        auto it = sig.find(sig_of(lab));
        if (it == sig.end()) violate("C08:seed-not-rows", "the seeds are no %d distinct training rows of %d", k, n);
        seen.insert(it->second);
    }
    if (k > 1 && seen.size() != subs.size()) violate("C08:seed-unreachable", "in %d entropy values only %zu of %zu ordered choices of %d rows out of %d occurred", M, seen.size(), subs.size(), k, n);
    nontrivial(); state(hmat(X)); event("n=%d k=%d seen=%zu", n, k, seen.size());
    sample("n=%d k=%d, %d entropy values", n, k, M);
}
