// C06: coordinate descent takes the best single-coordinate step.
#include "opt_common.hpp"
#include "core/optimizer/sgd/scd.hpp"
#include "methods/linear_model/lasso_regression.hpp"
using namespace sim;

static double soft(double v, double l) { return v > l ? v - l : v < -l ? v + l : 0; }
// the step of one coordinate and the decrease it promises
static void step_of(double w, double g, double beta, double lam, double& eta, double& desc) {
    eta = soft(w - g / beta, lam / beta) - w;
    desc = -eta * g - beta / 2 * eta * eta - lam * std::fabs(w + eta) + lam * std::fabs(w);
}

// gradient of 1/2 |Xw-y|^2, independent of the order of the rows
static Mat quad_grad(const Mat& X, const Vec& y, const Mat& W, const std::vector<int>& at) {
    Mat g = Mat::Zero(W.rows(), 1);
    for (int i : at) {
        double e = -y(i); for (int j = 1; j < X.cols(); j++) e += X(i, j) * W(j - 1 < W.rows() ? j - 1 : 0);
        for (int j = 1; j < X.cols(); j++) g(j - 1) += X(i, j) * e;
    }
    return g;
}

SIM_SCENARIO("C06") {
    uint64_t big = choose(24, "big");
    int n = big == 23 ? range(100, 700, "n") : big == 22 ? range(13, 99, "n") : range(1, 12, "n"), m = big == 21 ? range(7, 40, "m") : range(1, 6, "m");
    size_t T = choose(8, "long") == 7 ? range(90, 130, "max_iter") : range(0, 15, "max_iter");
    static const double lams[] = {0.5, 0, 0.0625, 2, 1e-4};
    double lam = lams[choose(5, "lambda")];
    static const double betas[] = {1, 2, 0.5, 7, 30};
    double beta = betas[choose(5, "beta")];
    bool shuffle = choose(2, "shuffle"), verbose = choose(2, "verbose");
    int kind = (int)choose(4, "kind");    // 0 quadratic, 1 scripted random, 2 scripted on a grid (ties), 3 quadratic majorised (objective must fall)
    Rng r = data_rng("data");
    // column 0 identifies the row, the others are features; the weights have m entries plus, for the quadratic, none for column 0
    Mat X(n, m + 1); Vec y(n);
    for (int i = 0; i < n; i++) { X(i, 0) = i; for (int j = 1; j <= m; j++) X(i, j) = (int)r.below(9) - 4; y(i) = (int)r.below(21) - 10 + 0.001 * i; }
    if (kind == 3) { double mx = 0; for (int j = 1; j <= m; j++) mx = std::max(mx, X.col(j).squaredNorm()); beta = std::max(1.0, mx); }
    // the optimiser sees m+1 weights; column 0's gradient is always 0
    Mat x0(m + 1, 1); for (int j = 0; j <= m; j++) x0(j) = r.below(3) == 0 ? 0 : (int)r.below(33) / 8.0 - 2;
    x0(0) = 0;
    uint64_t gs = r.next();
    auto run = [&](bool sh, const Env& e, int fill, Rec& rec, Mat& coef) {
        rec.gradient = [&, gs](Rec& q, const Mat& B, const Vec& by, const Mat& W) {
            if (B.rows() != n || by.size() != n || B.cols() != m + 1) violate("C06:rows", "gradient over %ld rows and %ld labels of %d", (long)B.rows(), (long)by.size(), n);
            std::vector<int> at(n, -1);
            for (int i = 0; i < n; i++) {
                int id = (int)B(i, 0);
                if (!(id >= 0 && id < n) || at[id] >= 0) violate("C06:row-repeated", "a row is missing or repeated in the gradient");
                if ((B.row(i).array() != X.row(id).array()).any() || by(i) != y(id)) violate("C06:label-detached", "row %d changed or lost its label", id);
                at[id] = i;
                if (!sh && id != i) violate("C06:order", "rows reordered without shuffling");
            }
            Mat g = Mat::Zero(m + 1, 1);
            if (kind == 0 || kind == 3) { Mat w = W.bottomRows(m); g.bottomRows(m) = quad_grad(B, by, w, at); }
            else for (int j = 1; j <= m; j++) { uint64_t k[3] = {gs, q.ng, (uint64_t)j}; uint64_t h = hash_bytes(k, 24); g(j) = kind == 1 ? ((double)(h % 200001) - 100000) / 20000.0 : ((double)(h % 9) - 4) / 2; }
            return g;
        };
        rec.evaluate = [&](Rec&, const Mat&, const Vec&, const Mat& W) { return W.squaredNorm(); };
        set_env(e); heap_fill(fill, 11);
        const Mat X0 = X; const Vec y0 = y;
        Vec v0 = x0;
        Outcome o = attempt([&] {
            openml::optimizer::SCD<double, SimLoss> s(v0, SimLoss{&rec}, T, beta, lam, sh, verbose);
            use_before(s, rec, X, y); s.optimize(X, y); coef = s.get_coef();
        });
        if (!o.ok()) violate("C06:threw", "coordinate descent threw: %s", o.what.c_str());
        if (!bit_equal(X, X0) || !bit_equal(y, y0)) violate("C06:data-modified", "the caller's data changed");
    };
    Env e = choose_env();
    set_console((int)choose(3, "console"), choose(64, "console.at"));
    Rec rec; Mat coef; rec.earlier = choose(8, "earlier") == 7; rec.earlier_seed = gs;
    run(shuffle, e, (int)choose(5, "fill"), rec, coef);
    std::vector<const Call*> G; for (auto& c : rec.calls) if (c.grad) G.push_back(&c);
    if (G.size() != T) violate("C06:iterations", "%zu iterations, configured %zu", G.size(), T);
    if (T && !rec.earlier) if (!bit_equal(G[0]->W, x0)) violate("C06:start", "first gradient not at the start");
    if (!T && !bit_equal(coef, x0)) violate("C06:start", "no iterations, yet the weights changed");
    double pobj = INFINITY;
    for (size_t t = 0; t < T; t++) {
        const Mat &W = G[t]->W, &g = G[t]->g; const Mat& N = t + 1 < T ? G[t + 1]->W : coef;
        if (N.rows() != m + 1) violate("C06:shape", "weights became %s", shape(N).c_str());
        double best = -INFINITY, sc = 1e-30; std::vector<double> eta(m + 1), d(m + 1);
        for (int j = 0; j <= m; j++) {
            step_of(W(j), g(j), beta, lam, eta[j], d[j]); best = std::max(best, d[j]);
            sc = std::max(sc, std::fabs(eta[j] * g(j)) + beta * eta[j] * eta[j] + lam * (std::fabs(W(j)) + std::fabs(W(j) + eta[j])));
        }
        int ch = -1;
        for (int j = 0; j <= m; j++) if (N(j) != W(j)) { if (ch >= 0) violate("C06:two-weights", "iteration %zu changed weights %d and %d", t, ch, j); ch = j; }
        if (ch < 0) {
            bool ok = best <= 1e-13 * (1 + W.squaredNorm()) * std::max(1.0, beta);   // rounding at the optimum
            for (int j = 0; j <= m; j++) if (std::fabs(eta[j]) <= 1e-14 * (std::fabs(W(j)) + 1e-3 + std::fabs(g(j)) / beta) && d[j] >= best - 1e-11 * sc) ok = true;
            if (!ok) violate("C06:no-step", "iteration %zu changed nothing, a decrease of %.6g was available", t, best);
            continue;
        }
        double got = N(ch) - W(ch);
        if (d[ch] < best - 1e-11 * sc - 1e-13 * (1 + W.squaredNorm()) * std::max(1.0, beta)) violate("C06:not-best", "iteration %zu moved weight %d promising %.12g, the best promises %.12g", t, ch, d[ch], best);
        if (!close(got, eta[ch], 1e-12, 1e-13 * (std::fabs(W(ch)) + std::fabs(g(ch)) / beta + lam / beta + 1e-300))) violate("C06:step", "iteration %zu moved weight %d by %.17g, the soft-threshold step is %.17g", t, ch, got, eta[ch]);
        if (kind == 3) {
            Mat Xf = X.rightCols(m);
            auto obj = [&](const Mat& w) { return 0.5 * (Xf * w.bottomRows(m) - y).squaredNorm() + lam * w.bottomRows(m).lpNorm<1>() + lam * std::fabs(w(0)); };
            double a = obj(W), b = obj(N); pobj = b;
            if (b > a + 1e-11 * (1 + std::fabs(a))) violate("C06:objective-rose", "iteration %zu raised the objective from %.17g to %.17g", t, a, b);
        }
        count("coordinate steps checked");
    }
    // any other order of the rows
    Env e2 = e; e2.clk_base ^= 0x5555555; e2.clk_seed += 13; e2.clk_mode = (e.clk_mode + 1) % 3;
    Rec rec2; Mat coef2; rec2.earlier = rec.earlier; rec2.earlier_seed = gs;
    run(!shuffle || choose(2, "reshuffle"), e2, (int)choose(5, "fill2"), rec2, coef2);
    if (!bit_equal(coef, coef2)) violate("C06:order-dependent", "the result depends on the order of the rows: %s and %s", show(coef).c_str(), show(coef2).c_str());
    count("orders compared");
    heap_check(); nontrivial();
    std::vector<double> tr; for (auto* c : G) tr.push_back(c->y.size() ? c->X(0, 0) : 0);
    state(hash_bytes(tr.data(), tr.size() * 8, hmat(coef)));
    event("n=%d m=%d T=%zu kind=%d lam=%g beta=%g coef=%llx obj=%g", n, m, T, kind, lam, beta, (unsigned long long)hmat(coef), pobj);
    sample("n=%d m=%d iterations=%zu loss kind %d lambda=%g l1_ratio=%g shuffle=%d", n, m, T, kind, lam, beta, shuffle);
}

// the lasso estimator against the closed form and against a reference descent
SIM_SCENARIO("C06.lasso") {
    int m = range(1, 5, "m"), n = m + 1 + (int)choose(14, "n");
    bool icept = choose(2, "intercept"), ortho = choose(3, "kind") != 2;
    bool shuffle = choose(3, "shuffle") != 0, verbose = choose(2, "verbose");
    static const double lams[] = {0.25, 0, 0.03, 1};
    double lam = lams[choose(4, "lambda")], beta = 1;
    Rng r = data_rng("data");
    Mat A = rand_mat(r, n, m + 1); if (icept) A.col(0).setOnes();
    Mat X;
    if (ortho) {
        for (int pass = 0; pass < 2; pass++) for (int j = 0; j <= m; j++) { for (int k = 0; k < j; k++) A.col(j) -= A.col(k) * (A.col(k).dot(A.col(j)) / A.col(k).squaredNorm()); A.col(j) *= std::sqrt(n) / A.col(j).norm(); }
        if (icept) A.col(0).setOnes();
    }
    X = A.rightCols(m);
    if (!ortho) { beta = 1; for (int j = 0; j < m; j++) beta = std::max(beta, X.col(j).squaredNorm() / n); beta *= 1 + choose(3, "slack"); }
    Vec w(m); for (int j = 0; j < m; j++) w(j) = (double)(int)r.below(17) / 4 - 2;
    Vec y = X * w; for (int i = 0; i < n; i++) y(i) += 0.1 * r.normal() + (icept ? 1.5 : 0);
    size_t T = ortho ? m + 1 + choose(40, "max_iter") : range(1, 60, "max_iter");
    Env e = choose_env(); set_env(e);
    set_console((int)choose(3, "console"), choose(64, "console.at")); heap_fill((int)choose(5, "fill"), 4);
    Vec coef; const Mat X0 = X; const Vec y0 = y;
    Outcome o = attempt([&] { openml::linear_model::LassoRegression<double> l(T, lam, beta, shuffle, verbose, icept); l.fit(X, y); coef = l.get_coef(); });
    if (!o.ok()) violate("C06:threw", "lasso threw: %s", o.what.c_str());
    if (!bit_equal(X, X0) || !bit_equal(y, y0)) violate("C06:data-modified", "the caller's data changed");
    int d = m + icept;
    if (coef.size() != d) violate("C06:shape", "%ld coefficients for %d", (long)coef.size(), d);
    Mat D(n, d); D.leftCols(m) = X; if (icept) D.col(m).setOnes();
    if (ortho) {
        Vec c = D.transpose() * y / n;
        for (int j = 0; j < d; j++) {
            double ex = soft(c(j), lam);
            if (std::fabs(std::fabs(c(j)) - lam) < 1e-9) continue;
            if (std::fabs(c(j)) < lam && coef(j) != 0) violate("C06:not-sparse", "coefficient %d is %.17g, |X'y/n| = %.6g is below lambda %g", j, coef(j), std::fabs(c(j)), lam);
            if (!close(coef(j), ex, 1e-9, 1e-9)) violate("C06:closed-form", "coefficient %d is %.17g, the L1 solution is %.17g", j, coef(j), ex);
        }
        count("closed forms compared");
    } else {
        Vec v = Vec::Zero(d); bool clear = true;
        auto obj = [&](const Vec& q) { return 0.5 * (D * q - y).squaredNorm() / n + lam * q.lpNorm<1>(); };
        double prev = obj(v);
        for (size_t t = 0; t < T && clear; t++) {
            Vec g = D.transpose() * (D * v - y) / n; double b1 = -1, b2 = -1, be = 0; int bj = 0;
            for (int j = 0; j < d; j++) { double et, ds; step_of(v(j), g(j), beta, lam, et, ds); if (ds > b1) { b2 = b1; b1 = ds; bj = j; be = et; } else if (ds > b2) b2 = ds; }
            if (b1 - b2 < 1e-7 * (1e-3 + b1)) { if (b1 > 1e-7) clear = false; else break; }
            v(bj) += be;
        }
        double got = obj(coef);
        if (got > prev + 1e-9) violate("C06:objective-rose", "lasso ended at objective %.12g, above the start %.12g", got, prev);
        if (clear && obj(v) < got - 1e-5 * (1 + got)) violate("C06:lasso-path", "lasso ended at objective %.12g, steepest coordinate descent reaches %.12g", got, obj(v));
        if (clear) count("reference descents compared");
    }
    heap_check(); nontrivial(); state(hmat(coef));
    event("n=%d m=%d T=%zu lam=%g beta=%g coef=%llx", n, m, T, lam, beta, (unsigned long long)hmat(coef));
    sample("lasso n=%d m=%d iterations=%zu lambda=%g %s", n, m, T, lam, ortho ? "orthonormal" : "general");
}
