// C09: Gaussian mixtures are valid, converged and best of restarts.
#include "core.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "common.hpp"
using namespace sim;
typedef openml::mixture_model::GaussianMixture<double> GM;

struct Params { Vec w; Mat mu; std::vector<Mat> S, P, PC; double lb = 0; };
static Params params_of(const GM& g) {
    Params p;
    Outcome o = attempt([&] { p.w = g.get_weights(); p.mu = g.get_means(); p.S = g.get_covariance(); p.P = g.get_precisions(); p.PC = g.get_precisions_cholesky(); p.lb = g.get_lower_bound(); });
    if (!o.ok()) violate("C09:threw", "reading the parameters threw: %s", o.what.c_str());
    return p;
}
static Mat joint(const Vec& w, const Mat& mu, const std::vector<Mat>& S, const Mat& X) {
    int k = (int)mu.rows(), m = (int)X.cols(); Mat L(X.rows(), k);
    for (int c = 0; c < k; c++) {
        Eigen::LLT<Mat> llt(S[S.size() == 1 ? 0 : c]); Mat l = llt.matrixL(); double ld = l.diagonal().array().log().sum();
        for (int i = 0; i < X.rows(); i++) { Vec d = (X.row(i) - mu.row(c)).transpose(); Vec z = l.triangularView<Eigen::Lower>().solve(d); L(i, c) = std::log(w(c)) - 0.5 * m * std::log(2 * M_PI) - ld - 0.5 * z.squaredNorm(); }
    }
    return L;
}
static Vec lse(const Mat& L) { Vec v(L.rows()); for (int i = 0; i < L.rows(); i++) { double mx = L.row(i).maxCoeff(); v(i) = mx + std::log((L.row(i).array() - mx).exp().sum()); } return v; }
// reference EM from given responsibilities
struct Ref { bool conv = false; size_t iters = 0; Params p; };
static void m_step(const Mat& X, const Mat& R, bool tied, double reg, Params& p) {
    int k = (int)R.cols(), n = (int)X.rows(), m = (int)X.cols();
    Vec nk = R.colwise().sum().transpose().array() + 10 * 2.220446049250313e-16;
    p.mu = R.transpose() * X; for (int c = 0; c < k; c++) p.mu.row(c) /= nk(c);
    p.S.clear(); Mat T = Mat::Zero(m, m);
    for (int c = 0; c < k; c++) { Mat D = X.rowwise() - p.mu.row(c); Mat C = D.transpose() * R.col(c).asDiagonal() * D; T += C; p.S.push_back(C / nk(c) + reg * Mat::Identity(m, m)); }
    if (tied) p.S = {Mat(T / nk.sum() + reg * Mat::Identity(m, m))};
    p.w = nk / n;
}
static Ref em(const Mat& X, Mat R, size_t T, double tol, bool tied, double reg) {
    Ref f; m_step(X, R, tied, reg, f.p); double lb = -INFINITY;
    for (f.iters = 0; f.iters < T; f.iters++) {
        Mat L = joint(f.p.w, f.p.mu, f.p.S, X); Vec z = lse(L); R = (L.colwise() - z).array().exp();
        m_step(X, R, tied, reg, f.p);
        double prev = lb; lb = z.mean();
        if (std::fabs(lb - prev) < tol) { f.conv = true; break; }
    }
    f.p.lb = lb; return f;
}
static bool near(const Params& a, const Params& b, double e, double scale) {
    if (!close(a.lb, b.lb, 0, e) || !close(a.w, b.w, 0, e) || !close(a.mu, b.mu, 0, e * scale) || a.S.size() != b.S.size()) return false;
    for (size_t c = 0; c < a.S.size(); c++) if (!close(a.S[c], b.S[c], 0, e * scale * scale)) return false;
    return true;
}

SIM_SCENARIO("C09") {
    uint64_t big = choose(120, "big"); int k = range(1, big == 118 ? 8 : 4, "k"), m = big == 117 ? range(4, 7, "m") : range(1, 3, "m"), n = k + (big == 119 ? range(100, 320, "n") : range(2, 40, "n"));
    bool tied = choose(2, "tied");
    Rng r = data_rng("data");
    double sep = choose(3, "separation") * 3.0, scale = choose(4, "scale") == 3 ? 100 : 1;
    Mat ctr = rand_mat(r, k, m, sep); Mat X(n, m);
    for (int i = 0; i < n; i++) X.row(i) = (ctr.row(r.below(k)) + Mat(rand_mat(r, 1, m))) * scale;
    static const double tols[] = {1e-3, 1e-2, 1e-5}; double tol = tols[choose(3, "tol")];
    static const double regs[] = {1e-6, 1e-2}; double reg = regs[choose(2, "reg")] * (scale > 1 ? 100 : 1);
    size_t T = choose(3, "iter.kind") == 0 ? 300 : range(0, 25, "max_iter");
    int R = range(1, 4, "restarts");
    Env e = choose_env(); heap_fill((int)choose(5, "fill"), 2); set_console((int)choose(3, "console"), 3);
    const Mat X0 = X;
    // single restarts drawing from the same entropy in turn
    std::vector<double> single; int conv = 0; double best = -INFINITY;
    set_env(e);
    GM one(T, 1, k, "random", tied ? "tied" : "full", tol, reg);
    for (int q = 0; q < R; q++) {
        Outcome o = attempt([&] { one.fit(X); });
        if (o.kind == Outcome::BAD_ALLOC) violate("C09:threw", "out of memory without a fault");
        if (o.ok()) { conv++; single.push_back(one.get_lower_bound()); best = std::max(best, single.back()); }
    }
    uint64_t draws = env_use().entropy;
    Env e2 = e; e2.clk_base += 999; e2.rnd_seed ^= 3; set_env(e2); heap_fill((int)choose(5, "fill2"), 3);
    GM g(T, R, k, "random", tied ? "tied" : "full", tol, reg);
    Outcome o = attempt([&] { g.fit(X); });
    if (!bit_equal(X, X0)) violate("C09:data-modified", "the data changed");
    if (o.kind == Outcome::BAD_ALLOC) violate("C09:threw", "out of memory without a fault");
    char cfg[160]; snprintf(cfg, sizeof cfg, "%s k=%d m=%d n=%d max_iter=%zu tol=%g reg=%g restarts=%d", tied ? "tied" : "full", k, m, n, T, tol, reg, R);
    event("%s conv=%d/%d ok=%d draws=%llu", cfg, conv, R, o.ok(), (unsigned long long)draws);
    if (T < 2 && o.ok()) violate("C09:not-converged", "%s: reported success although no two bounds could be compared", cfg);
    if (o.ok() != (conv > 0)) violate(o.ok() ? "C09:false-success" : "C09:false-failure", "%s: %d of the %d restarts converge, the fit %s", cfg, conv, R, o.ok() ? "succeeded" : o.what.c_str());
    // the reference, from the responsibilities the same entropy gives, unless rounding can steer it elsewhere
    bool stable = true; Params ref; double bb = -INFINITY, second = -INFINITY; size_t its = 0; int nc = 0;
    {
        set_env(e); std::vector<Mat> R0;
        for (int q = 0; q < R; q++) { Mat u; attempt([&] { u = openml::random::rand<Mat>(n, k); }); Vec s = u.rowwise().sum(); for (int i = 0; i < n; i++) u.row(i) /= s(i); R0.push_back(u); }
        for (int q = 0; q < R && stable; q++) {
            Ref f = em(X, R0[q], T, tol, tied, reg);
            for (int t = 0; t < 2; t++) {
                Mat u = R0[q]; for (int i = 0; i < u.size(); i++) u(i) *= 1 + 1e-11 * r.normal();
                Vec s = u.rowwise().sum(); for (int i = 0; i < n; i++) u.row(i) /= s(i);
                Ref g2 = em(X, u, T, tol, tied, reg);
                if (g2.conv != f.conv || g2.iters != f.iters || !near(f.p, g2.p, 1e-7, scale)) stable = false;
            }
            if (!f.conv) continue;
            nc++;
            if (f.p.lb > bb) { second = bb; bb = f.p.lb; ref = f.p; its = f.iters; } else second = std::max(second, f.p.lb);
        }
        if (stable && o.ok() != (nc > 0)) violate(o.ok() ? "C09:false-success" : "C09:false-failure", "%s: expectation maximisation converges from %d of the %d starts, the fit %s", cfg, nc, R, o.ok() ? "succeeded" : o.what.c_str());
        if (stable && conv != nc) violate("C09:false-failure", "%s: expectation maximisation converges from %d of the %d starts, single fits from %d of them", cfg, nc, R, conv);
    }
    if (!o.ok()) { count("fits that did not converge"); nontrivial(); state(hmix(7, n)); return; }
    Params p = params_of(g);
    if (p.w.size() != k || p.mu.rows() != k || p.mu.cols() != m || p.S.size() != (tied ? 1u : k) || p.P.size() != p.S.size() || p.PC.size() != p.S.size()) violate("C09:shape", "%s: %ld weights, %s means, %zu covariances, %zu precisions", cfg, (long)p.w.size(), shape(p.mu).c_str(), p.S.size(), p.P.size());
    if (!(p.w.array() >= 0).all() || std::fabs(p.w.sum() - 1) > 1e-9) violate("C09:weights", "%s: weights %s", cfg, show(p.w.transpose()).c_str());
    double cond = 1;
    for (size_t c = 0; c < p.S.size(); c++) {
        const Mat& S = p.S[c]; if (S.rows() != m || S.cols() != m || p.P[c].rows() != m || p.P[c].cols() != m) violate("C09:shape", "%s: covariance %s", cfg, shape(S).c_str());
        if (!S.allFinite() || max_abs(S - S.transpose()) > 1e-9 * max_abs(S)) violate("C09:not-symmetric", "%s: covariance %s", cfg, show(S).c_str());
        Eigen::SelfAdjointEigenSolver<Mat> es(S); double lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
        if (!(lo > 0)) violate("C09:not-pd", "%s: covariance eigenvalue %g", cfg, lo);
        cond = std::max(cond, hi / lo);
        if (max_abs(p.P[c] * S - Mat::Identity(m, m)) > 1e-10 * (hi / lo) + 1e-9) violate("C09:precision", "%s: precision %zu is no inverse of its covariance (off by %g)", cfg, c, max_abs(p.P[c] * S - Mat::Identity(m, m)));
        if (!close(p.PC[c] * p.PC[c].transpose(), p.P[c], 1e-8, 1e-9 * max_abs(p.P[c]))) violate("C09:precision", "%s: precision Cholesky factor disagrees with the precision", cfg);
    }
    // any M step preserves the first two moments of the data
    {
        Eigen::RowVectorXd mean = Eigen::RowVectorXd::Zero(m); Mat sec = Mat::Zero(m, m);
        for (int c = 0; c < k; c++) { mean += p.w(c) * p.mu.row(c); sec += p.w(c) * (p.S[tied ? 0 : c] - reg * Mat::Identity(m, m) + p.mu.row(c).transpose() * p.mu.row(c)); }
        Mat s2 = X.transpose() * X / n;
        if (max_abs(mean - X.colwise().mean()) > 1e-8 * (1 + max_abs(X))) violate("C09:moments", "%s: mixture mean %s, data mean %s", cfg, show(mean).c_str(), show(X.colwise().mean()).c_str());
        if (max_abs(sec - s2) > 1e-8 * (1 + max_abs(s2))) violate("C09:moments", "%s: mixture second moment %s, data %s", cfg, show(sec).c_str(), show(s2).c_str());
    }
    double err = 1e-9 + 1e-13 * cond;
    if (stable && bb - second > 1e-7 && nc) {
        if (!close(p.lb, ref.lb, 0, 1e-5)) violate("C09:lower-bound", "%s: lower bound %.10g, expectation maximisation from the same start reaches %.10g after %zu steps", cfg, p.lb, ref.lb, its + 1);
        if (!near(p, ref, 1e-5, scale)) violate("C09:not-em", "%s: means %s, expectation maximisation from the same start gives %s", cfg, show(p.mu).c_str(), show(ref.mu).c_str());
        count("fits compared with reference EM");
    }
    if (p.lb < best - 1e-9 * (1 + std::fabs(best)) - err) violate("C09:not-best", "%s: lower bound %.10g, a single restart reaches %.10g", cfg, p.lb, best);
    if (std::fabs(p.lb - best) > 1e-6 * (1 + std::fabs(best)) + err) violate("C09:not-a-restart", "%s: lower bound %.10g is that of no converged restart (best %.10g)", cfg, p.lb, best);
    if (R > 1) count("restarts compared", R);
    // posterior
    Mat P(20, m); for (int i = 0; i < 20; i++) P.row(i) = i < 10 ? Mat(X.row(r.below(n))) : Mat(rand_mat(r, 1, m, i < 16 ? 5 * scale : 200 * scale));
    Mat pr; Vec lab;
    o = attempt([&] { pr = g.predict_prob(P); lab = g.predict(P); });
    if (!o.ok()) violate("C09:threw", "%s: predicting threw: %s", cfg, o.what.c_str());
    if (pr.rows() != 20 || pr.cols() != k || lab.size() != 20) violate("C09:shape", "%s: probabilities %s", cfg, shape(pr).c_str());
    Mat L = joint(p.w, p.mu, p.S, P); Vec z = lse(L); Mat ex = (L.colwise() - z).array().exp();
    for (int i = 0; i < 20; i++) {
        double perr = 1e-8 + 1e-12 * cond + 1e-13 * L.row(i).cwiseAbs().maxCoeff() * std::min(cond, 1e6);
        if (std::fabs(pr.row(i).sum() - 1) > 1e-8 + perr * 1e-2) violate("C09:probability-sum", "%s: probabilities sum to %.12g", cfg, pr.row(i).sum());
        if (perr < 1e-3 && max_abs(pr.row(i) - ex.row(i)) > perr) violate("C09:posterior", "%s: probabilities %s, the posterior is %s", cfg, show(pr.row(i)).c_str(), show(ex.row(i)).c_str());
        int l = (int)lab(i); if (!(lab(i) >= 0 && lab(i) < k && lab(i) == l)) violate("C09:label", "%s: label %g", cfg, lab(i));
        if (pr(i, l) < pr.row(i).maxCoeff() - 1e-9) violate("C09:label", "%s: label %d with probabilities %s", cfg, l, show(pr.row(i)).c_str());
    }
    count("fits checked"); heap_check(); nontrivial();
    state(hmat(p.mu, hmat(X)));
    event("lb=%.17g mu=%llx", p.lb, (unsigned long long)hmat(p.mu));
    sample("%s entropy mode %d", cfg, e.ent_mode);
}
