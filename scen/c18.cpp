// C18: trained linear classifiers learn separable data for every start and shuffle.
#include "core.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "common.hpp"
using namespace sim;
using namespace openml::linear_model;

struct Res { Mat aprob; Vec alab; bool ok = false; std::string why; Vec lab, plab; Mat prob, pprob; Vec coef; };

SIM_SCENARIO("C18") {
    int model = (int)choose(6, "model");     // sgd sag lbfgs scd softmax perceptron
    static const char* mn[] = {"logistic/sgd", "logistic/sag", "logistic/lbfgs", "logistic/scd", "softmax", "perceptron"};
    const bool wide = choose(25, "wide") == 24;
    int m = wide ? range(4, 14, "m") : model == 4 ? range(2, 3, "m") : range(1, 3, "m");
    int K = model == 4 ? range(2, 4, "classes") : 2;
    int bs = model == 1 ? 8 : 4 << choose(3, "batch"); int n = bs * range(std::max(1, 16 / bs), std::max(2, (wide && model != 1 ? 240 : 40) / bs), "n");
    Rng r = data_rng("data");
    Mat X(n, m); Vec y(n); Vec u = rand_mat(r, m, 1); u.normalize();
    Mat ctr(K, m); double ph = r.uniform(0, 6.28);
    Vec off = rand_mat(r, m, 1); off *= 0.7 / std::max(1.0, off.norm());
    for (int c = 0; c < K; c++) { ctr.row(c).setZero(); ctr(c, 0) = 5 * std::cos(ph + 6.28318530718 * c / K); if (m > 1) ctr(c, 1) = 5 * std::sin(ph + 6.28318530718 * c / K); }
    for (int i = 0; i < n; i++) {
        int c = i < K ? i : (int)r.below(K); y(i) = c;
        Mat z = rand_mat(r, 1, m, 0.4); for (int j = 0; j < m; j++) z(j) = (wide ? 0.4 : 1.0) * std::max(-0.8, std::min(0.8, z(j)));
        if (model == 4) X.row(i) = ctr.row(c) + z;
        else { z -= (z * u)(0) * u.transpose(); X.row(i) = z + ((c ? 1 : -1) * (2 + r.uniform())) * u.transpose() + off.transpose(); }
        if (model == 5) y(i) = c ? 1 : -1;
    }
    double alpha = choose(2, "alpha") ? 1.0 : 0.5; if (model == 4) alpha *= 0.2; if (model == 5) alpha = 1;
    double lambda = model == 3 ? 1e-3 : choose(2, "lambda") ? 0.05 : 0; if (model == 5) lambda = 0;
    double tol = choose(2, "tol") ? 1e-3 : 1e-4;
    bool shuffle = choose(4, "no.shuffle") != 3, verbose = choose(2, "verbose");
    std::string ls = choose(2, "search") ? "bracketing" : "backtracking"; std::string cond = choose(2, "condition") ? "ARMIJO" : "WOLFE";
    size_t past = choose(2, "past") * 3;
    bool icept = true;
    const int np = choose(12, "crowd") == 11 ? range(60, 320, "points") : 24;
    Mat P(np, m); for (int i = 0; i < np; i++) { int a = (int)r.below(n), b = (int)r.below(n); double t = r.uniform(-0.5, 1.5); P.row(i) = X.row(a) + t * (X.row(b) - X.row(a)); if (i >= np - 8) P.row(i) *= std::pow(10.0, 1 + (int)r.below(i & 1 ? 6 : 10)); }   // the last ones lie far away
    Env e = choose_env(); set_env(e); heap_fill((int)choose(5, "fill"), 3); set_console((int)choose(3, "console"), choose(500, "console.at"));
    step_budget(3000000000ull);
    const Mat X0 = X; const Vec y0 = y;
    Res s;
    auto fit_all = [&](auto& c) { c.fit(X, y); };
    auto pred = [&](auto& c, bool prob) {
        (void)prob; s.lab = c.predict(X); s.plab = c.predict(P);
        s.alab.resize(np); for (int i = 0; i < np; i++) { Mat one = P.row(i); Vec l = c.predict(one); s.alab(i) = l(0); }   // each point asked for alone
    };
    auto alone = [&](auto& c) { s.aprob.resize(np, K); for (int i = 0; i < np; i++) { Mat one = P.row(i); Mat p = c.predict_prob(one); s.aprob.row(i) = p.row(0); } };
    bool trained = false;
    Outcome o = attempt([&] {
        if (model <= 3) {
            LogisticRegression<double> a = model <= 1 ? LogisticRegression<double>(alpha, lambda, tol, bs, 2000, 5, model == 0 ? "sgd" : "sag", "l2", shuffle, verbose)
                : model == 2 ? LogisticRegression<double>(1e-4, 1e-4, 1e-6, 0.9, 100, 8, past, 40, "lbfgs", "l2", ls, cond, shuffle, verbose)
                : LogisticRegression<double>(lambda, 4.0, 1500, "scd", "l1", shuffle, verbose);
            fit_all(a); trained = true; pred(a, true); s.prob = a.predict_prob(X); s.pprob = a.predict_prob(P); alone(a); s.coef = a.get_coef();
        } else if (model == 4) {
            SoftmaxRegression<double> a(alpha, lambda, tol, bs, 2000, 5, "sgd", "l2", shuffle, verbose);
            fit_all(a); trained = true; pred(a, true); s.prob = a.predict_prob(X); s.pprob = a.predict_prob(P); alone(a);
        } else {
            Perceptron<double> a(alpha, lambda, tol, bs, 2000, 5, "None", icept, shuffle, verbose);
            fit_all(a); trained = true; pred(a, false); s.coef = a.get_coef();
        }
    });
    char cfg[200]; snprintf(cfg, sizeof cfg, "%s n=%d m=%d classes=%d batch=%d alpha=%g lambda=%g tol=%g shuffle=%d", mn[model], n, m, K, bs, alpha, lambda, tol, shuffle);
    if (o.kind == Outcome::BAD_ALLOC) violate("C18:threw", "%s: out of memory without a fault", cfg);
    if (trained && !o.ok()) violate("C18:threw", "%s: predicting on a trained model threw %s", cfg, o.what.c_str());
    if (!bit_equal(X, X0) || !bit_equal(y, y0)) violate("C18:data-modified", "%s: the training data changed", cfg);
    uint64_t h = hmat(s.lab, hmat(s.pprob));
    event("%s ok=%d h=%llx coef=%llx", cfg, o.ok(), (unsigned long long)h, (unsigned long long)hmat(s.coef));
    state(hmix(h, hmat(s.coef, hmat(X)))); nontrivial(); sample("%s", cfg);
    if (!o.ok()) violate("C18:gave-up", "%s: training on well separated classes ended with '%s'", cfg, o.what.c_str());
    count(std::string(std::string("trained ") + mn[model]).c_str());
    if (s.lab.size() != n || s.plab.size() != np) violate("C18:shape", "%s: %ld labels", cfg, (long)s.lab.size());
    for (int i = 0; i < n; i++) { double ex = model == 5 ? (y(i) > 0) : y(i); if (s.lab(i) != ex) violate("C18:misclassified", "%s: training row %d of class %g labelled %g after a successful training", cfg, i, ex, s.lab(i)); }
    for (int i = 0; i < np; i++) if (!(s.plab(i) >= 0 && s.plab(i) < K && s.plab(i) == std::floor(s.plab(i)))) violate("C18:label", "%s: label %g", cfg, s.plab(i));
    for (int i = 0; i < np; i++) {
        if (model != 5 && !(max_abs(s.aprob.row(i) - s.pprob.row(i)) <= 1e-9)) violate("C18:company", "%s: probabilities %s asked for alone, %s among others", cfg, show(s.aprob.row(i)).c_str(), show(s.pprob.row(i)).c_str());
        bool tie = model != 5 && std::fabs(s.pprob(i, (int)s.plab(i)) - s.pprob(i, (int)s.alab(i))) <= 1e-9;
        if (s.alab(i) != s.plab(i) && !tie && model != 5) violate("C18:company", "%s: label %g alone, %g among others", cfg, s.alab(i), s.plab(i));
    }
    if (model != 5) for (int q = 0; q < 2; q++) {
        const Mat& p = q ? s.pprob : s.prob; const Vec& l = q ? s.plab : s.lab;
        if (p.rows() != l.size() || p.cols() != K) violate("C18:shape", "%s: probabilities %s", cfg, shape(p).c_str());
        for (int i = 0; i < p.rows(); i++) {
            if (!(p.row(i).minCoeff() >= 0 && p.row(i).maxCoeff() <= 1 + 1e-12)) violate("C18:probability", "%s: probabilities %s", cfg, show(p.row(i)).c_str());
            if (std::fabs(p.row(i).sum() - 1) > 1e-9) violate("C18:probability", "%s: probabilities %s do not sum to one", cfg, show(p.row(i)).c_str());
            if (p(i, (int)l(i)) < p.row(i).maxCoeff() - 1e-9) violate("C18:disagree", "%s: label %g with probabilities %s", cfg, l(i), show(p.row(i)).c_str());
        }
    }
    heap_check();
}

// strongly regularised problems: one optimum from every start and order
SIM_SCENARIO("C18.optimum") {
    int model = (int)choose(3, "model");   // sgd sag softmax
    int m = range(1, 3, "m"), K = model == 2 ? range(2, 3, "classes") : 2;
    int bs = range(8, 40, "batch"), n = bs;   // full batches: with smaller ones the decaying steps freeze wherever the noise put them
    Rng r = data_rng("data"); Mat X = rand_mat(r, n, m); Vec y(n); for (int i = 0; i < n; i++) y(i) = i < K ? i : (int)r.below(K);
    for (int i = 0; i < X.size(); i++) X(i) = std::max(-1.5, std::min(1.5, X(i)));
    if (choose(2, "off.centre")) for (int j = 0; j < m; j++) X.col(j).array() += r.uniform(-0.5, 0.5);
    double mu = 0.8 + 0.4 * r.uniform(), lambda = mu * bs, alpha = 0.5;
    if (model == 1) alpha *= bs;           // the aggregate is divided by the batch size
    alpha = std::min(alpha, model == 1 ? 0.5 * bs : 0.5);
    Mat P = rand_mat(r, 16, m);
    step_budget(3000000000ull);
    Mat L[2], W[2]; Vec coef[2]; std::string why;
    for (int t = 0; t < 2; t++) {
        Env e = choose_env(); set_env(e); heap_fill((int)choose(5, "fill"), t); set_console((int)choose(3, "console"), 100);
        Outcome o = attempt([&] {
            if (model < 2) { LogisticRegression<double> a(alpha, lambda, 1e-12, bs, 400, 5, model ? "sag" : "sgd", "l2", choose(2, "shuffle"), false); a.fit(X, y); coef[t] = a.get_coef(); L[t] = a.predict_prob(P); }
            else { SoftmaxRegression<double> a(alpha, lambda, 1e-12, bs, 400, 5, "sgd", "l2", choose(2, "shuffle"), false); a.fit(X, y); W[t] = a.get_coef(); L[t] = a.predict_prob(P); }
        });
        if (o.kind == Outcome::BAD_ALLOC) violate("C18:threw", "out of memory without a fault");
        if (!o.ok()) violate("C18:gave-up", "a strongly regularised problem of %d rows ended with '%s'", n, o.what.c_str());
    }
    char cfg[160]; snprintf(cfg, sizeof cfg, "%s n=%d m=%d batch=%d mu=%.3g alpha=%.3g", model == 2 ? "softmax" : model ? "logistic/sag" : "logistic/sgd", n, m, bs, mu, alpha);
    double tol = 2e-3;
    double d = max_abs(L[0] - L[1]);
    event("%s d=%.17g", cfg, d);
    if (!(d <= tol)) violate("C18:start-dependent", "%s: two starts and orders give probabilities %g apart", cfg, d);
    if (model < 2) {
        if (!(max_abs(coef[0] - coef[1]) <= 2 * tol)) violate("C18:start-dependent", "%s: weights %s and %s", cfg, show(coef[0].transpose()).c_str(), show(coef[1].transpose()).c_str());
        Mat D(n, m + 1); D.leftCols(m) = X; D.col(m).setOnes();
        Vec z = D * coef[0], g = D.transpose() * ((1 / (1 + (-z.array()).exp())).matrix() - y) / n + mu * coef[0];
        if (!(max_abs(g) <= 2 * tol)) violate("C18:no-optimum", "%s: gradient %s at the trained weights", cfg, show(g.transpose()).c_str());
    }
    else {
        if (W[0].rows() != m + 1 || W[0].cols() != K) violate("C18:shape", "%s: softmax weights %s", cfg, shape(W[0]).c_str());
        Mat D(n, m + 1); D.leftCols(m) = X; D.col(m).setOnes();
        Mat p = D * W[0]; for (int i = 0; i < n; i++) { double mx = p.row(i).maxCoeff(), sum = 0; for (int k = 0; k < K; k++) sum += p(i, k) = std::exp(p(i, k) - mx); p.row(i) /= sum; p(i, (int)y(i)) -= 1; }
        Mat g = D.transpose() * p / n + mu * W[0];
        if (!(max_abs(g) <= 2 * tol)) violate("C18:no-optimum", "%s: gradient %s at the trained weights", cfg, show(g).c_str());
    }
    count("optima compared"); heap_check(); nontrivial(); state(hmat(L[0], hmat(X))); sample("%s", cfg);
}
