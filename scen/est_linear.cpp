// Linear models behind the common interface.
#include "core.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "est.hpp"
using namespace openml::linear_model;
using gen::pick;
using sim::Rng;

namespace {
typedef LogisticRegression<double> Log;                // its L-BFGS solver does not exist in single precision

struct LinS {
    template <template <class> class M, class T> static void fit(M<T>& m, const Data& d) { m.fit(in<T>(d.X), in<T>(d.y)); }
    template <template <class> class M, class T> static void query(const M<T>& m, int q, const Data& d, Ans& out) { if (q == 0) put(out, m.predict(in<T>(d.P))); else put(out, m.get_coef()); }
};
void gen_reg(uint64_t, Rng& r, Data& d) { int m = pick(r, 1, 4); gen::common(r, d, pick(r, m + 3, 24), m); d.y = d.X * rand_mat(r, m, 1) + 0.3 * rand_mat(r, d.X.rows(), 1); }
struct RegSet { double lambda, l1; bool icept, shuffle; size_t iter; explicit RegSet(uint64_t s) { Rng r(s); lambda = 0.05 + r.uniform(); l1 = r.uniform(); icept = r.below(2); shuffle = r.below(2); iter = 1 + r.below(12); if (r.below(8) == 7) iter = 100 + r.below(120); } };
Kind k_lin{"linear regression", {"predict", "get_coef"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<LinearRegression, LinS>(s); return mk_t<LinearRegression, LinS>(s, RegSet(s).icept); }, gen_reg,
    [](uint64_t s) { return std::string(RegSet(s).icept ? "intercept" : "no intercept") + gen::prec(s); }};
Kind k_rid{"ridge regression", {"predict", "get_coef"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<RidgeRegression, LinS>(s); RegSet c(s); return mk_t<RidgeRegression, LinS>(s, c.lambda, c.icept); }, gen_reg,
    [](uint64_t s) { RegSet c(s); return "lambda=" + std::to_string(c.lambda) + (c.icept ? " intercept" : "") + gen::prec(s); }};
Kind k_las{"lasso", {"predict", "get_coef"}, false, true, true, true,
    [](uint64_t s, bool v) -> Est* { if (gen::dflt(s, 64)) return mk_t<LassoRegression, LinS>(s); RegSet c(s); return mk_t<LassoRegression, LinS>(s, c.iter, c.lambda, c.l1, c.shuffle, v, c.icept); }, gen_reg,
    [](uint64_t s) { RegSet c(s); return "lambda=" + std::to_string(c.lambda) + " iterations=" + std::to_string(c.iter) + (c.shuffle ? " shuffled" : "") + gen::prec(s); }};

struct ClsSet {
    double alpha, lambda, tol; size_t bs, iter, patience, mem, past; bool shuffle, icept; int search, cond;
    explicit ClsSet(uint64_t s) { Rng r(s); alpha = 0.05 + 0.5 * r.uniform(); lambda = r.below(2) ? 0.1 : 0; tol = r.below(4) ? 5 : 1e-3; bs = 1 + r.below(6); iter = 4 + r.below(16); patience = 1 + r.below(4);
        mem = 1 + r.below(6); past = r.below(2) * 2; shuffle = r.below(4) != 0; icept = r.below(4) != 0; search = (int)r.below(2); cond = (int)r.below(2); }
};
std::string dcls(uint64_t s) { ClsSet c(s); if (gen::dflt(s, 64)) return "default constructor"; char b[160]; snprintf(b, sizeof b, "batch=%zu epochs=%zu alpha=%.3g lambda=%g tol=%g patience=%zu%s", c.bs, c.iter, c.alpha, c.lambda, c.tol, c.patience, c.shuffle ? " shuffled" : ""); return b; }
void gen_bin(uint64_t s, Rng& r, Data& d) { ClsSet c(s); gen::common(r, d, gen::dflt(s, 64) ? pick(r, 32, 40) : pick(r, std::max<int>(c.bs, 3), 26), pick(r, 1, 4)); gen::labels(r, d, 2); }
struct LogS {
    static void fit(Log& m, const Data& d) { m.fit(d.X, d.y); }
    static void query(const Log& m, int q, const Data& d, Ans& out) { if (q == 0) out.push_back(m.predict(d.P)); else if (q == 1) out.push_back(m.predict_prob(d.P)); else out.push_back(m.get_coef()); }
};
template <int V> Est* mk_log(uint64_t s, bool v) {
    ClsSet c(s);
    if (V == 1 && gen::dflt(s, 64)) return new Wrap<Log, LogS>(Log());
    if (V == 0 || V == 1) return new Wrap<Log, LogS>(Log(c.alpha, c.lambda, c.tol, c.bs, c.iter, c.patience, V ? "sag" : "sgd", "l2", c.shuffle, v));
    if (V == 2) return new Wrap<Log, LogS>(Log(1e-4, 1e-4, 1e-6, 0.9, c.iter, c.mem, c.past, 30, "lbfgs", "l2", c.search ? "bracketing" : "backtracking", c.cond ? "ARMIJO" : "WOLFE", c.shuffle, v));
    return new Wrap<Log, LogS>(Log(0.01 + c.lambda, 4.0, c.iter % 8 == 7 ? c.iter * 16 : c.iter, "scd", "l1", c.shuffle, v));
}
Kind k_sgd{"logistic regression (sgd)", {"predict", "predict_prob", "get_coef"}, false, true, true, true, mk_log<0>, gen_bin, dcls};
Kind k_sag{"logistic regression (sag)", {"predict", "predict_prob", "get_coef"}, false, true, true, true, mk_log<1>, gen_bin, dcls};
Kind k_lbf{"logistic regression (lbfgs)", {"predict", "predict_prob", "get_coef"}, false, true, true, true, mk_log<2>, gen_bin, dcls};
Kind k_scd{"logistic regression (scd)", {"predict", "predict_prob", "get_coef"}, false, true, true, true, mk_log<3>, gen_bin, dcls};

void gen_sof(uint64_t s, Rng& r, Data& d) { ClsSet c(s); int K = pick(r, 2, 4); gen::common(r, d, pick(r, std::max<int>(c.bs, 5), 26), pick(r, 1, 4)); gen::labels(r, d, K); }
struct SofS {
    template <class T> static void fit(SoftmaxRegression<T>& m, const Data& d) { m.fit(in<T>(d.X), in<T>(d.y)); }
    template <class T> static void query(const SoftmaxRegression<T>& m, int q, const Data& d, Ans& out) { if (q == 0) put(out, m.predict(in<T>(d.P))); else if (q == 1) put(out, m.predict_prob(in<T>(d.P))); else put(out, m.get_coef()); }
};
Kind k_sof{"softmax regression", {"predict", "predict_prob", "get_coef"}, false, true, true, true,
    [](uint64_t s, bool v) -> Est* { if (gen::dflt(s, 64)) return mk_t<SoftmaxRegression, SofS>(s); ClsSet c(s); return mk_t<SoftmaxRegression, SofS>(s, c.alpha, c.lambda, c.tol, c.bs, c.iter, c.patience, "sgd", "l2", c.shuffle, v); }, gen_sof, [](uint64_t s) { return dcls(s) + gen::prec(s); }};
void gen_per(uint64_t s, Rng& r, Data& d) { gen_bin(s, r, d); for (int i = 0; i < d.y.size(); i++) d.y(i) = d.y(i) > 0 ? 1 : -1; }
Kind k_per{"perceptron", {"predict", "get_coef"}, false, true, true, true,
    [](uint64_t s, bool v) -> Est* { if (gen::dflt(s, 64)) return mk_t<Perceptron, LinS>(s); ClsSet c(s); static const char* pen[] = {"None", "l2", "l1"}; return mk_t<Perceptron, LinS>(s, c.alpha, c.lambda, c.tol, c.bs, c.iter, c.patience, pen[s % 3], c.icept, c.shuffle, v); }, gen_per, [](uint64_t s) { return dcls(s) + gen::prec(s); }};
RegKind r1(&k_lin), r2(&k_rid), r3(&k_las), r4(&k_sgd), r5(&k_sag), r6(&k_lbf), r7(&k_scd), r8(&k_sof), r9(&k_per);
}
