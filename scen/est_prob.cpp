// Naive Bayes, trees, clustering and mixtures behind the common interface.
#include "core.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
#include "methods/cluster/kmeans.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "est.hpp"
using gen::pick;
using sim::Rng;

namespace {
// Class labels need not be 0, 1, 2, ...: rarely one class only, labels starting at 1, or with gaps.
void relabel(Rng& r, Data& d) {
    uint64_t how = r.below(12);
    if (how == 0) d.y.setConstant((double)r.below(4));
    else if (how == 1) d.y.array() += 1.0;
    else if (how == 2) d.y = (d.y.array() * 2.0).matrix();
    else if (how == 3) d.y = (d.y.array() > 0.5).select(Vec::Constant(d.y.size(), 3.0), Vec::Constant(d.y.size(), (double)r.below(3)));
}
int km_k(uint64_t s) { return 2 + s / 2 % 3 + (s / 512 % 8 == 7 ? 3 : 0); }
using openml::naive_bayes::GaussianNB; using openml::naive_bayes::MultinomialNB;
struct NBS {
    template <template <class> class M, class T> static void fit(M<T>& m, const Data& d) { m.fit(in<T>(d.X), in<T>(d.y)); }
    template <template <class> class M, class T> static void base(const M<T>& m, int q, const Data& d, Ans& out) {
        switch (q) { case 0: put(out, m.predict(in<T>(d.P))); break; case 1: put(out, m.predict_prob(in<T>(d.P))); break; case 2: put(out, m.predict_log_prob(in<T>(d.P))); break;
            case 3: put(out, m.get_prior_prob()); break; case 4: put(out, m.get_classes()); break; }
    }
    template <class T> static void query(const MultinomialNB<T>& m, int q, const Data& d, Ans& out) { base(m, q, d, out); }
    template <class T> static void query(const GaussianNB<T>& m, int q, const Data& d, Ans& out) { if (q < 5) base(m, q, d, out); else if (q == 5) put(out, m.get_mean()); else put(out, m.get_var()); }
};
void gen_cls(uint64_t, Rng& r, Data& d) { int K = pick(r, 2, 4); gen::common(r, d, pick(r, 2 * K + 1, 24), pick(r, 1, 4)); gen::labels(r, d, K); for (int i = 0; i < 2 * K && i < d.y.size(); i++) d.y(i) = i % K; relabel(r, d); }
void gen_cnt(uint64_t, Rng& r, Data& d) { int K = pick(r, 2, 4), m = pick(r, 2, 5); d.salt = r.next(); d.X = rand_grid(r, gen::grow(r, pick(r, 2 * K, 24)), m, 0, 6); d.P = rand_grid(r, pick(r, 1, 5), m, 0, 6); d.y.resize(d.X.rows()); for (int i = 0; i < d.y.size(); i++) d.y(i) = i < 2 * K ? i % K : (int)r.below(K); relabel(r, d); }
Kind k_gnb{"Gaussian naive Bayes", {"predict", "predict_prob", "predict_log_prob", "get_prior_prob", "get_classes", "get_mean", "get_var"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { return s % 2 ? mk_t<GaussianNB, NBS>(s) : mk_t<GaussianNB, NBS>(s, 1e-3); }, gen_cls, [](uint64_t s) { return std::string(s % 2 ? "default" : "var_smoothing=1e-3") + gen::prec(s); }};
Kind k_mnb{"multinomial naive Bayes", {"predict", "predict_prob", "predict_log_prob", "get_prior_prob", "get_classes"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { return s % 2 ? mk_t<MultinomialNB, NBS>(s) : mk_t<MultinomialNB, NBS>(s, 0.3); }, gen_cnt, [](uint64_t s) { return std::string(s % 2 ? "default" : "alpha=0.3") + gen::prec(s); }};

using openml::decision_tree::DecisionTreeClassifier; using openml::decision_tree::DecisionTreeRegressor;
struct DTS {
    template <template <class> class M, class T> static void fit(M<T>& m, const Data& d) { m.fit(in<T>(d.X), in<T>(d.y)); }
    template <class T> static void query(const DecisionTreeClassifier<T>& m, int q, const Data& d, Ans& out) { if (q == 0) put(out, m.predict(in<T>(d.P))); else put(out, m.predict_prob(in<T>(d.P))); }
    template <class T> static void query(const DecisionTreeRegressor<T>& m, int, const Data& d, Ans& out) { put(out, m.predict(in<T>(d.P))); }
};
void gen_tree(uint64_t, Rng& r, Data& d) { int K = pick(r, 2, 4), m = pick(r, 1, 3); d.salt = r.next(); d.X = rand_grid(r, gen::grow(r, pick(r, 6, 20)), m, 0, 5); d.P = rand_grid(r, gen::grow(r, pick(r, 1, 6)), m, -1, 6); d.y.resize(d.X.rows()); for (int i = 0; i < d.y.size(); i++) d.y(i) = i < K ? i : (int)d.X(i, 0) % K; relabel(r, d); }
void gen_treg(uint64_t s, Rng& r, Data& d) { gen_tree(s, r, d); for (int i = 0; i < d.y.size(); i++) d.y(i) = std::pow(9.0, d.X(i, 0)) * (1 + 0.001 * r.uniform()); }
Kind k_dtc{"decision tree classifier", {"predict", "predict_prob"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<DecisionTreeClassifier, DTS>(s); return mk_t<DecisionTreeClassifier, DTS>(s, s % 2 ? "gini" : "entropy", 2 + s / 2 % 3, s / 30 % 4, 1 + s / 6 % 5, 1e-7); }, gen_tree, [](uint64_t s) { return std::string(s % 2 ? "gini" : "entropy") + " depth=" + std::to_string(1 + s / 6 % 5) + gen::prec(s); }};
Kind k_dtr{"decision tree regressor", {"predict"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<DecisionTreeRegressor, DTS>(s); return mk_t<DecisionTreeRegressor, DTS>(s, s % 2 ? "squared_error" : "absolute_error", 2 + s / 2 % 3, s / 30 % 4, 1 + s / 6 % 5, 1e-7, 1e-3); }, gen_treg, [](uint64_t s) { return std::string(s % 2 ? "squared_error" : "absolute_error") + " depth=" + std::to_string(1 + s / 6 % 5) + gen::prec(s); }};

using openml::cluster::KMeans;
struct KMS {
    template <class T> static void fit(KMeans<T>& m, const Data& d) { m.fit(in<T>(d.X)); }
    template <class T> static void query(KMeans<T>& m, int, const Data& d, Ans& out) { put(out, m.predict(in<T>(d.P))); }
};
void gen_km(uint64_t s, Rng& r, Data& d) { int k = gen::dflt(s) ? 3 : km_k(s); gen::common(r, d, pick(r, k + 2, 24), pick(r, 1, 4)); d.P = rand_mat(r, 12, (int)d.X.cols(), 2); }
Kind k_km{"k-means", {"predict"}, true, false, true, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<KMeans, KMS>(s); return mk_t<KMeans, KMS>(s, s % 2 ? "random" : "kmeans++", 1, km_k(s), 1 + s / 6 % 12, 1e-4); }, gen_km, [](uint64_t s) { return std::string(s % 2 ? "random" : "kmeans++") + " k=" + std::to_string(km_k(s)) + " max_iter=" + std::to_string(1 + s / 6 % 12) + gen::prec(s); }};

using openml::mixture_model::GaussianMixture;
struct GMS {
    template <class T> static void fit(GaussianMixture<T>& m, const Data& d) { m.fit(in<T>(d.X)); }
    template <class T> static void query(GaussianMixture<T>& m, int q, const Data& d, Ans& out) {
        switch (q) { case 0: put(out, m.predict(in<T>(d.P))); break; case 1: put(out, m.predict_prob(in<T>(d.P))); break;
            case 2: for (auto& c : m.get_covariance()) put(out, c); break; case 3: for (auto& c : m.get_precisions()) put(out, c); break; case 4: for (auto& c : m.get_precisions_cholesky()) put(out, c); break;
            case 5: put(out, m.get_means()); break; case 6: put(out, m.get_weights()); break; case 7: out.push_back(Mat::Constant(1, 1, m.get_lower_bound())); break; }
    }
};
void gen_gm(uint64_t, Rng& r, Data& d) { int m = pick(r, 1, 3); gen::common(r, d, pick(r, 14, 26), m); for (int i = 0; i < d.X.rows(); i++) d.X.row(i).array() += 4.0 * (i % 2); }
Kind k_gm{"Gaussian mixture", {"predict", "predict_prob", "get_covariance", "get_precisions", "get_precisions_cholesky", "get_means", "get_weights", "get_lower_bound"}, true, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return mk_t<GaussianMixture, GMS>(s); return mk_t<GaussianMixture, GMS>(s, s / 8 % 3 ? 60 : 4, 1 + s / 4 % 2, 1 + s / 2 % 3, "random", s % 2 ? "full" : "tied", 1e-2, 1e-3); }, gen_gm,
    [](uint64_t s) { return std::string(s % 2 ? "full" : "tied") + " components=" + std::to_string(1 + s / 2 % 3) + " restarts=" + std::to_string(1 + s / 4 % 2) + " max_iter=" + std::to_string(s / 8 % 3 ? 60 : 4) + gen::prec(s); }};
RegKind r1(&k_gnb), r2(&k_mnb), r3(&k_dtc), r4(&k_dtr), r5(&k_km), r6(&k_gm);
}
