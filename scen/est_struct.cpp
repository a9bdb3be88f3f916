// Decompositions, rules, search trees and the data operations behind the common interface.
#include "core.hpp"
#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
#include "methods/rule_model/apriori.hpp"
#include "core/tree/kd_tree.hpp"
#include "core/tree/hash_tree.hpp"
#include "core/preprocessing/transaction_encoder.hpp"
#include "core/metric.hpp"
#include "est.hpp"
using namespace openml;
using gen::pick;
using sim::Rng;

namespace {
typedef decomposition::PCA<double> Pca; typedef decomposition::TruncatedSVD<double> Tsv;
struct DecS {
    template <class M> static void fit(M& m, const Data& d) { m.fit(d.X); }
    template <class M> static void base(M& m, int q, const Data& d, Ans& out) {
        switch (q) { case 0: out.push_back(m.transform(d.P)); break; case 1: out.push_back(m.get_components()); break; case 2: out.push_back(m.get_explained_var()); break; case 3: out.push_back(m.get_explained_var_ratio()); break; case 4: out.push_back(m.get_singular_values()); break; }
    }
    static void query(Tsv& m, int q, const Data& d, Ans& out) { base(m, q, d, out); }
    static void query(Pca& m, int q, const Data& d, Ans& out) { if (q < 5) base(m, q, d, out); else if (q == 5) out.push_back(Mat::Constant(1, 1, m.score(d.P))); else if (q == 6) out.push_back(m.get_covariance()); else out.push_back(m.get_precision()); }
};
// Any shape PCA accepts, including as many components as rows or features.
void gen_pca(uint64_t s, Rng& r, Data& d) {
    int c = gen::dflt(s) ? 2 : 1 + s / 2 % 3, m = pick(r, c, 6), n = r.below(4) ? pick(r, m + 3, 18) : pick(r, std::max(c, 2), 8);
    gen::common(r, d, n, m); for (int j = 0; j < m; j++) d.X.col(j) *= 4.0 / (1 + 2 * j);
    d.P = rand_mat(r, pick(r, 1, 5), m);
}
void gen_dec(uint64_t, Rng& r, Data& d) { int m = pick(r, 4, 6); gen::common(r, d, pick(r, m + 3, 18), m); for (int j = 0; j < m; j++) d.X.col(j) *= 4.0 / (1 + 2 * j); d.P = rand_mat(r, pick(r, 1, 5), m); }
Kind k_pca{"PCA", {"transform", "get_components", "get_explained_var", "get_explained_var_ratio", "get_singular_values", "score", "get_covariance", "get_precision"}, false, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return new Wrap<Pca, DecS>(Pca()); return new Wrap<Pca, DecS>(Pca("svd", 1 + s / 2 % 3)); }, gen_pca, [](uint64_t s) { return "components=" + std::to_string(1 + s / 2 % 3); }};
Kind k_tsv{"truncated SVD", {"transform", "get_components", "get_explained_var", "get_explained_var_ratio", "get_singular_values"}, true, false, false, false,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s)) return new Wrap<Tsv, DecS>(Tsv()); static const char* nm[] = {"LU", "QR", "None"}; return new Wrap<Tsv, DecS>(Tsv(1 + s / 3 % 3, 1, s / 9 % 4, "randomized", nm[s % 3])); }, gen_dec,
    [](uint64_t s) { return "components=" + std::to_string(1 + s / 3 % 3) + " power iterations=" + std::to_string(s / 9 % 4); }};

typedef openml::rule_model::Apriori<size_t> Apr;
struct AprS {
    static void fit(Apr& m, const Data& d) { m.fit_transform(d.tr); }
    static void query(Apr& m, int q, const Data&, Ans& out) {
        if (q == 1) { m.print_rules(); out.push_back(Mat::Ones(1, 1)); return; }
        auto rules = m.get_rules(); std::vector<std::vector<double>> rows;
        for (auto& t : rules) { std::vector<double> v; for (size_t x : std::get<0>(t)) v.push_back((double)x); v.push_back(-1); for (size_t x : std::get<1>(t)) v.push_back((double)x); v.push_back(-2); v.push_back(std::get<2>(t)); rows.push_back(v); }
        size_t w = 1; for (auto& v : rows) w = std::max(w, v.size());
        Mat r = Mat::Constant(rows.size(), w, -3); for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[i].size(); j++) r(i, j) = rows[i][j];
        out.push_back(r);
    }
};
void gen_tr(uint64_t, Rng& r, Data& d) { d.salt = r.next(); int items = pick(r, 3, 6), n = gen::grow(r, pick(r, 3, 9)); for (int i = 0; i < n; i++) { std::vector<size_t> t; for (int j = 1; j <= items; j++) if (r.below(5) < 3) t.push_back(j); if (t.empty()) t.push_back(1); for (size_t a = t.size(); a > 1; a--) std::swap(t[a - 1], t[r.below(a)]); d.tr.push_back(t); } d.salt ^= r.next();
    for (int i = 0; i < 12; i++) { std::vector<int> s; while (s.size() < 2) { int x = 1 + (int)r.below(7); if (s.empty() || s[0] != x) s.push_back(x); } std::sort(s.begin(), s.end()); d.sets.push_back(s); } }
Kind k_apr{"Apriori", {"get_rules", "print_rules"}, false, false, false, true,
    [](uint64_t s, bool) -> Est* { if (gen::dflt(s, 64)) return new Wrap<Apr, AprS>(Apr()); return new Wrap<Apr, AprS>(Apr(0.2 + 0.1 * (s % 4), 0.3 + 0.2 * (s / 4 % 3))); }, gen_tr, [](uint64_t s) { return "support=" + std::to_string(0.2 + 0.1 * (s % 4)) + " confidence=" + std::to_string(0.3 + 0.2 * (s / 4 % 3)); }};

template <class T> struct KdS {
    typedef tree::KDTree<T> Tree; typedef Eigen::Matrix<T, -1, -1> MT;
    struct H { size_t leaf; std::string metric; Tree t; };
    static void fit(H& h, const Data& d) { h.t = Tree(d.X.template cast<T>(), h.leaf, h.metric); }
    static void query(const H& h, int q, const Data& d, Ans& out) {
        MT p = d.P.template cast<T>();
        if (q == 0) { auto a = h.t.query(p, 1 + d.salt % 3); out.push_back(a.first.template cast<double>()); out.push_back(a.second.template cast<double>()); }
        else { auto a = h.t.query_radius(p, (double)(1 + d.salt % 4) * 0.6); for (auto& v : a) { Mat m(v.size(), 2); for (size_t i = 0; i < v.size(); i++) { m(i, 0) = v[i].first; m(i, 1) = (double)v[i].second; } out.push_back(m); } }
    }
};
template <class T> Est* mk_kd(uint64_t s, bool) {
    static const char* me[] = {"euclidean", "manhattan", "chebyshev"};
    Eigen::Matrix<T, -1, -1> one(2, 1); one << 0, 1;
    typename KdS<T>::H h{(size_t)(1 + s / 3 % 6), me[s % 3], typename KdS<T>::Tree(one, (size_t)(1 + s / 3 % 6), me[s % 3])};
    return new Wrap<typename KdS<T>::H, KdS<T>>(h);
}
void gen_kd(uint64_t, Rng& r, Data& d) { int m = pick(r, 1, 4); gen::common(r, d, pick(r, 4, 28), m); }
std::string dkd(uint64_t s) { static const char* me[] = {"euclidean", "manhattan", "chebyshev"}; return std::string(me[s % 3]) + " leaf=" + std::to_string(1 + s / 3 % 6); }
Kind k_kd{"KD tree", {"query", "query_radius"}, false, false, false, false, mk_kd<double>, gen_kd, dkd};
Kind k_kf{"KD tree (float)", {"query", "query_radius"}, false, false, false, false, mk_kd<float>, gen_kd, dkd};

// building, loading, splitting and generating: the result is kept and reported
template <class S> struct Keep { Ans a; uint64_t s; };
template <class S> struct OpS {
    static void fit(Keep<S>& k, const Data& d) { Ans a; S::run(k.s, d, a); k.a = a; }
    static void query(const Keep<S>& k, int, const Data&, Ans& out) { out = k.a; }
};
template <class S> Est* mk_op(uint64_t s, bool) { Keep<S> k; k.s = s; return new Wrap<Keep<S>, OpS<S>>(k); }
std::string dop(uint64_t s) { return "variant " + std::to_string(s % 12); }

struct Node { bool is_leaf; std::size_t index; std::map<std::vector<int>, std::size_t> bucket; std::map<std::size_t, std::shared_ptr<Node>> children; Node() : is_leaf(true), index(0) {} Node(bool l, std::size_t i = 0) : is_leaf(l), index(i) {} };
struct HashOp { static void run(uint64_t s, const Data& d, Ans& a) {
    tree::HashTree<Node, int> t(1 + s % 4, 1 + s / 4 % 4);
    for (auto& v : d.sets) t.build_tree(v);
    for (size_t i = 0; i < d.sets.size(); i += 1 + s % 2) t.add_support(d.sets[i]);
    std::vector<size_t> c; std::vector<std::vector<int>> l; t.compute_frequency_itemsets(s % 2, c, l);
    Mat r(c.size(), 3); for (size_t i = 0; i < c.size(); i++) { r(i, 0) = l[i][0]; r(i, 1) = l[i][1]; r(i, 2) = (double)c[i]; } a.push_back(r);
} };
Kind k_ht{"hash tree", {"contents"}, false, false, false, false, mk_op<HashOp>, gen_tr, dop};

struct LoadOp { static void run(uint64_t s, const Data& d, Ans& a) {
    if (s % 3 == 0) { Mat X; Vec y; data::loadtxt<Mat, Vec>(d.file, X, y); a.push_back(X); a.push_back(y); }
    else if (s % 3 == 1) { std::vector<std::vector<double>> X; std::vector<double> y; data::loadtxt<double>(d.file, X, y); for (auto& v : X) { Mat m(1, v.size()); for (size_t i = 0; i < v.size(); i++) m(0, i) = v[i]; a.push_back(m); } a.push_back(Eigen::Map<Vec>(y.data(), y.size())); }
    else { std::vector<std::vector<double>> X; data::loadtxt<double>(d.file, X); for (auto& v : X) { Mat m(1, v.size()); for (size_t i = 0; i < v.size(); i++) m(0, i) = v[i]; a.push_back(m); } }
} };
void gen_file(uint64_t, Rng& r, Data& d) { d.salt = r.next(); int n = gen::grow(r, pick(r, 1, 8)), m = pick(r, 2, 4); char b[40]; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { snprintf(b, sizeof b, "%.6g%c", 3 * r.normal(), j == m - 1 ? '\n' : ' '); d.text += b; } sim::IoPlan p; sim::disk_plan(p); d.file = sim::disk_put(d.text); }
Kind k_ld{"loadtxt", {"contents"}, false, false, false, false, mk_op<LoadOp>, gen_file, dop};

struct SplitOp { static void run(uint64_t s, const Data& d, Ans& a) {
    if (s % 2) { auto t = data::train_test_split<Mat, Vec>(d.X, d.y, 0.25 + 0.25 * (s / 2 % 3), s % 4 != 1); a.push_back(std::get<0>(t)); a.push_back(std::get<1>(t)); a.push_back(std::get<2>(t)); a.push_back(std::get<3>(t)); }
    else { Mat X = d.X; Vec y = d.y; Mat X2; Vec y2; random::shuffle_data<Mat, Vec>(d.X, d.y, X2, y2); a.push_back(X2); a.push_back(y2); }
} };
void gen_sp(uint64_t, Rng& r, Data& d) { gen::common(r, d, pick(r, 2, 14), pick(r, 1, 3)); d.y = rand_mat(r, (int)d.X.rows(), 1); }
Kind k_sp{"shuffle and split", {"contents"}, false, true, false, false, mk_op<SplitOp>, gen_sp, dop};

struct RandOp { static void run(uint64_t s, const Data& d, Ans& a) {
    int n = 1 + (int)(d.salt % 5);
    a.push_back(random::rand<Mat>(n, 3)); a.push_back(random::randn<Mat>(2, n)); a.push_back(random::permutation<Eigen::Matrix<Eigen::Index, -1, 1>>(n + 3).cast<double>()); if (s % 2) a.push_back(random::randint<int>(n, 2, 0, 50).cast<double>());
} };
void gen_no(uint64_t, Rng& r, Data& d) { d.salt = r.next(); }
Kind k_rn{"random generators", {"contents"}, true, false, true, false, mk_op<RandOp>, gen_no, dop};

struct EncOp { static void run(uint64_t, const Data& d, Ans& a) { preprocessing::TransactionEncoder<size_t> e; a.push_back(Mat(e.fit_transform(d.tr).cast<double>())); } };
Kind k_en{"transaction encoder", {"contents"}, false, false, false, false, mk_op<EncOp>, gen_tr, dop};

// the helper functions the estimators are built from
typedef Eigen::Matrix<Eigen::Index, -1, 1> IdxV; typedef Eigen::Matrix<Eigen::Index, -1, -1> IdxM; typedef std::vector<std::vector<double>> Rows;
Mat one(double x) { return Mat::Constant(1, 1, x); }
template <class T> Mat list(const std::vector<T>& v) { Mat m(1, v.size()); for (size_t i = 0; i < v.size(); i++) m(0, i) = (double)v[i]; return m; }
Rows rows_of(const Mat& X) { Rows v(X.rows()); for (int i = 0; i < X.rows(); i++) for (int j = 0; j < X.cols(); j++) v[i].push_back(X(i, j)); return v; }
template <class T> void lists(const std::vector<std::vector<T>>& v, Ans& a) { for (auto& x : v) a.push_back(list(x)); }
Vec rounded(const Vec& v) { return (v.array() * 2).round() / 2; }
struct ArrOp { static void run(uint64_t s, const Data& d, Ans& a) {
    using namespace common; int axis = (int)(s / 8 % 2); bool rev = s / 16 % 2; const Mat& X = d.X; Vec c0 = rounded(X.col(0)), c1 = rounded(X.col(1));
    switch (s % 5) {
    case 0: a.push_back(argmax<Mat, Vec, IdxV>(X, (int)(s / 8 % 3) - 1).cast<double>()); a.push_back(argmin<Mat, Vec, IdxV>(X, (int)(s / 8 % 3) - 1).cast<double>());
        a.push_back(argsort<Mat, IdxM, IdxV>(X, axis, rev).cast<double>()); a.push_back(common::sort<Mat>(X, axis, rev)); break;
    case 1: a.push_back(hstack<Mat>(X, X)); a.push_back(vstack<Mat>(X, d.P)); a.push_back(flatten<Mat, Vec>(X)); a.push_back(repeat<Mat>(axis ? Mat(X.col(0)) : Mat(X.row(0)), 3, axis)); a.push_back(clip<Mat>(X, 1.0, -0.5)); a.push_back(fmin<Mat>(X, 0.25)); break;
    case 2: { auto u = common::unique<Vec>(c0); a.push_back(std::get<0>(u)); a.push_back(std::get<1>(u)); Eigen::Matrix<bool, -1, 1> b = c0.array() > 0; if (b.any()) a.push_back(where<Eigen::Matrix<bool, -1, 1>, IdxV>(b).cast<double>());
        a.push_back(vec2mat<Mat>(rows_of(X))); a.push_back(one(string_to_integer<int>(std::to_string((int)(c0(0) * 7))))); std::map<int, double> m; for (int i = 0; i < c0.size(); i++) m[i % 5] += c0(i); auto e = common::max_element(m); a.push_back(one(e.first)); a.push_back(one(e.second)); break; }
    case 3: { std::vector<double> v(c0.data(), c0.data() + c0.size()), w(c1.data(), c1.data() + c1.size());
        a.push_back(list(difference<double>(v, w, true))); a.push_back(list(merge<double>(v, w))); a.push_back(one(contains<double>(v, w))); a.push_back(one(is_equal<double>(v, w))); a.push_back(one(is_equal<double>(v, {v[0], v[1]}))); a.push_back(list(argsort<double>(v, rev)));
        std::vector<double> few(v.begin(), v.begin() + 4); lists(combinations<double>(few, 1 + s / 8 % 4), a); std::vector<int> ints; for (double x : v) ints.push_back((int)(2 * x)); a.push_back(list(slice<int>(ints, 1, 2 + s / 8 % 2))); a.push_back(list(flatten<std::vector<double>>(Rows{v, w, few}))); break; }
    default: { Rows v = rows_of(X.leftCols(2).unaryExpr([](double x) { return std::round(x); })); lists(sortrows<double>(v, rev), a); lists(remove_duplicate_rows<double>(v), a); lists(common::sort<double>(v, axis, rev), a); lists(slice<double>(v, 1, 3, 0, 1), a); break; }
    }
} };
struct StaOp { static void run(uint64_t s, const Data& d, Ans& a) {
    using namespace math; int axis = (int)(s / 8 % 3) - 1, ax2 = (int)(s / 8 % 2); const Mat& X = d.X; Vec c0 = rounded(X.col(0)), w = (X.col(1).array().abs() + 0.5);
    switch (s % 4) {
    case 0: a.push_back(cov<Mat>(X)); a.push_back(var<Mat>(X, axis)); a.push_back(math::sum<Mat>(X, axis)); a.push_back(mean<Mat>(X, axis)); a.push_back(center<Mat>(X)); break;
    case 1: a.push_back(median<Mat, Vec>(X, axis)); a.push_back(cumsum<Mat, Vec>(X, axis)); { auto t = math::mode<Mat>(Mat(X.array().round()), ax2); a.push_back(std::get<0>(t)); a.push_back(std::get<1>(t)); } break;
    case 2: a.push_back(math::abs<Mat>(X)); a.push_back(power<Mat>(X, 2)); a.push_back(math::sign<Mat>(X)); a.push_back(norm2<Mat, Vec>(X, ax2)); a.push_back(sigmoid<Mat>(X)); a.push_back(softmax<Mat>(X, axis)); a.push_back(logsumexp<Mat, Vec>(X, axis)); a.push_back(row_norms<Mat, Vec>(X, s / 8 % 2)); a.push_back(diagmat<Mat, Vec>(c0)); break;
    default: a.push_back(one(s / 8 % 2 ? entropy<Vec>(c0) : entropy<Vec>(c0, w))); a.push_back(one(s / 8 % 2 ? gini<Vec>(c0, w) : gini<Vec>(c0))); a.push_back(one(gaussian_fn<double>(c0(0), c0(1), w(0)))); break;
    }
} };
struct LinOp { static void run(uint64_t s, const Data& d, Ans& a) {
    using namespace math; const Mat& X = d.X; Mat S = X.transpose() * X + Mat::Identity(X.cols(), X.cols()); Vec u = X.col(0), v = X.col(1);
    switch (s % 4) {
    case 0: { auto e = exact_svd<Mat, Vec>(X, s / 8 % 2); a.push_back(std::get<0>(e)); a.push_back(std::get<1>(e)); a.push_back(std::get<2>(e)); auto f = svd_flip<Mat, Vec, IdxV>(exact_u(X), exact_vt(X), s / 16 % 2); a.push_back(std::get<0>(f)); a.push_back(std::get<1>(f)); break; }
    case 1: { auto l = lu<Mat>(X, s / 8 % 2); a.push_back(std::get<0>(l)); a.push_back(std::get<1>(l)); a.push_back(std::get<2>(l)); auto q = qr<Mat>(X, s / 16 % 2); a.push_back(std::get<0>(q)); a.push_back(std::get<1>(q)); break; }
    case 2: a.push_back(pinv<Mat, Vec>(X)); a.push_back(one(logdet<Mat>(S))); a.push_back(cholesky<Mat>(S, s / 8 % 2)); break;
    default: { std::vector<double> p(u.data(), u.data() + u.size()), q(v.data(), v.data() + v.size()); static const int ps[] = {1, 2, Eigen::Infinity};
        a.push_back(one(metric::mean_absolute_error<Vec>(u, v))); a.push_back(one(metric::explained_variance_score<Vec>(u, v))); a.push_back(one(metric::euclidean_distance<double>(p, q))); a.push_back(one(metric::manhattan_distance<double>(p, q))); a.push_back(one(metric::minkowski_distance<Vec>(u, v, ps[s / 8 % 3]))); break; }
    }
}
static Mat exact_u(const Mat& X) { return X.leftCols(3); } static Mat exact_vt(const Mat& X) { return X.topRows(3); } };
Kind k_ar{"array helpers", {"contents"}, false, false, false, false, mk_op<ArrOp>, gen_dec, dop};
Kind k_st{"statistics helpers", {"contents"}, false, false, false, false, mk_op<StaOp>, gen_dec, dop};
Kind k_li{"linear algebra and metrics", {"contents"}, false, false, false, false, mk_op<LinOp>, gen_dec, dop};
RegKind r1(&k_pca), r2(&k_tsv), r3(&k_apr), r4(&k_kd), r5(&k_kf), r6(&k_ht), r7(&k_ld), r8(&k_sp), r9(&k_rn), ra(&k_en), rb(&k_ar), rc(&k_st), rd(&k_li);
}
