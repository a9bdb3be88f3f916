// C10: randomised SVD is accurate and well formed for every entropy.
#include "core.hpp"
#include "methods/decomposition/truncated_svd.hpp"
#include "common.hpp"
using namespace sim;
typedef Eigen::Vector<Eigen::Index, Eigen::Dynamic> IdxVec;

static Mat ortho(Rng& r, int n, int k) {
    Mat A = rand_mat(r, n, k);
    for (int pass = 0; pass < 2; pass++) for (int j = 0; j < k; j++) { for (int q = 0; q < j; q++) A.col(j) -= A.col(q) * A.col(q).dot(A.col(j)); A.col(j).normalize(); }
    return A;
}
struct Svd { Mat U, Vt; Vec s; };

SIM_SCENARIO("C10") {
    uint64_t big = choose(90, "big"); int top = big >= 87 ? 70 : 32;    // 85, 86: wide enough for the divide and conquer SVD
    const int slim = slim ? (slim == 2 ? range(257, 330, "m") : range(1, 6, "m")) : big == 84 ? 1 + (int)choose(2, "slim") : 0;             // more rows (1) or columns (2) than a byte can count
    int n = slim ? (slim == 1 ? range(257, 330, "n") : range(1, 6, "n")) : big == 89 || big == 88 || big == 86 || big == 85 ? range(13, top, "n") : range(1, 12, "n"), m = slim ? (slim == 2 ? range(257, 330, "m") : range(1, 6, "m")) : big == 89 || big == 87 || big == 86 || big == 85 ? range(13, top, "m") : range(1, 12, "m"), d = std::min(n, m);
    int k = range(1, d, "k"), p = range(0, d - k, "oversamples");
    size_t q = range(0, 6, "iterations");
    static const char* nm[] = {"LU", "QR", "None"}; int norm = (int)choose(3, "normaliser");
    int kind = (int)choose(5, "spectrum");    // 0 general, 1 low rank, 2 fast decay, 3 grid data, 4 low rank with gaps
    Rng r = data_rng("data");
    Mat X; double scale = std::pow(10.0, (int)r.below(5) - 2.0);
    int rank = d;
    if (kind == 0) X = rand_mat(r, n, m, scale);
    else if (kind == 3) X = rand_grid(r, n, m, -2, 2);
    else {
        rank = kind == 2 ? d : 1 + (int)r.below(std::max(1, kind == 4 ? k + p : d));
        Mat U = ortho(r, n, d), V = ortho(r, m, d); Vec s(d);
        for (int i = 0; i < d; i++) s(i) = i >= rank ? 0 : kind == 2 ? std::pow(0.1, i) : kind == 4 ? std::pow(0.7, i) * (1 + 0.1 * r.uniform()) : 0.5 + r.uniform();
        X = scale * U * s.asDiagonal() * V.transpose();
    }
    const Mat X0 = X;
    Eigen::JacobiSVD<Mat> tr(X, Eigen::ComputeThinU | Eigen::ComputeThinV); Vec sig = tr.singularValues();
    double s1 = std::max(sig(0), 1e-300);
    if (kind == 3 || kind == 1) { rank = 0; for (int i = 0; i < d; i++) if (sig(i) > 1e-9 * s1) rank++; }
    bool flip = choose(4, "no.flip") != 3, model = choose(2, "model"); if (model) flip = true;
    char cfg[200]; snprintf(cfg, sizeof cfg, "%dx%d k=%d oversamples=%d iterations=%zu %s spectrum kind %d rank %d", n, m, k, p, q, nm[norm], kind, rank);
    set_console((int)choose(3, "console"), 3);

    // requests outside the supported range
    if (choose(10, "refused") == 9) {
        int w = (int)choose(2, "refused.what");
        set_env(choose_env());
        Outcome o = attempt([&] {
            if (model) { openml::decomposition::TruncatedSVD<double> t(k, w ? p : d - k + 1 + choose(3, "beyond"), w ? q + 1 : q, "randomized", w ? "SVD" : nm[norm]); t.fit(X); }
            else openml::math::randomized_svd<Mat, Vec, IdxVec>(X, k, w ? p : d - k + 1 + choose(3, "beyond"), w ? q + 1 : q, w ? "SVD" : nm[norm], flip);
        }, true);
        if (o.ok()) violate("C10:not-refused", "%s: %s accepted", cfg, w ? "an unknown normaliser" : "a sketch larger than the matrix");
        if (o.kind == Outcome::BAD_ALLOC) violate("C10:threw", "out of memory without a fault");
        count("requests refused"); event("refused %s", cfg); nontrivial(); return;
    }
    auto compute = [&](const Env& e, int fill, Svd& f, Mat* trf, Vec* ev, Vec* er, const Mat& Y) {
        set_env(e); heap_fill(fill, 1 + fill);
        Outcome o = attempt([&] {
            if (!model) std::tie(f.U, f.s, f.Vt) = openml::math::randomized_svd<Mat, Vec, IdxVec>(X, k, p, q, nm[norm], flip);
            else {
                openml::decomposition::TruncatedSVD<double> t(k, p, q, "randomized", nm[norm]); t.fit(X);
                f.Vt = t.get_components(); f.s = t.get_singular_values(); *ev = t.get_explained_var(); *er = t.get_explained_var_ratio(); *trf = t.transform(Y);
            }
        });
        if (!o.ok()) violate("C10:threw", "%s: threw %s", cfg, o.what.c_str());
        if (!bit_equal(X, X0)) violate("C10:data-modified", "the input changed");
    };
    Mat Y = rand_mat(r, 5, m); Svd f; Mat T; Vec ev, er;
    Env e = choose_env();
    compute(e, (int)choose(5, "fill"), f, &T, &ev, &er, Y);
    if (f.Vt.rows() != k || f.Vt.cols() != m || f.s.size() != k || (!model && (f.U.rows() != n || f.U.cols() != k))) violate("C10:shape", "%s: U %s, %ld singular values, Vt %s", cfg, shape(f.U).c_str(), (long)f.s.size(), shape(f.Vt).c_str());
    if (!f.s.allFinite() || !f.Vt.allFinite()) violate("C10:not-finite", "%s: singular values %s", cfg, show(f.s.transpose()).c_str());
    if (max_abs(f.Vt * f.Vt.transpose() - Mat::Identity(k, k)) > 1e-9) violate("C10:not-orthonormal", "%s: right vectors off by %g", cfg, max_abs(f.Vt * f.Vt.transpose() - Mat::Identity(k, k)));
    if (!model && !(max_abs(f.U.transpose() * f.U - Mat::Identity(k, k)) <= 1e-9)) violate("C10:not-orthonormal", "%s: left vectors off by %g", cfg, max_abs(f.U.transpose() * f.U - Mat::Identity(k, k)));
    for (int i = 0; i < k; i++) {
        if (!(f.s(i) >= 0)) violate("C10:negative", "%s: singular value %g", cfg, f.s(i));
        if (i && f.s(i) > f.s(i - 1) * (1 + 1e-12)) violate("C10:order", "%s: singular values %s", cfg, show(f.s.transpose()).c_str());
        if (f.s(i) > sig(i) + 1e-11 * s1) violate("C10:too-large", "%s: singular value %d is %.17g, the true one %.17g", cfg, i, f.s(i), sig(i));
    }
    // accuracy where the sketch captures the range, or where the spectrum decays fast
    double cap = norm == 2 && q > 0 ? 1e-14 * std::pow(s1 / std::max(sig(std::max(0, std::min(rank, k + p) - 1)), 1e-300), 2.0 * q + 1) * 100 : 1e-9;
    bool exact = rank <= k + p && cap < 1e-5 && (kind != 2);
    double rtol = std::max(1e-8, cap * 10);
    if (exact) {
        for (int i = 0; i < k; i++) if (std::fabs(f.s(i) - sig(i)) > rtol * s1) violate("C10:inexact", "%s: singular value %d is %.12g, the true one %.12g", cfg, i, f.s(i), sig(i));
        if (rank <= k && !model) { Mat Z = f.U * f.s.asDiagonal() * f.Vt; if (max_abs(Z - X) > rtol * 10 * s1) violate("C10:not-reconstructed", "%s: reconstruction off by %g", cfg, max_abs(Z - X)); count("exact reconstructions"); }
        if (rank <= k && model) { Mat Z = X * f.Vt.transpose() * f.Vt; if (max_abs(Z - X) > rtol * 10 * s1) violate("C10:not-reconstructed", "%s: projection loses %g", cfg, max_abs(Z - X)); count("exact reconstructions"); }
    } else if (kind == 2 && p >= 2 && q >= 2 && norm != 2) {
        for (int i = 0; i < k && sig(i) > 1e-10 * s1; i++) if (std::fabs(f.s(i) - sig(i)) > 1e-5 * sig(i) + 1e-12 * s1) violate("C10:inaccurate", "%s: singular value %d is %.12g, the true one %.12g", cfg, i, f.s(i), sig(i));
        count("decaying spectra compared");
    }
    // the power iterations: as many exact ones, from the range the same entropy gives without any
    if (kind != 2 && q > 0 && sig(k + p - 1) > 1e-4 * s1 && cap < 1e-6 && choose(2, "power") == 0) {
        Svd z; set_env(e);
        Outcome o = attempt([&] { std::tie(z.U, z.s, z.Vt) = openml::math::randomized_svd<Mat, Vec, IdxVec>(X, k + p, 0, 0, nm[norm], flip); });
        if (!o.ok()) violate("C10:threw", "%s: threw %s without iterations", cfg, o.what.c_str());
        Mat Q = z.U; auto orth = [](const Mat& A) { Eigen::HouseholderQR<Mat> h(A); return Mat(h.householderQ() * Mat::Identity(A.rows(), A.cols())); };
        for (size_t i = 0; i < q; i++) Q = orth(X * orth(X.transpose() * Q));
        Vec want = Eigen::JacobiSVD<Mat>(Q.transpose() * X).singularValues();
        for (int i = 0; i < k; i++) if (std::fabs(f.s(i) - want(i)) > std::max(1e-6, 100 * cap) * s1) violate("C10:power", "%s: singular value %d is %.12g, after exact power iterations from the same sketch %.12g (the true one %.12g)", cfg, i, f.s(i), want(i), sig(i));
        count("power iterations compared");
    }
    // consistency of the factors: B = Q'X has these singular values, so U's diag(s) V' is a projection of X
    if (!model) { Mat Z = f.U.transpose() * X * f.Vt.transpose(); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { double ex = i == j ? f.s(i) : 0; if (std::fabs(Z(i, j) - ex) > 1e-9 * s1) violate("C10:factors", "%s: U'XV(%d,%d) is %.12g, expected %.12g", cfg, i, j, Z(i, j), ex); } }
    if (flip && !model) for (int j = 0; j < k; j++) {
        double mx = f.U.col(j).cwiseAbs().maxCoeff(); bool pos = false; for (int i = 0; i < n; i++) if (f.U(i, j) > 0 && f.U(i, j) >= mx * (1 - 1e-9)) pos = true;
        if (!pos) violate("C10:sign", "%s: the largest entry of left vector %d is negative", cfg, j);
    }
    // the convention based on the right factors, from whatever signs the left ones had
    if (!model) {
        Mat A = f.U, B = f.Vt; for (int j = 0; j < k; j++) if (choose(2, "sign")) { A.col(j) *= -1; B.row(j) *= -1; }
        Mat A2, B2; const Mat A0 = A, B0 = B; bool byu = choose(2, "by.u");
        Outcome o = attempt([&] { std::tie(A2, B2) = openml::math::svd_flip<Mat, Vec, IdxVec>(A, B, byu); });
        if (!o.ok()) violate("C10:threw", "%s: svd_flip threw %s", cfg, o.what.c_str());
        if (!bit_equal(A, A0) || !bit_equal(B, B0)) violate("C10:data-modified", "svd_flip changed its input");
        if (A2.rows() != n || A2.cols() != k || B2.rows() != k || B2.cols() != m) violate("C10:shape", "%s: svd_flip gave %s and %s", cfg, shape(A2).c_str(), shape(B2).c_str());
        for (int j = 0; j < k; j++) {
            Vec v = byu ? Vec(A2.col(j)) : Vec(B2.row(j)), w = byu ? Vec(A.col(j)) : Vec(B.row(j)); double mx = v.cwiseAbs().maxCoeff(); bool pos = false;
            for (int i = 0; i < v.size(); i++) if (v(i) > 0 && v(i) >= mx * (1 - 1e-9)) pos = true;
            if (!pos) violate("C10:sign", "%s: after svd_flip by %s the largest entry of vector %d is negative", cfg, byu ? "U" : "V", j);
            double sg = v.dot(w) > 0 ? 1 : -1;
            if ((A2.col(j).array() != sg * A.col(j).array()).any() || (B2.row(j).array() != sg * B.row(j).array()).any()) violate("C10:flip", "%s: svd_flip by %s changed more than the common sign of vector pair %d", cfg, byu ? "U" : "V", j);
        }
        count("sign conventions checked");
    }
    // another entropy gives the same factors where they are unique
    {
        Svd g; Mat T2; Vec ev2, er2; Env e2 = e; e2.ent_mode = 0; e2.ent_seed = e.ent_seed + 1 + choose(1000, "entropy2");
        compute(e2, (int)choose(5, "fill2"), g, &T2, &ev2, &er2, Y);
        if (exact) {
            bool cmp = false;
            for (int i = 0; i < k && i < rank; i++) {
                double gap = 1; if (i) gap = std::min(gap, (sig(i - 1) - sig(i)) / s1); if (i + 1 < d) gap = std::min(gap, (sig(i) - sig(i + 1)) / s1);
                if (gap < 0.01 || sig(i) < 0.01 * s1) continue;
                Vec u = tr.matrixU().col(i); double a = u.cwiseAbs().maxCoeff(); int near = 0; for (int t = 0; t < n; t++) if (std::fabs(u(t)) > a * (1 - 1e-5)) near++;
                double sgn = 1;
                if (near != 1 || !flip) { if (f.Vt.row(i).dot(g.Vt.row(i)) < 0) sgn = -1; }
                if (max_abs(f.Vt.row(i) - sgn * g.Vt.row(i)) > rtol * 1e4 || (!model && max_abs(f.U.col(i) - sgn * g.U.col(i)) > rtol * 1e4)) violate("C10:entropy-dependent", "%s: vectors of singular value %d depend on the entropy: %s and %s", cfg, i, show(f.Vt.row(i)).c_str(), show(g.Vt.row(i)).c_str());
                cmp = true;
            }
            if (cmp) count("factors compared across entropy values");
        }
        // and the same entropy gives exactly the same
        Svd h; compute(e, (int)choose(5, "fill3"), h, &T2, &ev2, &er2, Y);
        if (!bit_equal(f.Vt, h.Vt) || !bit_equal(f.s, h.s)) violate("C10:not-a-function", "%s: the same entropy gave other factors", cfg);
    }
    if (model) {
        if (!close(T, Y * f.Vt.transpose(), 1e-10, 1e-10)) violate("C10:transform", "%s: transform is no projection on the components", cfg);
        Mat Z = X * f.Vt.transpose(); double full = 0;
        for (int j = 0; j < m; j++) full += (X.col(j).array() - X.col(j).mean()).square().mean();
        if (ev.size() != k || er.size() != k) violate("C10:shape", "%s: %ld explained variances", cfg, (long)ev.size());
        for (int j = 0; j < k; j++) {
            double v = (Z.col(j).array() - Z.col(j).mean()).square().mean();
            if (!close(ev(j), v, 1e-8, 1e-10 * s1 * s1)) violate("C10:explained-variance", "%s: explained variance %d is %.12g, the transformed data vary by %.12g", cfg, j, ev(j), v);
            if (full > 1e-6 * s1 * s1 && !close(er(j), v / full, 1e-6, 1e-6)) violate("C10:explained-ratio", "%s: ratio %.12g instead of %.12g", cfg, er(j), v / full);
        }
        count("models checked");
    }
    heap_check(); nontrivial(); state(hmat(f.s, hmat(X)));
    event("%s s=%llx Vt=%llx", cfg, (unsigned long long)hmat(f.s), (unsigned long long)hmat(f.Vt));
    sample("%s entropy mode %d", cfg, e.ent_mode);
}
