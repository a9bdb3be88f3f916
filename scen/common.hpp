// Helpers shared by the scenarios.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <sstream>
#include <Eigen/Dense>
#include "sim.hpp"

typedef Eigen::MatrixXd Mat;
typedef Eigen::VectorXd Vec;

// Outcome of one operation of the code under test.
struct Outcome {
    enum Kind { RETURNED, THREW, BAD_ALLOC } kind = RETURNED;
    std::string what;
    bool ok() const { return kind == RETURNED; }
};

// Runs f as code under test. An Eigen assertion would abort a real process:
// it is a violation unless the caller says the call is outside its domain.
template <class F>
Outcome attempt(F f, bool assert_is_refusal = false) {
    Outcome o;
    try { sim::Sut s; f(); }
    catch (const sim::AssertError& e) {
        if (!assert_is_refusal) sim::violate("assertion", "%s", e.what());
        o.kind = Outcome::THREW; o.what = e.what();
    }
    catch (const std::bad_alloc& e) { o.kind = Outcome::BAD_ALLOC; o.what = "bad_alloc"; }
    catch (const std::exception& e) { o.kind = Outcome::THREW; o.what = e.what(); }
    catch (...) { o.kind = Outcome::THREW; o.what = "unknown"; }
    return o;
}

inline uint64_t hmix(uint64_t h, uint64_t v) { return sim::hash_bytes(&v, 8, h); }
inline uint64_t hmat(const Mat& m, uint64_t h = 1) {
    h = hmix(hmix(h, m.rows()), m.cols());
    return m.size() ? sim::hash_bytes(m.data(), m.size() * 8, h) : h;
}

inline std::string show(const Mat& m, int maxr = 6) {
    std::string o = "[";
    char b[40];
    for (int i = 0; i < m.rows() && i < maxr; i++) {
        if (i) o += "; ";
        for (int j = 0; j < m.cols() && j < 8; j++) { snprintf(b, sizeof b, "%s%.6g", j ? " " : "", m(i, j)); o += b; }
    }
    if (m.rows() > maxr) o += " ...";
    return o + "]";
}
inline std::string shape(const Mat& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()); }

inline bool bit_equal(const Mat& a, const Mat& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) if (!sim::same_bits(a(i, j), b(i, j))) return false;
    return true;
}
// relative closeness scaled by the larger magnitude present
inline double max_abs(const Mat& a) { return a.size() ? a.cwiseAbs().maxCoeff() : 0; }
inline bool close(double a, double b, double rel, double abs_) {
    if (a == b) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return (std::isnan(a) && std::isnan(b)) || a == b;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool close(const Mat& a, const Mat& b, double rel, double abs_) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) if (!close(a(i, j), b(i, j), rel, abs_)) return false;
    return true;
}

// random data with one structural choice; magnitudes stay moderate
inline Mat rand_mat(sim::Rng& r, int n, int m, double s = 1) {
    Mat x(n, m);
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) x(i, j) = s * r.normal();
    return x;
}
inline Mat rand_grid(sim::Rng& r, int n, int m, int lo, int hi) {
    Mat x(n, m);
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) x(i, j) = lo + (int)r.below(hi - lo + 1);
    return x;
}
