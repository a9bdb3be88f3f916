// One interface over every estimator and data structure, for C11-C15.
#pragma once
#include "common.hpp"

struct Data {
    Mat X, P; Vec y;                                  // training data, query points
    std::vector<std::vector<size_t>> tr; std::vector<std::vector<int>> sets;
    std::string file, text; int cols = 0;             // file to load
    double size = 0; uint64_t salt = 0;
    uint64_t hash() const { return sim::hash_bytes(text.data(), text.size(), hmat(P, hmat(y, hmat(X, salt + tr.size())))); }
};

typedef std::vector<Mat> Ans;

struct Est {                                          // all calls are made inside a Sut region
    virtual ~Est() {}
    virtual Est* clone() const = 0;
    virtual void assign(const Est& o) = 0;
    virtual void fit(const Data& d) = 0;
    virtual void query(int q, const Data& d, Ans& out) = 0;
};

struct Kind {
    const char* name;
    std::vector<const char*> queries;
    bool entropy, clock, rnd, verbose;                // declared sources it may use
    Est* (*make)(uint64_t settings, bool verbose);    // inside Sut
    void (*gen)(uint64_t settings, sim::Rng& r, Data& d); // harness
    std::string (*describe)(uint64_t settings);
};
std::vector<const Kind*>& kinds();
struct RegKind { RegKind(Kind* k) { kinds().push_back(k); } };
void sort_kinds();

// Shapes and values of a set of answers agree.
inline uint64_t hans(const Ans& a, uint64_t h = 5) { for (auto& m : a) h = hmat(m, h); return h; }
inline std::string shows(const Ans& a) { std::string s; for (size_t i = 0; i < a.size() && i < 4; i++) s += (i ? " " : "") + show(a[i], 4); return s; }
inline bool same_ans(const Ans& a, const Ans& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!close(a[i], b[i], 1e-7, 1e-9)) return false;
    return true;
}
inline bool bits_ans(const Ans& a, const Ans& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!bit_equal(a[i], b[i])) return false;
    return true;
}

// Wrapper: M is the type under test, S its static description.
template <class M, class S>
struct Wrap : Est {
    M m;
    explicit Wrap(const M& x) : m(x) {}
    Est* clone() const override { return new Wrap(m); }
    void assign(const Est& o) override { m = static_cast<const Wrap&>(o).m; }
    void fit(const Data& d) override { S::fit(m, d); }
    void query(int q, const Data& d, Ans& out) override { S::query(m, q, d, out); }
};

// The same estimators in single precision: data go in as T, answers come out as double.
template <class T, class A> inline decltype(auto) in(const A& m) { if constexpr (std::is_same_v<T, double>) return (m); else return m.template cast<T>().eval(); }
template <class A> inline void put(Ans& out, const A& a) { out.push_back(a.template cast<double>()); }
namespace gen {
inline bool flt(uint64_t s) { return (s >> 18 & 3) == 3; }                                             // settings that ask for single precision
inline const char* prec(uint64_t s) { return flt(s) ? " in single precision" : ""; }
inline int pick(sim::Rng& r, int lo, int hi) { return lo + (int)r.below(hi - lo + 1); }
inline bool dflt(uint64_t s, int one_in = 16) { return s / 16384 % one_in == (uint64_t)one_in - 1; }   // settings that ask for the default constructor
inline int grow(sim::Rng& r, int n) { return r.below(48) ? n : n * pick(r, 2, 9); }                    // rarely a larger dataset
inline void common(sim::Rng& r, Data& d, int n, int m) {
    d.salt = r.next(); n = grow(r, n); d.X = rand_mat(r, n, m); d.P = rand_mat(r, grow(r, pick(r, 1, 5)), m, 1.5);
}
inline void labels(sim::Rng& r, Data& d, int K) { int n = (int)d.X.rows(); d.y.resize(n); for (int i = 0; i < n; i++) d.y(i) = i < K ? i : (int)r.below(K); for (int i = 0; i < n; i++) for (int j = 0; j < d.X.cols(); j++) d.X(i, j) += 1.5 * ((int)d.y(i) + j) * ((j + (int)d.y(i)) % 2 ? 1 : -0.5); }
}
template <template <class> class E, class S, class... A> inline Est* mk_t(uint64_t s, A... a) {
    if (gen::flt(s)) return new Wrap<E<float>, S>(E<float>(a...));
    return new Wrap<E<double>, S>(E<double>(a...));
}
