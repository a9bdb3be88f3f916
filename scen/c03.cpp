// C03: random generators honour their contract for every entropy value.
#include "core/math/random.hpp"
#include "common.hpp"
using namespace sim;
typedef Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1> IdxVec;
typedef Eigen::MatrixXf FMat;
typedef Eigen::MatrixXi IMat;

struct Call { int op; int r, c; double lo, hi; };
static Mat run(const Call& k) {
    Mat out;
    Outcome o = attempt([&] {
        switch (k.op) {
            case 0: { Mat t = openml::random::rand<Mat>(k.r, k.c, k.lo, k.hi); out = t; break; }
            case 1: { FMat t = openml::random::rand<FMat>(k.r, k.c, (float)k.lo, (float)k.hi); out = t.cast<double>(); break; }
            case 2: { Mat t = openml::random::randn<Mat>(k.r, k.c, k.lo, k.hi); out = t; break; }
            case 3: { IdxVec t = openml::random::permutation<IdxVec>(k.r); out = t.cast<double>(); break; }
            case 4: { IMat t = openml::random::randint<int>(k.r, k.c, (int)k.lo, (int)k.hi); out = t.cast<double>(); break; }
            case 5: { Eigen::VectorXi t = openml::random::randint<int, Eigen::VectorXi>(k.r, 1, (int)k.lo, (int)k.hi); out = t.cast<double>(); break; }
            case 6: { Mat t = openml::random::rand<Mat>(k.r, k.c); out = t; break; }
            case 8: { auto t = openml::random::randint<size_t>(k.r, k.c, (size_t)std::fabs(k.lo), (size_t)std::fabs(k.lo) + (size_t)(k.hi - k.lo)); out = t.cast<double>(); break; }
            case 9: { auto t = openml::random::randint<long long>(k.r, k.c, (long long)k.lo * 1024, (long long)k.hi * 1024); out = t.cast<double>(); break; }
            case 10: { FMat t = openml::random::randn<FMat>(k.r, k.c, (float)k.lo, (float)k.hi); out = t.cast<double>(); break; }
            case 11: { IMat t = openml::random::randint<int>(k.r, k.c); out = t.cast<double>(); break; }
            default: { Mat t = openml::random::randn<Mat>(k.r, k.c); out = t; }
        }
    });
    if (!o.ok()) violate("C03:threw", "generator %d threw: %s", k.op, o.what.c_str());
    return out;
}
static void check(const Call& k, const Mat& m) {
    int cols = k.op == 3 || k.op == 5 ? 1 : k.c;
    if (m.rows() != k.r || m.cols() != cols) violate("C03:shape", "generator %d returned %s instead of %dx%d", k.op, shape(m).c_str(), k.r, cols);
    if (k.op == 3) {
        std::vector<int> seen(k.r, 0);
        for (int i = 0; i < k.r; i++) { long v = (long)m(i, 0); if (v < 0 || v >= k.r || seen[v]++) violate("C03:not-a-permutation", "index %ld repeated or out of range in a permutation of %d", v, k.r); }
        return;
    }
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) {
        double v = m(i, j);
        if (!std::isfinite(v)) violate("C03:not-finite", "generator %d returned %g", k.op, v);
        if (k.op == 2 || k.op == 7 || k.op == 10) continue;
        double lo = k.op == 6 || k.op == 11 ? 0 : k.op == 8 ? std::fabs(k.lo) : k.op == 9 ? k.lo * 1024 : k.lo, hi = k.op == 6 ? 1 : k.op == 11 ? 100 : k.op == 8 ? lo + (k.hi - k.lo) : k.op == 9 ? k.hi * 1024 : k.hi;
        if ((k.op == 4 || k.op == 5 || k.op == 8 || k.op == 9 || k.op == 11) && v != std::floor(v)) violate("C03:not-an-integer", "generator %d returned %.17g", k.op, v);
        double slack = k.op == 1 ? 1e-6 * (std::fabs(lo) + std::fabs(hi)) : 0;
        if (v < lo - slack || v > hi + slack) violate("C03:out-of-bounds", "generator %d returned %.17g outside [%.17g, %.17g]", k.op, v, lo, hi);
    }
    // independent draws: a continuous sample repeats no value
    if ((k.op == 0 || k.op == 2 || k.op == 6 || k.op == 7) && m.size() > 1 && (k.op > 2 || k.hi > k.lo) && !(k.op == 2 && k.hi == 0)) {
        std::set<double> s(m.data(), m.data() + m.size());
        if ((long)s.size() < m.size()) violate("C03:repeated-values", "generator %d repeated values in %s", k.op, shape(m).c_str());
    }
}
static Call pick() {
    Call k; k.op = (int)choose(12, "op");
    uint64_t rk = choose(40, "rows.kind");
    k.r = rk == 39 ? (choose(24, "vast") == 23 ? range(65000, 70000, "rows") : range(300, 3000, "rows")) : rk >= 36 ? range(20, 200, "rows") : range(k.op == 3 ? 1 : 0, 8, "rows"); k.c = k.r > 60000 ? 1 : range(1, 6, "cols");
    switch (choose(7, "bounds")) {
        case 0: k.lo = 0; k.hi = 1; break;
        case 1: k.lo = -3; k.hi = 4; break;
        case 2: k.lo = 5; k.hi = 5; break;
        case 3: k.lo = -1000; k.hi = 1000; break;
        case 4: k.lo = -2147483648.0; k.hi = 2147483647.0; break;
        case 5: k.lo = -1 - (double)choose(50, "low"); k.hi = k.lo + (double)choose(3, "width"); break;
        default: k.lo = 0; k.hi = 1 + (double)choose(50, "hi");
    }
    if (k.op == 2 || k.op == 10) { k.hi = std::fabs(k.hi) + 0.5; }
    return k;
}
SIM_SCENARIO("C03") {
    Env e = choose_env();
    int n = range(1, 5, "calls");
    for (int i = 0; i < n; i++) {
        Call k = pick();
        e.ent_seed += i;
        set_env(e);
        heap_fill((int)choose(5, "fill"), i);
        Mat a = run(k);
        check(k, a);
        uint64_t used = env_use().entropy;
        if (!used) count("no entropy drawn");
        if (env_use().clock || env_use().rnd) count("drew from a source other than entropy");
        // again: other clock, other rand, other memory, after other calls
        Env f = e; f.clk_base += 12345; f.clk_mode = 0; f.rnd_seed ^= 0x55; set_env(f);
        heap_fill((int)choose(5, "fill"), i + 99); dirty_stack((int)choose(5, "stack"), i);
        Mat b = run(k);
        if (!bit_equal(a, b)) violate("C03:not-entropy-alone", "generator %d gave different values for the same arguments and entropy", k.op);
        // a failing entropy source is an error, never a value
        if (choose(4, "fail") == 3) {
            Env g = e; g.ent_fail_at = 0; g.ent_fail_forever = true; set_env(g);
            Outcome o;
            o = attempt([&] { if (k.op == 3) (void)openml::random::permutation<IdxVec>(k.r); else if (k.op == 4) (void)openml::random::randint<int>(k.r, k.c, 0, 9); else if (k.op == 2) (void)openml::random::randn<Mat>(k.r, k.c); else (void)openml::random::rand<Mat>(k.r, k.c); });
            if (o.ok() && entropy_fault_fired()) violate("C03:entropy-failure-hidden", "generator %d returned although the entropy source failed", k.op);
        }
        event("op=%d %dx%d mode=%d seed=%llu -> %llx", k.op, k.r, k.c, e.ent_mode, (unsigned long long)e.ent_seed, (unsigned long long)hmat(a));
        state(hmix(hmix(k.op, e.ent_mode), std::min(k.r, 10)));
        if (i == 0) sample("generator %d, %dx%d in [%g,%g], entropy mode %d value %u", k.op, k.r, k.c, k.lo, k.hi, e.ent_mode, env_entropy_value(e, 0));
    }
    heap_check();
    nontrivial();
}

// distribution over entropy values
static double ks(std::vector<double> v, double (*cdf)(double)) {
    std::sort(v.begin(), v.end()); double d = 0, n = v.size();
    for (size_t i = 0; i < v.size(); i++) { double c = cdf(v[i]); d = std::max(d, std::max(std::fabs(c - i / n), std::fabs((i + 1) / n - c))); }
    return d;
}
static double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static double uni(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
SIM_SCENARIO("C03.dist") {
    Env e; e.ent_mode = choose(2, "counting") ? 2 : 0; e.ent_seed = choose(1u << 31, "ent.seed");
    Call k; k.op = (int)choose(6, "op");
    double lo = -2, hi = 5; k.lo = lo; k.hi = hi;
    int E = 700;
    if (k.op == 2) { k.lo = 1.5; k.hi = 2.0; }
    if (k.op == 4 || k.op == 5) { k.lo = (int)choose(5, "lo") - 2; k.hi = k.lo + 1 + (double)choose(9, "width"); }
    int n = 2 + (int)choose(3, "n");
    if (k.op == 3 && choose(4, "long") == 3) {       // each quarter of a long permutation holds indices from everywhere
        k.r = n = range(30, 400, "n.long"); k.c = 1; std::vector<double> quarter[4];
        for (int t = 0; t < 60; t++) {
            Env f = e; f.ent_mode = 0; f.ent_seed = Rng(e.ent_seed + 31ull * t).next() & 0x7fffffff; set_env(f);
            Mat a = run(k); check(k, a); state(hmat(a));
            for (int i = 0; i < n; i++) quarter[4 * i / n].push_back((a(i, 0) + 0.5) / n);
        }
        for (int q = 0; q < 4; q++) { double d = ks(quarter[q], uni); if (d > 2.6 / std::sqrt((double)quarter[q].size()) + 1.0 / n) violate("C03:permutation-bias", "quarter %d of permutations of %d is off the uniform distribution: KS distance %.3f", q, n, d); }
        heap_check(); nontrivial(); count("long permutations tested"); sample("permutations of %d, 60 entropy values", n); return;
    }
    if (k.op >= 4 && choose(5, "wide") == 4) {        // a wide range: every integer in it still occurs, about equally often
        k.lo = (double)choose(4000, "lo.wide") - 2000; int w = 300 + (int)choose(2700, "width.wide"); k.hi = k.lo + w - 1; k.r = 3000; k.c = 1; if (k.op == 4) { k.r = 60; k.c = 50; }
        std::vector<int> cnt(w, 0); const int R = 40; double ex = R * 3000.0 / w;
        for (int t = 0; t < R; t++) {
            Env f = e; f.ent_mode = 0; f.ent_seed = Rng(e.ent_seed + 31ull * t).next() & 0x7fffffff; set_env(f);
            Mat a = run(k); check(k, a); state(hmat(a)); for (int i = 0; i < a.size(); i++) cnt[(int)(a.data()[i] - k.lo)]++;
        }
        for (int v = 0; v < w; v++) {
            if (!cnt[v]) violate("C03:integer-unreachable", "%g in [%g,%g] never occurred in %d draws", k.lo + v, k.lo, k.hi, R * 3000);
            if (std::fabs(cnt[v] - ex) > 9 * std::sqrt(ex) + 10) violate("C03:integer-bias", "%g in [%g,%g] occurred %d times in %d draws", k.lo + v, k.lo, k.hi, cnt[v], R * 3000);
        }
        heap_check(); nontrivial(); count("wide integer ranges tested"); sample("integers in [%g,%g], %d entropy values", k.lo, k.hi, R); return;
    }
    k.r = k.op == 3 ? n : 3; k.c = k.op == 3 || k.op == 5 ? 1 : 2;
    std::map<std::pair<double, double>, int> pairs;
    std::vector<double> first, all; std::map<std::vector<double>, int> perms; std::map<double, int> hits;
    for (int t = 0; t < E; t++) {
        Env f = e; f.ent_seed = e.ent_mode == 2 ? e.ent_seed + t : (uint32_t)rng_raw() ^ 0;
        if (e.ent_mode == 0) f.ent_seed = Rng(e.ent_seed + 31ull * t).next() & 0x7fffffff;
        set_env(f);
        Mat a = run(k); check(k, a);
        if (k.op == 3) perms[std::vector<double>(a.data(), a.data() + a.size())]++;
        else if (k.op >= 4) for (int i = 0; i < a.size(); i++) hits[a.data()[i]]++;
        if (k.op >= 4) { pairs[{a.data()[0], a.data()[1]}]++; pairs[{a.data()[a.size() - 2], a.data()[a.size() - 1]}]++; }
        else { double s = k.op == 2 ? 1 / k.hi : 1 / (hi - lo), o = k.lo; first.push_back((a(0, 0) - o) * s); for (int i = 0; i < a.size(); i++) all.push_back((a.data()[i] - o) * s); }
        state(hmat(a));
    }
    if (k.op == 3) {
        int f = 1; for (int i = 2; i <= n; i++) f *= i;
        if ((int)perms.size() != f) violate("C03:permutation-unreachable", "%zu of %d permutations of %d occurred for %d entropy values", perms.size(), f, n, E);
        for (auto& p : perms) if (p.second < E / f * 0.3 || p.second > E * 2.2 / f) violate("C03:permutation-bias", "a permutation of %d occurred %d times in %d", n, p.second, E);
    } else if (k.op >= 4) {
        int w = (int)(k.hi - k.lo) + 1, N = E * k.r * k.c;
        for (int v = 0; v < w; v++) {
            int h = hits.count(k.lo + v) ? hits[k.lo + v] : 0;
            if (!h) violate("C03:integer-unreachable", "%g in [%g,%g] never occurred in %d draws", k.lo + v, k.lo, k.hi, N);
            if (h < 0.5 * N / w || h > 1.6 * N / w) violate("C03:integer-bias", "%g in [%g,%g] occurred %d times in %d draws", k.lo + v, k.lo, k.hi, h, N);
        }
        if (w <= 4) for (int v = 0; v < w; v++) for (int u = 0; u < w; u++) { int h = pairs[{k.lo + v, k.lo + u}]; double ex = 2.0 * E / w / w; if (std::fabs(h - ex) > 8 * std::sqrt(ex)) violate("C03:integer-dependence", "neighbours %g and %g occurred together %d times, expected %.0f", k.lo + v, k.lo + u, h, ex); }
    } else {
        double d1 = ks(first, k.op == 2 ? phi : uni), d2 = ks(all, k.op == 2 ? phi : uni);
        if (d1 > 0.13 || d2 > 0.075) violate("C03:distribution", "generator %d is off its distribution: KS distance %.3f (first draws), %.3f (all)", k.op, d1, d2);
    }
    event("op=%d E=%d n=%d", k.op, E, n);
    nontrivial();
    sample("generator %d over %d entropy values (%s)", k.op, E, e.ent_mode == 2 ? "consecutive" : "spread");
}
