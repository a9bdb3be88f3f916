// C02: shuffling and splitting keep every row with its label for every clock.
#include "core/math/shuffle.hpp"
#include "core/data/split.hpp"
#include "common.hpp"
using namespace sim;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> RMat;
typedef Eigen::VectorXi IVec;

// row i holds (i, data...), label i tagged; so a row identifies itself
template <class M> static M make(int n, int m, Rng& r) {
    M x(n, m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) x(i, j) = j == 0 ? i : r.below(5);
    return x;
}
template <class V> static V labels(int n) { V y(n); for (int i = 0; i < n; i++) y(i) = 3 * i + 1; return y; }

template <class M, class V>
static std::vector<int> order_of(const M& X, const V& y, const M& SX, const V& sy, const char* what) {
    int n = (int)X.rows();
    if (SX.rows() != n || SX.cols() != X.cols() || sy.size() != n) violate("C02:shape", "%s: %ldx%ld rows and %ld labels from %d rows", what, (long)SX.rows(), (long)SX.cols(), (long)sy.size(), n);
    std::vector<int> ord; std::vector<int> seen(n, 0);
    for (int i = 0; i < n; i++) {
        int k = X.cols() ? (int)SX(i, 0) : i;
        if (k < 0 || k >= n) violate("C02:row-invented", "%s: row %d is no original row", what, i);
        for (int j = 0; j < X.cols(); j++) if (SX(i, j) != X(k, j)) violate("C02:row-mixed", "%s: row %d mixes original rows", what, i);
        if (seen[k]++) violate("C02:row-repeated", "%s: original row %d appears twice", what, k);
        if (sy(i) != y(k)) violate("C02:label-detached", "%s: row %d (original %d) carries label %g instead of %g", what, i, k, (double)sy(i), (double)y(k));
        ord.push_back(k);
    }
    return ord;
}
static std::string perm(const std::vector<int>& o) { std::string s; for (size_t i = 0; i < o.size() && i < 12; i++) s += (i ? "," : "") + std::to_string(o[i]); return s; }

template <class M, class V> static void ops() {
    uint64_t nk = choose(200, "n.kind"); bool vast = nk == 199 && choose(24, "vast") == 23; int n = vast ? range(65000, 70000, "n") : nk == 199 ? range(1000, 6000, "n") : nk >= 175 ? range(20, 300, "n") : range(0, 9, "n");
    int m = vast ? 1 : range(1, 5, "m");
    Rng r = data_rng("data");
    M X = make<M>(n, m, r); V y = labels<V>(n);
    const M X0 = X; const V y0 = y;
    Env e = choose_env();
    set_console((int)choose(3, "console"), choose(64, "console.at"));
    int k = vast ? 1 : range(1, 3, "ops");
    for (int q = 0; q < k; q++) {
        int op = (int)choose(5, "op");
        heap_fill((int)choose(5, "fill"), q);
        if (n == 0 && op == 2) op = 0;
        set_env(e);
        uint64_t fa = choose(8, "fault") == 7 ? 1 + choose(6, "alloc.at") : 0;
        if (op == 0 || op == 1) {               // out of place, twice with the same clock
            M SX; V sy;
            heap_fail_at(fa, false);
            Outcome o = attempt([&] { openml::random::shuffle_data<M, V>(X, y, SX, sy); });
            bool fired = heap_fault_fired() && fa; heap_fail_at(0, false);
            if (X != X0 || y != y0) violate("C02:input-changed", "shuffle changed its inputs");
            if (!o.ok()) { if (!fired) violate("C02:threw", "shuffle threw: %s", o.what.c_str()); continue; }
            auto a = order_of(X, y, SX, sy, "shuffle");
            event("shuffle n=%d -> %s", n, perm(a).c_str());
            state(hash_bytes(a.data(), a.size() * 4, n));
            // same clock, other data, other entropy, other rand(): same order
            Env e2 = e; e2.ent_seed ^= 77; e2.rnd_seed ^= 99; set_env(e2);
            Rng r2(q + 5); M X2 = make<M>(n, m + 1, r2); M S2; V s2;
            heap_fill((int)choose(5, "fill"), q + 9);
            Outcome o2 = attempt([&] { openml::random::shuffle_data<M, V>(X2, y, S2, s2); });
            if (!o2.ok()) violate("C02:threw", "shuffle threw: %s", o2.what.c_str());
            auto b = order_of(X2, y, S2, s2, "shuffle");
            if (a != b) violate("C02:not-clock-alone", "the same clock reading gave order %s and then %s", perm(a).c_str(), perm(b).c_str());
            count("out-of-place shuffles");
        } else if (op == 2) {                   // in place
            M Y = X, Y2; V z = y, z2; set_env(e);
            int half = (int)choose(4, "in.place");        // all, or only the rows or only the labels, are replaced
            Outcome o = attempt([&] {
                if (half == 1) { openml::random::shuffle_data<M, V>(Y, z, Y, z2); if (z != y0) violate("C02:input-changed", "shuffle changed the labels it was given"); z = z2; }
                else if (half == 2) { openml::random::shuffle_data<M, V>(Y, z, Y2, z); if (Y != X0) violate("C02:input-changed", "shuffle changed the rows it was given"); Y = Y2; }
                else openml::random::shuffle_data<M, V>(Y, z, Y, z);
            });
            if (!o.ok()) violate("C02:threw", "in-place shuffle threw: %s", o.what.c_str());
            auto a = order_of(X, y, Y, z, "in-place shuffle");
            M SX; V sy; set_env(e);
            o = attempt([&] { openml::random::shuffle_data<M, V>(X, y, SX, sy); });
            if (o.ok() && order_of(X, y, SX, sy, "shuffle") != a) violate("C02:in-place-order", "in place and out of place disagree for the same clock");
            event("in place n=%d -> %s", n, perm(a).c_str());
            count("in-place shuffles");
        } else if (op == 3) {                   // matrix alone, rows or columns
            int axis = (int)choose(2, "axis");
            M SX; M Z = axis ? X : M(X.transpose());
            const M Z0 = Z; const bool inpl = choose(4, "in.place") == 3; set_env(e);
            Outcome o = attempt([&] { if (inpl) { M W = Z; openml::random::shuffle_data<M>(W, W, axis); SX = W; } else openml::random::shuffle_data<M>(Z, SX, axis); });
            if (!o.ok()) violate("C02:threw", "matrix shuffle threw: %s", o.what.c_str());
            if (Z != Z0) violate("C02:input-changed", "matrix shuffle changed its input");
            M back = axis ? SX : M(SX.transpose());
            auto a = order_of(X, y, back, [&] { V w(n); if (back.rows() == n) for (int i = 0; i < n; i++) { int id = (int)back(i, 0); w(i) = id >= 0 && id < n ? y(id) : -1; } return w; }(), "matrix shuffle");
            event("matrix axis=%d n=%d -> %s", axis, n, perm(a).c_str());
            count("matrix shuffles");
        } else {                                // split
            static const double fr[] = {0.75, 0.5, 0.8, 0.0, 1.0, 0.1, 0.33, 0.999};
            uint64_t fk = choose(11, "fraction");
            double f = fk < 8 ? fr[fk] : choose(1001, "permille") / 1000.0;
            if (fk >= 9 && n) { f = (double)choose(n + 1, "rows.train") / n; double w = std::pow(10.0, -2 - (double)choose(12, "off")); f = std::min(1.0, f * (fk == 9 ? 1 + w : 1 - w)); }   // just beside a whole number of rows
            bool sh = choose(3, "shuffle") != 0;
            heap_fail_at(fa, false);
            std::tuple<M, M, V, V> t;
            Outcome o = attempt([&] { t = openml::data::train_test_split<M, V>(X, y, f, sh); });
            bool fired = heap_fault_fired() && fa; heap_fail_at(0, false);
            if (X != X0 || y != y0) violate("C02:input-changed", "split changed its inputs");
            if (!o.ok()) { if (!fired) violate("C02:threw", "split threw: %s", o.what.c_str()); continue; }
            const M &a = std::get<0>(t), &b = std::get<1>(t); const V &ya = std::get<2>(t), &yb = std::get<3>(t);
            double ex = n * f; int lo = (int)std::floor(ex - 1e-9), hi = (int)std::floor(ex + 1e-9);
            if (a.rows() != lo && a.rows() != hi) violate("C02:train-size", "%ld training rows of %d for fraction %.17g", (long)a.rows(), n, f);
            if (b.rows() != n - a.rows() || ya.size() != a.rows() || yb.size() != b.rows()) violate("C02:part-sizes", "parts of %ld+%ld rows and %ld+%ld labels from %d", (long)a.rows(), (long)b.rows(), (long)ya.size(), (long)yb.size(), n);
            M J(n, m); V jy(n);
            if (a.cols() != m || b.cols() != m) violate("C02:shape", "split changed the number of columns");
            J.topRows(a.rows()) = a; J.bottomRows(b.rows()) = b; jy.topRows(a.rows()) = ya; jy.bottomRows(b.rows()) = yb;
            auto ord = order_of(X, y, J, jy, "split");
            if (!sh) for (int i = 0; i < n; i++) if (ord[i] != i) violate("C02:order-changed", "split without shuffling moved row %d", i);
            if (sh) {
                M SX; V sy; set_env(e); std::tuple<M, M, V, V> t2;
                attempt([&] { t2 = openml::data::train_test_split<M, V>(X, y, f, true); });
                if (std::get<0>(t2) != a || std::get<1>(t2) != b) violate("C02:not-clock-alone", "the same clock reading split differently");
            }
            event("split n=%d f=%g sh=%d -> %s", n, f, sh, perm(ord).c_str());
            count(sh ? "shuffled splits" : "ordered splits");
        }
    }
    heap_check();
    nontrivial();
    sample("n=%d m=%d clk.mode=%d base=%lld, %d ops", n, m, e.clk_mode, (long long)e.clk_base, k);
}
SIM_SCENARIO("C02") {
    switch (choose(3, "types")) {
        case 0: ops<Mat, Vec>(); break;
        case 1: ops<RMat, Vec>(); break;
        default: ops<Mat, IVec>();
    }
}

// every ordering of a small dataset, every row in every position
SIM_SCENARIO("C02.reach") {
    const bool large = choose(5, "large") == 4;
    int n = large ? range(30, 420, "n.large") : range(2, 7, "n");
    Rng r = data_rng("data");
    Mat X = make<Mat>(n, 2, r); Vec y = labels<Vec>(n);
    Env e; e.clk_mode = 1;
    bool split = choose(2, "via.split");
    bool near = choose(2, "near");          // readings a few microseconds apart, or anywhere
    int64_t base = (int64_t)choose(1ull << 62, "base");
    int M = large ? 50 : n <= 4 ? 900 : 500;
    std::vector<double> quarter[4]; std::vector<std::set<int>> rows_at(n);
    std::map<std::vector<int>, int> seen; std::vector<std::vector<int>> pos(n, std::vector<int>(n, 0));
    for (int t = 0; t < M; t++) {
        e.clk_base = near ? base + (int64_t)r.below(4000000) : (int64_t)(r.next() >> 1);
        set_env(e);
        Mat S; Vec s;
        Outcome o = attempt([&] {
            if (!split) openml::random::shuffle_data<Mat, Vec>(X, y, S, s);
            else { auto tt = openml::data::train_test_split<Mat, Vec>(X, y, 1.0, true); S = std::get<0>(tt); s = std::get<2>(tt); }
        });
        if (!o.ok()) violate("C02:threw", "shuffle threw: %s", o.what.c_str());
        auto a = order_of(X, y, S, s, "shuffle");
        state(hash_bytes(a.data(), a.size() * 4, n));
        if (large) { for (int i = 0; i < n; i++) { rows_at[i].insert(a[i]); quarter[4 * i / n].push_back((a[i] + 0.5) / n); } continue; }
        seen[a]++; for (int i = 0; i < n; i++) pos[i][a[i]]++;
    }
    if (large) {     // every part of the order gets rows from everywhere
        for (int i = 0; i < n; i++) if (rows_at[i].size() < 5) violate("C02:position-unreachable", "%zu different rows reached position %d of %d in %d clock readings", rows_at[i].size(), i, n, M);
        for (int q = 0; q < 4; q++) {
            std::sort(quarter[q].begin(), quarter[q].end()); double d = 0, N = quarter[q].size();
            for (size_t i = 0; i < quarter[q].size(); i++) d = std::max(d, std::fabs(quarter[q][i] - (i + 0.5) / N));
            if (d > 0.2) violate("C02:position-unreachable", "quarter %d of the orders of %d rows is off the uniform distribution by %.3f", q, n, d);
        }
        event("n=%d near=%d quarters", n, near); nontrivial(); count("long orders tested"); sample("n=%d, %d clock readings, long", n, M); return;
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!pos[i][j]) violate("C02:position-unreachable", "in %d clock readings row %d never reached position %d of %d", M, j, i, n);
    int f = 1; for (int i = 2; i <= n; i++) f *= i;
    if (n <= 4 && (int)seen.size() != f) violate("C02:ordering-unreachable", "in %d clock readings only %zu of %d orderings of %d rows occurred", M, seen.size(), f, n);
    event("n=%d near=%d orderings=%zu", n, near, seen.size());
    nontrivial();
    sample("n=%d, %d clock readings (%s), %zu orderings", n, M, near ? "close together" : "anywhere", seen.size());
}
