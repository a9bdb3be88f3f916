// C16: KD-tree answers are exact under concurrency, faults and copies.
#include "core/tree/kd_tree.hpp"
#include "common.hpp"
using namespace sim;

template <class T> struct K {
    typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> M;
    typedef openml::tree::KDTree<T> Tree;
    typedef std::vector<std::vector<std::pair<T, size_t>>> Rad;
    struct Data { M X; int metric; bool exact; double tol; };
    static double dist(const Data& d, int i, const M& q, int r) {
        double s = 0;
        for (int j = 0; j < d.X.cols(); j++) {
            double a = std::fabs((double)d.X(i, j) - (double)q(r, j));
            if (d.metric == 0) s += a * a; else if (d.metric == 1) s += a; else s = std::max(s, a);
        }
        return d.metric == 0 ? std::sqrt(s) : s;
    }
    static void judge_knn(const Data& d, const M& q, int k, const M& D, const Eigen::Matrix<Eigen::Index, -1, -1>& I) {
        if (D.rows() != q.rows() || D.cols() != k || I.rows() != q.rows() || I.cols() != k) violate("C16:shape", "query of %ld points for %d neighbours returned %ldx%ld", (long)q.rows(), k, (long)D.rows(), (long)D.cols());
        int n = (int)d.X.rows();
        for (int r = 0; r < q.rows(); r++) {
            std::vector<double> all(n); for (int i = 0; i < n; i++) all[i] = dist(d, i, q, r);
            std::vector<double> s = all; std::sort(s.begin(), s.end());
            std::set<long> used;
            for (int j = 0; j < k; j++) {
                long ix = (long)I(r, j); double dd = (double)D(r, j);
                if (ix < 0 || ix >= n) violate("C16:index", "neighbour index %ld of %d points", ix, n);
                if (!used.insert(ix).second) violate("C16:point-twice", "point %ld returned twice among %d neighbours of %d points", ix, k, n);
                if (!close(dd, all[ix], d.tol, d.tol)) violate("C16:distance", "neighbour %d is point %ld at reported distance %.17g, really %.17g", j, ix, dd, all[ix]);
                if (!close(dd, s[j], d.tol, d.tol)) violate("C16:not-nearest", "neighbour %d of query %d has distance %.17g, the true one %.17g (n=%d k=%d)", j, r, dd, s[j], n, k);
                if (j && dd < (double)D(r, j - 1)) violate("C16:order", "distances not ascending");
            }
        }
    }
    // what is wrong with this list as the answer to query r (empty: nothing)
    static std::pair<std::string, std::string> judge_list(const Data& d, const M& q, int r, double rad, const std::set<size_t>& must, const std::set<size_t>& may, const typename Rad::value_type& list) {
        char b[200]; std::set<size_t> got; int n = (int)d.X.rows();
        auto bad = [&](const char* c) { return std::make_pair(std::string(c), std::string(b)); };
        for (auto& p : list) {
            size_t i = (size_t)p.second;
            if (i >= (size_t)n) { snprintf(b, sizeof b, "radius result index %zu of %d points", i, n); return bad("C16:index"); }
            if (!got.insert(i).second) { snprintf(b, sizeof b, "point %zu listed twice within radius", i); return bad("C16:point-twice"); }
            double x = dist(d, (int)i, q, r);
            if (!may.count(i)) { snprintf(b, sizeof b, "point %zu at distance %.17g listed within radius %.17g", i, x, rad); return bad("C16:radius-outside"); }
            if (!close((double)p.first, x, d.tol, d.tol)) { snprintf(b, sizeof b, "point %zu listed at %.17g, really %.17g", i, (double)p.first, x); return bad("C16:distance"); }
        }
        for (size_t m : must) if (!got.count(m)) { snprintf(b, sizeof b, "point %zu at distance %.17g missing within radius %.17g (n=%d)", m, dist(d, (int)m, q, r), rad, n); return bad("C16:radius-missing"); }
        return {};
    }
    static void judge_radius(const Data& d, const M& q, double rad, const Rad& res) {
        int n = (int)d.X.rows();
        // a query without hits may be reported as an empty list or dropped
        Rad have; for (auto& w : res) if (!w.empty()) have.push_back(w);
        // reach[a]: the queries so far can account for exactly the first a lists; a query with only borderline points may or may not have one
        size_t H = have.size(); std::vector<char> reach(H + 1, 0), next; reach[0] = 1;
        for (int r = 0; r < q.rows(); r++) {
            std::set<size_t> must, may;
            for (int i = 0; i < n; i++) {
                double x = dist(d, i, q, r);
                double t = d.exact ? 0 : d.tol * (1 + rad);
                if (x <= rad - t) must.insert(i);
                if (x <= rad + t) may.insert(i);
            }
            if (may.empty()) continue;
            next.assign(H + 1, 0); std::pair<std::string, std::string> why; bool any = false;
            if (must.empty()) for (size_t a = 0; a <= H; a++) if (reach[a]) next[a] = 1, any = true;
            for (size_t a = 0; a < H; a++) if (reach[a]) {
                auto w = judge_list(d, q, r, rad, must, may, have[a]);
                if (w.first.empty()) next[a + 1] = 1, any = true; else if (why.first.empty()) why = w;
            }
            if (!any) {
                if (why.first.empty()) violate("C16:radius-missing", "query %d has %zu points within %.17g but no result", r, must.size(), rad);
                violate(why.first.c_str(), "%s", why.second.c_str());
            }
            reach.swap(next);
        }
        if (!reach[H]) violate("C16:radius-extra", "%zu non-empty radius results do not belong to the %ld queries one by one", H, (long)q.rows());
    }
    static Data make_data(Rng& r, bool threads) {
        Data d; uint64_t nk = choose(300, "n.kind"); int n = nk == 299 ? (!threads && choose(24, "vast") == 23 ? range(65000, 67000, "n") : range(400, 1500, "n")) : nk >= 275 ? range(60, 160, "n") : range(1, 24, "n"), m = choose(40, "dims.kind") == 39 ? range(5, 12, "dims") : range(1, 4, "dims");
        if (n > 60000) step_budget(20000000000ull);                       // so many points honestly take this long
        d.metric = (int)choose(3, "metric"); int kind = (int)choose(5, "data.kind");
        M X(n, m);
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
            double v;
            if (kind == 0) v = (int)r.below(4);                      // many ties and duplicates
            else if (kind == 1) v = (int)r.below(21) - 10;
            else if (kind == 2) v = r.normal();
            else if (kind == 3) v = 10.0 * (int)r.below(3) + 0.1 * r.normal();
            else v = j == 0 ? (int)r.below(9) : 2;                   // flat in all but one direction
            X(i, j) = (T)v;
        }
        d.X = X; d.exact = (kind != 2 && kind != 3) && d.metric != 0; d.tol = sizeof(T) == 4 ? 2e-5 : 1e-10;
        return d;
    }
    static M make_query(const Data& d, Rng& r, int rows) {
        M q(rows, d.X.cols());
        for (int i = 0; i < rows; i++) {
            int base = (int)r.below(d.X.rows()), how = (int)r.below(4);
            for (int j = 0; j < q.cols(); j++) q(i, j) = how == 0 ? d.X(base, j) : how == 1 ? d.X(base, j) + (T)((int)r.below(5) - 2) : how == 2 ? (T)(d.exact ? (int)r.below(40) - 20 : 10 * r.normal()) : (d.exact ? d.X((int)r.below(d.X.rows()), j) : d.X(base, j) + (T)r.normal());
        }
        return q;
    }
    struct Q { int kind; M q; int k; double rad; M D; Eigen::Matrix<Eigen::Index, -1, -1> I; Rad R; Outcome o; };
    static Q make_q(const Data& d, Rng& r) {
        Q x; x.kind = (int)choose(2, "q.kind"); const bool vast = d.X.rows() > 60000; x.q = make_query(d, r, vast ? 1 : choose(60, "q.many") == 59 ? (choose(8, "q.crowd") == 7 && d.X.rows() < 40 ? range(250, 1100, "q.rows") : range(10, 70, "q.rows")) : range(1, 3, "q.rows"));
        x.k = 1 + (int)choose((uint64_t)d.X.rows(), "k"); if (choose(3, "k.small")) x.k = 1 + (x.k - 1) % std::min<int>(4, (int)d.X.rows());
        if (vast) x.k = 1 + x.k % 12;
        static const double rr[] = {0, 1, 2, 3, 0.5, 5, 100};
        x.rad = rr[choose(7, "radius")];
        if (!d.exact && choose(2, "rad.any")) x.rad = 0.1 * (double)choose(60, "rad");
        return x;
    }
    static void exec(const Tree& t, Q& x) {
        if (x.kind == 0) { auto p = t.query(x.q, x.k); x.D = p.first; x.I = p.second; }
        else { auto p = t.query_radius(x.q, x.rad); x.R = p; }
    }
    static void judge(const Data& d, const Q& x) { if (x.kind == 0) judge_knn(d, x.q, x.k, x.D, x.I); else judge_radius(d, x.q, x.rad, x.R); }
    static Tree* build(const Data& d, size_t leaf, bool dflt) {
        static const char* names[] = {"euclidean", "manhattan", "chebyshev"};
        Tree* t = nullptr;
        Outcome o = attempt([&] { t = dflt ? new Tree(d.X) : new Tree(d.X, leaf, names[d.metric]); });
        if (!o.ok()) violate("C16:build", "building over %ld points threw: %s", (long)d.X.rows(), o.what.c_str());
        return t;
    }
    static void go(bool threads) {
        Rng r = data_rng("data");
        heap_fill((int)choose(5, "fill"), 11);
        struct Slot { Tree* t; Data d; };
        std::vector<Slot> slots;
        auto fresh = [&] { Data d = make_data(r, threads); size_t leaf = 1 + choose(12, "leaf"); if (choose(16, "leaf.wide") == 15) leaf *= 10; bool dflt = choose(6, "default") == 5 && d.metric == 0; return Slot{build(d, leaf, dflt), d}; };
        slots.push_back(fresh());
        const bool vast = slots[0].d.X.rows() > 60000;
        int ops = threads ? range(0, 3, "ops") : range(2, 10, "ops");
        if (vast) ops = 2;
        for (int i = 0; i < ops; i++) {
            size_t s = choose(slots.size(), "slot");
            switch (choose(8, "op")) {
                case 5: { if (slots.size() < 4) { Tree* c = nullptr; attempt([&] { c = new Tree(*slots[s].t); }); slots.push_back({c, slots[s].d}); event("copy"); count("tree copies"); } break; }
                case 6: { if (slots.size() > 1) { { Sut q; delete slots[s].t; } slots.erase(slots.begin() + s); event("destroy"); count("trees destroyed"); } else slots.push_back(fresh()); break; }
                case 7: { size_t b = choose(slots.size(), "from"); attempt([&] { *slots[s].t = *slots[b].t; }); slots[s].d = slots[b].d; event("assign"); count("tree assignments"); break; }
                default: {
                    Q x = make_q(slots[s].d, r);
                    bool fault = choose(4, "fault") == 3;
                    if (fault) heap_fail_at(1 + choose(60, "alloc.at"), chance(1, 3, "forever"));
                    Outcome o = attempt([&] { exec(*slots[s].t, x); });
                    bool fired = fault && heap_fault_fired(); heap_fail_at(0, false);
                    if (!o.ok()) {
                        if (!fired) violate("C16:threw", "query threw: %s", o.what.c_str());
                        count("queries failed for lack of memory");
                        o = attempt([&] { exec(*slots[s].t, x); });
                        if (!o.ok()) violate("C16:threw", "query after a failed one threw: %s", o.what.c_str());
                    }
                    judge(slots[s].d, x);
                    event("query kind=%d n=%ld k=%d r=%g", x.kind, (long)slots[s].d.X.rows(), x.k, x.rad);
                }
            }
        }
        if (threads) {
            int nt = range(2, 3, "threads");
            std::vector<std::vector<Q>> work(nt); std::vector<std::vector<size_t>> on(nt);
            for (int t = 0; t < nt; t++) { int m = range(1, 3, "calls"); for (int c = 0; c < m; c++) { size_t s = choose(slots.size(), "slot"); on[t].push_back(s); work[t].push_back(make_q(slots[s].d, r)); } }
            std::vector<std::function<void()>> b;
            for (int t = 0; t < nt; t++) b.push_back([&, t] { for (size_t c = 0; c < work[t].size(); c++) { Q& x = work[t][c]; const Tree& tr = *slots[on[t][c]].t; x.o = attempt([&] { exec(tr, x); }); } });
            run_threads(b);
            for (int t = 0; t < nt; t++) for (size_t c = 0; c < work[t].size(); c++) {
                if (!work[t][c].o.ok()) violate("C16:threw", "concurrent query threw: %s", work[t][c].o.what.c_str());
                judge(slots[on[t][c]].d, work[t][c]);
            }
            event("threads=%d switches=%llu", nt, (unsigned long long)sched_stats().switches);
            if (sched_stats().switches > (uint64_t)nt) count("interleaved concurrent phases");
            // the tree still answers afterwards
            for (auto& s : slots) { Q x = make_q(s.d, r); Outcome o = attempt([&] { exec(*s.t, x); }); if (!o.ok()) violate("C16:threw", "query after threads threw: %s", o.what.c_str()); judge(s.d, x); }
        } else { uint64_t h = hmix(ops, slots.size()); for (auto& s : slots) h = hmat(s.d.X.template cast<double>(), h); state(h); }
        heap_check();
        sample("%s: %ld points x %ld, metric %d, %d ops, %zu trees%s", sizeof(T) == 4 ? "float" : "double", (long)slots[0].d.X.rows(), (long)slots[0].d.X.cols(), slots[0].d.metric, ops, slots.size(), threads ? ", concurrent queries" : "");
        for (auto& s : slots) { Sut q; delete s.t; }
        heap_check();
        nontrivial();
    }
};
SIM_SCENARIO("C16") { if (choose(5, "float") == 4) K<float>::go(false); else K<double>::go(false); }
SIM_SCENARIO("C16.threads") { if (choose(5, "float") == 4) K<float>::go(true); else K<double>::go(true); }
