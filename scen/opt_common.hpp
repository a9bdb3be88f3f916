// Optimisers driven through a recording loss whose values are scripted.
#pragma once
#include "core/optimizer/sgd/sgd.hpp"
#include "core/optimizer/sgd/sag.hpp"
#include "core/optimizer/sgd/tg.hpp"
#include "common.hpp"

struct SimError : std::runtime_error { using std::runtime_error::runtime_error; };

struct Call { bool grad; Mat X; Vec y; Mat W; Mat g; double f = 0; };
struct Rec {
    std::function<Mat(Rec&, const Mat& X, const Vec& y, const Mat& W)> gradient;
    std::function<double(Rec&, const Mat& X, const Vec& y, const Mat& W)> evaluate;
    std::vector<Call> calls;
    uint64_t ng = 0, ne = 0, limit = 100000;
    std::vector<Call> before; int earlier = 0; uint64_t earlier_seed = 0;   // calls made by earlier optimize() calls on the same object
    void check() { if (calls.size() > limit) sim::violate("hang", "more than %llu calls of the loss", (unsigned long long)limit); }
};
// An earlier use of the optimiser, with losses of its own that converge, go on falling or throw;
// what it leaves in the object must not reach the call that is checked.
template <class O> void use_before(O& o, Rec& r, const Mat& X, const Vec& y) {
    for (int t = 0; t < r.earlier; t++) {
        auto g = r.gradient; auto e = r.evaluate; auto rng = std::make_shared<sim::Rng>(hmix(r.earlier_seed, t)); int style;
        { sim::Harness h; style = (int)rng->below(4); long at = style == 3 ? (long)rng->below(12) : -1;
          r.gradient = [rng](Rec&, const Mat&, const Vec&, const Mat& W) { Mat g(W.rows(), W.cols()); for (int i = 0; i < g.size(); i++) g(i) = rng->normal(); return g; };
          r.evaluate = [style, at](Rec& q, const Mat&, const Vec&, const Mat& W) { Call c; c.W = W; q.before.push_back(c); if ((long)q.ne == at) throw SimError("loss refused"); return style == 0 ? -1e6 : style == 1 ? -3.0 * q.ne : q.ne % 3 ? -50 : 40.0; }; }
        try { o.optimize(X, y); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) {}
        { sim::Harness h; for (auto& c : r.calls) r.before.push_back(c); r.calls.clear(); r.ng = r.ne = 0; r.gradient = g; r.evaluate = e; sim::count("earlier uses of the same optimiser"); }
    }
}
struct SimLoss {
    Rec* r;
    double evaluate(const Mat& X, const Vec& y, const Mat& W) const {
        sim::Harness h; r->check();
        double f = r->evaluate(*r, X, y, W);
        Call c; c.grad = false; c.X = X; c.y = y; c.W = W; c.f = f; r->calls.push_back(c); r->ne++;
        return f;
    }
    Mat gradient(const Mat& X, const Vec& y, const Mat& W) const {
        Mat out;
        { sim::Harness h; r->check();
          Call c; c.grad = true; c.X = X; c.y = y; c.W = W; c.g = r->gradient(*r, X, y, W); out = c.g; r->calls.push_back(c); r->ng++; }
        return out;
    }
};

struct OptParams {
    int alg = 0; size_t max_iter = 5, bs = 1, patience = 1; double tol = 0, alpha = 0, l1 = 0; bool shuffle = false, verbose = false, multi = false;
};
// runs one optimiser; coef is what get_coef reports afterwards
template <class U, class D>
Outcome run_opt(const OptParams& p, const Mat& x0, Rec& rec, const U& u, const D& d, const Mat& X, const Vec& y, Mat& coef, bool* other = nullptr) {
    using namespace openml::optimizer;
    SimLoss L{&rec};
    auto body = [&](auto&& o) { use_before(o, rec, X, y); o.optimize(X, y); coef = o.get_coef(); };
    auto go = [&] {
        if (p.alg == 0) body(SGD<double, SimLoss, U, D>(x0, L, u, d, p.max_iter, p.bs, p.patience, p.tol, p.shuffle, p.verbose, p.multi));
        else if (p.alg == 1) body(SAG<double, SimLoss, U, D>(x0, L, u, d, p.max_iter, p.bs, p.patience, p.tol, p.shuffle, p.verbose));
        else body(TruncatedGradient<double, SimLoss, U, D>(x0, L, u, d, p.max_iter, p.bs, p.patience, p.tol, p.alpha, p.l1, p.shuffle, p.verbose));
    };
    return attempt([&] { try { go(); } catch (const SimError&) { if (other) *other = true; throw; } });
}
static const char* const alg_name[] = {"SGD", "SAG", "TruncatedGradient"};
