// C07: L-BFGS never returns a worse point and terminates under loss faults.
#include "opt_common.hpp"
#include "core/optimizer/lbfgs/params.hpp"
#include "core/optimizer/lbfgs/lbfgs.hpp"
using namespace sim;

struct Region { int kind; Vec c; double t; int what; };   // 0 ball, 1 half space; what 0 f NaN, 1 f +inf, 2 gradient NaN, 3 gradient inf
struct Obj {
    int fam = 0; Mat A; Vec c; double rho = 1; std::vector<Region> bad; int m = 1; double sc = 1;
    int inside(const Vec& x) const {
        for (auto& r : bad) if (r.kind == 0 ? (x - r.c).norm() < r.t : r.c.dot(x) > r.t) return r.what;
        return -1;
    }
    double smooth(const Vec& x) const {
        Vec d = x - c;
        switch (fam) {
            case 0: return 0.5 * d.dot(A * d) - 3;
            case 1: { double s = 0.5 * rho * x.squaredNorm(); for (int i = 0; i < A.rows(); i++) { double z = A.row(i).dot(x) - c(i % m); s += z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); } return s; }
            case 2: { double s = 0; for (int i = 0; i + 1 < m; i++) s += 10 * std::pow(x(i + 1) - x(i) * x(i), 2) + std::pow(1 - x(i), 2); if (m == 1) s = std::pow(1 - x(0), 2); return s; }
            case 3: return d.array().pow(4).sum() + 0.5 * d.squaredNorm();
            case 4: return c.dot(x);                               // unbounded below
            case 5: return d.lpNorm<1>();                          // kinks
            case 6: return 0;                                      // constant
            default: return std::cos(d.sum()) + 0.1 * d.array().sin().sum() - 0.01 * d.squaredNorm();
        }
    }
    Vec dsmooth(const Vec& x) const {
        Vec d = x - c, g = Vec::Zero(m);
        switch (fam) {
            case 0: return A * d;
            case 1: g = rho * x; for (int i = 0; i < A.rows(); i++) { double z = A.row(i).dot(x) - c(i % m); g += A.row(i).transpose() / (1 + std::exp(-z)); } return g;
            case 2: for (int i = 0; i + 1 < m; i++) { double u = x(i + 1) - x(i) * x(i); g(i) += -40 * x(i) * u - 2 * (1 - x(i)); g(i + 1) += 20 * u; } if (m == 1) g(0) = -2 * (1 - x(0)); return g;
            case 3: return 4 * d.array().cube().matrix() + d;
            case 4: return c;
            case 5: for (int i = 0; i < m; i++) g(i) = d(i) > 0 ? 1 : d(i) < 0 ? -1 : 0; return g;
            case 6: return g;
            default: g.setConstant(-std::sin(d.sum())); g += 0.1 * d.array().cos().matrix() - 0.02 * d; return g;
        }
    }
    double f(const Vec& x) const { if (!(x.norm() < 1e100)) return NAN; int w = inside(x); return w == 0 ? NAN : w == 1 ? INFINITY : sc * smooth(x); }
    Vec g(const Vec& x) const { int w = inside(x); if (w >= 0) return Vec::Constant(m, w == 1 || w == 3 ? INFINITY : NAN); return sc * dsmooth(x); }
};

struct LP { double dec = 0.5, inc = 2.1, ftol = 1e-4, wolfe = 0.9, maxs = 1e20, mins = 1e-20; size_t ls = 40; std::string cond = "WOLFE"; };
struct BP { size_t max_iter = 0, mem = 8, past = 3; double tol = 1e-5, delta = 1e-6; bool bracket = false; };

// reference implementation: textbook two-loop recursion over whole histories.
// noise perturbs every gradient, to tell which runs rounding can steer elsewhere.
static Vec reference(const Obj& o, const LP& lp, const BP& bp, const Vec& x0, long fault_at, double noise, Rng r, int& iters, std::string& why) {
    long ne = 0, ng = 0;
    auto F = [&](const Vec& x) { long k = ne++; if (fault_at >= 0 && k >= fault_at) return (double)NAN; double v = o.f(x); return noise ? v * (1 + 1e-3 * noise * r.normal()) : v; };
    auto Gr = [&](const Vec& x) { ng++; Vec g = o.g(x); if (noise) for (int i = 0; i < g.size(); i++) g(i) *= 1 + noise * r.normal(); return g; };
    Vec x = x0; double fx = F(x); Vec g = Gr(x);
    std::vector<double> fs{fx}; std::vector<Vec> S, Y;
    iters = 0;
    auto small = [&] { return g.norm() / std::max(1.0, x.norm()) <= bp.tol; };
    if (small()) { why = "stationary start"; return x; }
    Vec d = -g; double step = 1 / d.norm();
    for (size_t k = 1;; k++) {
        Vec xp = x, gp = g; double f0 = fx, dg0 = d.dot(g); bool ok = false;
        if (!(step <= 0) && !(dg0 > 0)) {
            double lo = 0, hi = INFINITY;
            for (size_t cnt = 1;; cnt++) {
                x = xp + step * d; fx = F(x); g = Gr(x);
                double dg = d.dot(g);
                int verdict;                                  // 0 accept, 1 too long, 2 too short
                if (!(fx <= f0 + lp.ftol * step * dg0)) verdict = 1;
                else if (lp.cond == "ARMIJO") verdict = 0;
                else if (dg < lp.wolfe * dg0) verdict = 2;
                else if (lp.cond == "WOLFE") verdict = 0;
                else verdict = dg > -lp.wolfe * dg0 ? 1 : 0;
                if (!verdict) { ok = true; break; }
                if (verdict == 1) hi = step; else lo = step;
                if (step < lp.mins || step > lp.maxs || cnt >= lp.ls) break;
                if (!bp.bracket) step *= verdict == 1 ? lp.dec : lp.inc;
                else step = std::isinf(hi) ? 2 * step : (lo + hi) / 2;
            }
        }
        if (!ok) { why = "line search failed"; return xp; }
        iters++; fs.push_back(fx);
        if (small()) { why = "gradient"; return x; }
        if (bp.past && bp.past <= k && std::fabs(fs[k - bp.past] - fx) / std::max(1.0, std::fabs(fx)) < bp.delta) { why = "delta"; return x; }
        if (bp.max_iter && k >= bp.max_iter) { why = "max_iter"; return x; }
        if (k > 20000) { why = "endless"; return x; }
        S.push_back(x - xp); Y.push_back(g - gp);
        if (S.size() > bp.mem) { S.erase(S.begin()); Y.erase(Y.begin()); }
        int b = (int)S.size(); std::vector<double> al(b);
        d = -g;
        for (int i = b - 1; i >= 0; i--) { al[i] = S[i].dot(d) / S[i].dot(Y[i]); d -= al[i] * Y[i]; }
        d *= S[b - 1].dot(Y[b - 1]) / Y[b - 1].squaredNorm();
        for (int i = 0; i < b; i++) d += (al[i] - Y[i].dot(d) / S[i].dot(Y[i])) * S[i];
        step = 1;
    }
}

SIM_SCENARIO("C07") {
    Obj ob; ob.m = choose(30, "wide") == 29 ? range(6, 20, "m") : range(1, 5, "m"); int m = ob.m;
    ob.fam = (int)choose(8, "family");
    bool convex = ob.fam == 0 || ob.fam == 1 || ob.fam == 3;
    static const double scales[] = {1, 1, 1, 1e-4, 1e3}; ob.sc = scales[choose(5, "scale")];
    Rng r = data_rng("data");
    ob.c = rand_mat(r, m, 1);
    if (ob.fam == 0) { Mat B = rand_mat(r, m + 1, m); ob.A = B.transpose() * B + (r.below(3) ? 1.0 : 0.05) * Mat::Identity(m, m); }
    if (ob.fam == 1) { ob.A = rand_mat(r, 6, m, 1.5); ob.rho = r.below(2) ? 1 : 0.1; }
    Vec x0 = rand_mat(r, m, 1, r.below(3) ? 2 : 10);
    int start = (int)choose(8, "start");
    if (start == 6) x0.setZero();
    if (start == 7) { if (ob.fam == 0 || ob.fam == 3 || ob.fam == 5) x0 = ob.c; else if (ob.fam == 2) x0.setOnes(); }
    int nbad = choose(2, "regions") ? range(1, 3, "regions.n") : 0;
    for (int i = 0; i < nbad; i++) {
        Region q; q.kind = (int)r.below(2); q.what = (int)r.below(4);
        if (q.kind == 0) { q.c = x0 + rand_mat(r, m, 1, 2); q.t = 0.2 + 2 * r.uniform(); }
        else { q.c = rand_mat(r, m, 1); q.t = q.c.dot(x0) + r.uniform() * 2; }
        ob.bad.push_back(q);
    }
    { auto b = ob.bad; ob.bad.clear(); for (auto& q : b) { ob.bad.push_back(q); if (ob.inside(x0) == 0 || ob.inside(x0) == 1) ob.bad.pop_back(); } }
    LP lp; BP bp;
    static const char* conds[] = {"WOLFE", "ARMIJO", "STRONG_WOLFE"};
    lp.cond = conds[choose(3, "condition")];
    bp.bracket = choose(2, "bracketing");
    if (choose(3, "params") == 2) { lp.dec = 0.3; lp.inc = 3; lp.maxs = choose(2, "max_step") ? 5 : 1e20; lp.mins = choose(2, "min_step") ? 1e-3 : 1e-20; lp.wolfe = 0.5; lp.ftol = 0.1; }
    lp.ls = choose(3, "ls") == 2 ? range(1, 6, "ls.n") : 40;
    bp.max_iter = choose(5, "max.kind") == 4 ? range(20, 60, "max_iter") : range(1, 12, "max_iter");
    bool unlimited = convex && lp.cond != "STRONG_WOLFE" && choose(4, "unlimited") == 3;
    if (unlimited) bp.max_iter = choose(2, "max0") ? 0 : 3000;
    bp.mem = choose(20, "mem.big") == 19 ? range(9, 30, "mem") : range(1, 8, "mem");
    bp.past = choose(3, "past") == 0 ? 0 : choose(4, "past.long") == 3 ? range(4, 9, "past.n") : range(1, 4, "past.n");
    static const double tols[] = {1e-5, 1e-3, 1e-1, 1e-8}; bp.tol = tols[choose(4, "tol")];
    static const double dels[] = {1e-6, 1e-3, 0}; bp.delta = dels[choose(3, "delta")];
    if (unlimited && bp.tol < 1e-6) bp.tol = 1e-6;
    long fault_at = -1, throw_e = -1, throw_g = -1; int fault_what = 0;
    if (!unlimited) switch (choose(5, "fault")) {
        case 3: fault_at = 1 + choose(25, "fault.at"); fault_what = (int)choose(2, "fault.what"); break;
        case 4: (choose(2, "throw.what") ? throw_e : throw_g) = (long)choose(20, "throw.at"); break;
    }
    else ob.bad.clear();
    bool verbose = choose(2, "verbose");
    Env e = choose_env(); set_env(e);
    set_console((int)choose(3, "console"), choose(256, "console.at"));
    heap_fill((int)choose(5, "fill"), 6);

    int n = 3; Mat X(n, 2); X << 1, 2, 3, 4, 5, 6; Vec y(n); y << 7, 8, 9; const Mat X0 = X; const Vec y0 = y;
    bool earlier = choose(8, "earlier") == 7; long early_at = (long)choose(20, "earlier.cut"), cut = -1;
    Rec rec; bool foreign = false; long nf = 0;
    std::vector<Vec> good{x0};
    rec.evaluate = [&](Rec& q, const Mat& A, const Vec& b, const Mat& W) -> double {
        if ((cut >= 0 ? cut : throw_e) == (long)q.ne) throw SimError("loss refused");
        if (!bit_equal(A, X0) || !bit_equal(b, y0) || W.rows() != m || W.cols() != 1) foreign = true;
        if (fault_at >= 0 && (long)q.ne >= fault_at) { nf++; return fault_what ? INFINITY : NAN; }
        double v = ob.f(W.col(0)); if (!std::isfinite(v)) nf++; return v;
    };
    rec.gradient = [&](Rec& q, const Mat& A, const Vec& b, const Mat& W) -> Mat {
        if (cut < 0 && (long)q.ng == throw_g) throw SimError("gradient refused");
        if (!bit_equal(A, X0) || !bit_equal(b, y0) || W.rows() != m || W.cols() != 1) foreign = true;
        Vec g = ob.g(W.col(0)); if (!g.allFinite()) nf++; return g;
    };
    rec.limit = 400000;
    using namespace openml::optimizer;
    Mat coef; bool simerr = false;
    Outcome o = attempt([&] {
        try {
            LineSearchParams<double> ps(lp.dec, lp.inc, lp.ftol, lp.wolfe, lp.maxs, lp.mins, lp.ls, lp.cond);
            LBFGS<double, SimLoss, LineSearchParams<double>> l(x0, SimLoss{&rec}, ps, bp.max_iter, bp.mem, bp.past, bp.tol, bp.delta, bp.bracket ? "bracketing" : "backtracking", true, verbose);
            if (earlier) {                                       // an earlier run of the same object, cut short or not
                { Harness h; cut = early_at; }
                try { l.optimize(X, y); } catch (const SimError&) {}
                { Harness h; cut = -1; rec.calls.clear(); rec.ne = rec.ng = 0; foreign = false; nf = 0; count("earlier uses of the same optimiser"); }
            }
            l.optimize(X, y); coef = l.get_coef();
        } catch (const SimError&) { simerr = true; throw; }
    });
    char cfg[256]; snprintf(cfg, sizeof cfg, "family %d m=%d %s/%s max_iter=%zu mem=%zu past=%zu tol=%g ls=%zu fault_at=%ld", ob.fam, m, bp.bracket ? "bracketing" : "backtracking", lp.cond.c_str(), bp.max_iter, bp.mem, bp.past, bp.tol, lp.ls, fault_at);
    if (foreign) violate("C07:data", "%s: a callback got other data or a misshapen point", cfg);
    if (!bit_equal(X, X0) || !bit_equal(y, y0)) violate("C07:data-modified", "%s: the caller's data changed", cfg);
    bool should_throw = (throw_e >= 0 && (long)rec.ne >= throw_e + 0 && simerr) || (throw_g >= 0 && simerr);
    if (!o.ok()) {
        if (!simerr) violate("C07:threw", "%s: threw '%s'", cfg, o.what.c_str());
        count("callbacks that threw");
    } else {
        // a callback that was reached at its throwing call must have surfaced
        if ((throw_e >= 0 && (long)rec.ne > throw_e) || (throw_g >= 0 && (long)rec.ng > throw_g)) violate("C07:exception-swallowed", "%s: a throwing callback did not surface", cfg);
        if (bp.max_iter && rec.ne > 1 + bp.max_iter * std::max<size_t>(1, lp.ls)) violate("C07:budget", "%s: %llu evaluations", cfg, (unsigned long long)rec.ne);
        if (coef.rows() != m || coef.cols() != 1) violate("C07:shape", "%s: returned %s", cfg, shape(coef).c_str());
        Vec p = coef.col(0);
        double f0 = ob.f(x0), fp = ob.f(p);
        if (!std::isfinite(fp)) violate("C07:not-finite", "%s: returned %s with objective %g, start %g", cfg, show(p).c_str(), fp, f0);
        if (fp > f0) violate("C07:worse", "%s: returned objective %.17g above the start's %.17g", cfg, fp, f0);
        bool at = bit_equal(p, x0);
        if (!at && fault_at >= 0) {
            // with the objective failing from some call on, only points evaluated before may be returned
            bool seen = false; long i = 0;
            for (auto& c : rec.calls) if (!c.grad) { if (std::isfinite(c.f) && bit_equal(c.W, p)) seen = true; i++; }
            if (!seen) violate("C07:unseen-point", "%s: returned a point whose objective was never finite", cfg);
        }
        Vec g0 = ob.g(x0);
        if (g0.allFinite() && g0.norm() / std::max(1.0, x0.norm()) <= bp.tol * (1 - 1e-12)) {
            if (!at) violate("C07:stationary-start", "%s: the start was stationary, another point was returned", cfg);
            count("stationary starts");
        }
        int it = 0; std::string why; Vec ref;
        ref = reference(ob, lp, bp, x0, fault_at, 0, Rng(1), it, why);
        bool stable = fault_what == 0 || fault_at < 0 || true;
        for (int t = 0; t < 3 && stable; t++) {
            int it2; std::string w2; Vec q = reference(ob, lp, bp, x0, fault_at, 1e-13, Rng(100 + t), it2, w2);
            if (it2 != it || w2 != why || !((q - ref).norm() <= 1e-8 * (1 + ref.norm()))) stable = false;
        }
        if (stable) {
            if (!((p - ref).norm() <= 1e-6 * (1 + ref.norm()))) violate("C07:iterates", "%s: returned %s, the reference ends at %s after %d iterations (%s)", cfg, show(p.transpose()).c_str(), show(ref.transpose()).c_str(), it, why.c_str());
            count("runs compared with the reference");
            if (why == "line search failed") count("line search failures");
        }
        if (unlimited && why == "gradient" && bp.past == 0) {
            Vec g = ob.g(p);
            if (!(g.norm() / std::max(1.0, p.norm()) <= bp.tol * 1.0001)) violate("C07:not-solved", "%s: gradient norm %g at the returned point", cfg, g.norm());
            count("convex problems solved");
        }
    }
    (void)should_throw;
    if (nf) count("non-finite objective or gradient values", nf);
    heap_check();
    uint64_t h = 3; for (auto& c : rec.calls) h = hmat(c.W, h); state(h);
    event("%s ne=%llu ok=%d coef=%llx", cfg, (unsigned long long)rec.ne, o.ok(), (unsigned long long)hmat(coef));
    nontrivial(); sample("%s", cfg);
}
