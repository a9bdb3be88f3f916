// C04: SGD, SAG and truncated gradient follow their update rule.
#include "opt_common.hpp"
using namespace sim;

// policies of the simulator: nothing a shortcut around the policy could imitate
struct SimUpdate {
    const Mat update(const Mat& W, const Mat& g, const double lr) const { return 0.96875 * W - 1.5 * lr * g; }
};
struct SimDecay {
    uint64_t seed;
    static double at(uint64_t seed, size_t e) { uint64_t k[2] = {seed, e}; return 0.01 + (hash_bytes(k, 16) % 997) / 5000.0; }
    double compute(size_t e) { return at(seed, e); }
};

// one admissible reading of the policies; violated when none is left
struct Variant { std::function<double(size_t)> lr; bool sim_update = false; double mu = 0; Mat V; bool dead = false; std::string why; };

SIM_SCENARIO("C04") {
    OptParams p;
    p.alg = (int)choose(3, "alg");
    uint64_t nk = choose(24, "n.kind"), lk = choose(32, "long");              // rarely dozens or hundreds of epochs
    bool vast = nk == 23 && lk != 31 && choose(200, "vast") == 199;
    int n = vast ? range(65540, 68000, "n") : nk == 23 ? range(100, 400, "n") : nk >= 20 ? range(25, 60, "n") : range(1, 20, "n");
    int m = range(1, 4, "m");
    if (vast) m = 1;
    p.bs = vast ? range(20000, n, "batch") : range(1, n, "batch"); if (choose(3, "batch.small") == 0) p.bs = std::min<size_t>(p.bs, 4);
    const bool many = lk == 31 && !vast && choose(3, "many.orders") == 2;      // many epochs over enough rows that no order should come twice
    if (many) { n = range(12, 16, "n.orders"); p.bs = range(4, n, "batch.orders"); }
    else if (lk == 31) { n = std::min(n, 6); p.bs = std::min<size_t>(p.bs, n); }
    p.max_iter = many ? range(66, 140, "max_iter") : lk == 31 ? range(150, 330, "max_iter") : lk >= 26 ? range(8, 40, "max_iter") : range(1, 7, "max_iter");
    p.patience = lk >= 26 && choose(3, "patient") ? 1000 : range(1, 3, "patience");
    if (vast) { p.max_iter = std::min<size_t>(p.max_iter, 2); p.bs = std::max<size_t>(p.bs, 20000); }
    p.tol = choose(2, "tol") ? 0.25 : 0;
    p.shuffle = choose(3, "shuffle") != 0;
    p.verbose = choose(2, "verbose");
    p.multi = p.alg == 0 && choose(3, "multi") == 2;
    if (p.alg == 2) { p.alpha = choose(4, "alpha") * 0.05; p.l1 = choose(4, "l1") * 0.4; }
    int pol = (int)choose(4, "policies");
    int k = 1;
    Rng r = data_rng("data");
    Mat X(n, m); Vec y(n);
    for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) X(i, j) = j ? r.below(7) : i; y(i) = p.multi ? i % 3 : 100 + i; }
    if (p.multi) { std::set<double> s(y.data(), y.data() + n); k = (int)s.size(); }
    const Mat X0 = X; const Vec y0 = y;
    Mat x0 = rand_mat(r, m, k);
    if (choose(4, "zero.start") == 3) x0.setZero();
    int special = (int)choose(6, "special");       // 0-2 ordinary, 3 huge, 4 infinite, 5 NaN entries
    uint64_t sp_at = choose(12, "special.at");
    Env e = choose_env(); set_env(e);
    set_console((int)choose(3, "console"), choose(64, "console.at"));
    heap_fill((int)choose(5, "fill"), 3);
    bool decreasing = choose(3, "never.converges") == 2;

    Rec rec;
    rec.gradient = [&](Rec& q, const Mat&, const Vec&, const Mat& W) {
        Mat g(W.rows(), W.cols());
        for (int i = 0; i < g.size(); i++) g(i) = r.normal() * (r.below(8) == 0 ? 30 : 1) + (std::isfinite(W(i)) ? 0.25 * W(i) : 0);
        if (special >= 3 && (q.ng == sp_at || q.ng == sp_at + 3)) {
            int i = (int)r.below(g.size()); double sg = r.below(2) ? 1 : -1;
            g(i) = special == 3 ? sg * std::pow(10.0, 9 + r.below(6)) : special == 4 ? sg * INFINITY : NAN;
        }
        return g;
    };
    rec.evaluate = [&](Rec& q, const Mat&, const Vec&, const Mat&) { return decreasing ? -100.0 * q.ne : (q.ne % 5) * 0.5; };

    if (choose(8, "earlier") == 7) { rec.earlier = range(1, 2, "earlier.n"); rec.earlier_seed = r.next(); }
    Mat coef; Outcome o;
    std::vector<Variant> vs;
    double base = 0.125, gamma = choose(2, "gamma") ? 0.5 : 0.75; size_t step = range(1, 3, "step"); double mu = 0.5;
    auto stepd = [&](size_t c) { return [=](size_t ep) { return base * std::pow(gamma, (double)((ep + c) / step)); }; };
    using namespace openml::optimizer;
    switch (pol) {
        case 0: { uint64_t sd = choose(1000, "decay.seed"); o = run_opt(p, x0, rec, SimUpdate(), SimDecay{sd}, X, y, coef);
                  Variant v; v.lr = [sd](size_t ep) { return SimDecay::at(sd, ep); }; v.sim_update = true; vs.push_back(v); break; }
        case 1: o = run_opt(p, x0, rec, VanillaUpdate<double>(), StepDecay<double>(base, gamma, step), X, y, coef);
                for (int c = 0; c < 2; c++) { Variant v; v.lr = stepd(c); vs.push_back(v); } break;
        case 2: o = run_opt(p, x0, rec, MomentumUpdate<double>(mu), StepDecay<double>(base, gamma, step), X, y, coef);
                for (int c = 0; c < 4; c++) { Variant v; v.lr = stepd(c & 1); v.mu = c < 2 ? 0 : mu; vs.push_back(v); } break;
        default: o = run_opt(p, x0, rec, VanillaUpdate<double>(), ExponentialDecay<double>(base, gamma), X, y, coef);
                for (int c = 0; c < 2; c++) { Variant v; v.lr = [=](size_t ep) { return base * std::exp((c ? -gamma : gamma) * (double)ep); }; vs.push_back(v); }
    }
    if (o.kind == Outcome::BAD_ALLOC) violate("C04:threw", "out of memory without a fault");
    if (!bit_equal(X, X0) || !bit_equal(y, y0)) violate("C04:data-modified", "%s changed the caller's data", alg_name[p.alg]);

    // the recorded history
    size_t nb = n / p.bs, ng = 0;
    std::vector<const Call*> G;
    for (auto& c : rec.calls) if (c.grad) G.push_back(&c);
    ng = G.size();
    if (ng % nb) violate("C04:partial-epoch", "%s: %zu batches in epochs of %zu", alg_name[p.alg], ng, nb);
    if (ng == 0) violate("C04:no-batch", "%s took no gradient", alg_name[p.alg]);
    size_t epochs = ng / nb;
    std::vector<std::vector<int>> orders(epochs); std::vector<size_t> last_use(n, (size_t)-1);
    uint64_t h = 7;
    for (size_t t = 0; t < ng; t++) {
        const Call& c = *G[t]; size_t ep = t / nb;
        if ((size_t)c.X.rows() != p.bs || (size_t)c.y.size() != p.bs || c.X.cols() != m) violate("C04:batch-size", "%s: batch %zu of epoch %zu is %s with %ld labels, configured size %zu", alg_name[p.alg], t % nb, ep, shape(c.X).c_str(), (long)c.y.size(), p.bs);
        for (size_t i = 0; i < p.bs; i++) {
            int id = (int)c.X(i, 0);
            if (!(c.X(i, 0) == id) || id < 0 || id >= n || (c.X.row(i).array() != X0.row(id).array()).any()) violate("C04:row-invented", "%s: a batch row is no training row", alg_name[p.alg]);
            if (c.y(i) != y0(id)) violate("C04:label-detached", "%s: row %d used with label %g instead of %g", alg_name[p.alg], id, c.y(i), y0(id));
            if (last_use[id] == ep) violate("C04:row-twice", "%s: row %d used twice in epoch %zu", alg_name[p.alg], id, ep);
            if (!p.shuffle && id != (int)((t % nb) * p.bs + i)) violate("C04:order", "%s without shuffling: batch %zu holds row %d at %zu", alg_name[p.alg], t % nb, id, i);
            last_use[id] = ep; orders[ep].push_back(id);
        }
        if (t % nb == nb - 1) { h = hash_bytes(orders[ep].data(), orders[ep].size() * 4, h); }
    }
    if (p.shuffle && nb * p.bs >= 12) {
        bool ident = true; for (size_t i = 0; i < nb * p.bs; i++) if (orders[0][i] != (int)i) ident = false;
        if (ident) violate("C04:not-shuffled", "%s with shuffling used the rows in their original order", alg_name[p.alg]);
        for (size_t ep = 1; ep < epochs; ep++) if (orders[ep] == orders[ep - 1]) violate("C04:not-shuffled", "%s: epochs %zu and %zu used the same order", alg_name[p.alg], ep - 1, ep);
        if (e.clk_mode == 0 || e.clk_mode == 4) {      // a clock that moves on
            std::map<std::vector<int>, size_t> seen;
            for (size_t ep = 0; ep < epochs; ep++) { auto f = seen.emplace(orders[ep], ep); if (!f.second) violate("C04:not-shuffled", "%s: epochs %zu and %zu used the same order", alg_name[p.alg], f.first->second, ep); }
            if (epochs > 60) count("long runs without a repeated order");
        }
    }
    state(h);

    // the weights
    bool known = bit_equal(G[0]->W, x0);
    if (rec.earlier) for (auto& c : rec.before) if (bit_equal(c.W, G[0]->W)) known = true;   // used before: it may also go on from where it was
    if (!known) violate("C04:start", "%s: first gradient at %s, start was %s", alg_name[p.alg], show(G[0]->W).c_str(), show(x0).c_str());
    Mat hist = Mat::Zero(m * k, nb), avg = Mat::Zero(m, k), mag = Mat::Zero(m, k);
    std::vector<char> unknown(m * k, 0);
    std::vector<double> u(vs.size(), 0);
    for (size_t t = 0; t < ng; t++) {
        const Call& c = *G[t]; size_t ep = t / nb, j = t % nb;
        bool last = t + 1 == ng;
        if (last && !o.ok()) break;
        const Mat& Wn = last ? coef : G[t + 1]->W;
        if (Wn.rows() != m || Wn.cols() != k) violate("C04:shape", "%s: weights became %s", alg_name[p.alg], shape(Wn).c_str());
        Mat g = c.g;
        for (int i = 0; i < g.size(); i++) {
            if (std::isnan(g(i))) { unknown[i] = p.alg == 1 || pol == 2 ? 2 : 1; g(i) = 0; }
            else g(i) = std::max(-1e10, std::min(1e10, g(i)));
            mag(i) = std::max(mag(i), std::fabs(g(i)));
        }
        if (p.alg == 1) {
            for (int i = 0; i < g.size(); i++) { avg(i) += (g(i) - hist(i, j)) / (double)p.bs; hist(i, j) = g(i); }
            g = avg;
        }
        bool any = false;
        for (size_t q = 0; q < vs.size(); q++) {
            Variant& v = vs[q];
            double lr = v.lr(ep); u[q] += p.l1 * p.alpha * lr;
            if (v.mu != 0) { if (v.V.size() == 0) v.V = Mat::Zero(m, k); v.V = v.mu * v.V + lr * g; }
            if (v.dead) continue;
            for (int i = 0; i < g.size() && !v.dead; i++) {
                if (unknown[i] || !std::isfinite(c.W(i))) continue;
                double s = v.sim_update ? 0.96875 * c.W(i) - 1.5 * lr * g(i) : v.mu != 0 ? c.W(i) - v.V(i) : c.W(i) - lr * g(i);
                double tol = 1e-11 * (std::fabs(c.W(i)) + std::fabs(s)) + 1e-13 * 2 * lr * mag(i) * nb + 1e-13 * u[q];
                double lo = s - tol, hi = s + tol;
                if (p.alg == 2) {
                    auto shrink = [&](double w) { return w > 0 ? std::max(0.0, w - u[q]) : w < 0 ? std::min(0.0, w + u[q]) : w; };
                    lo = shrink(lo); hi = shrink(hi);
                    if (lo != 0 || hi != 0) { lo -= tol; hi += tol; }
                }
                if (!(Wn(i) >= lo && Wn(i) <= hi)) {
                    char b[300]; snprintf(b, sizeof b, "batch %zu of epoch %zu: weight %d went from %.17g to %.17g, the rule gives %.17g (gradient %.17g, lr %.6g, shrink %.6g)", j, ep, i, c.W(i), Wn(i), (lo + hi) / 2, g(i), lr, p.alg == 2 ? u[q] : 0.0);
                    v.dead = true; v.why = b;
                }
            }
            if (!v.dead) any = true;
        }
        if (!any) violate("C04:update-rule", "%s, policies %d, batch size %zu: %s", alg_name[p.alg], pol, p.bs, vs.back().why.empty() ? vs[0].why.c_str() : vs.back().why.c_str());
        for (auto& f : unknown) if (f == 1) f = 0;
    }
    heap_check();
    count("gradient steps checked", ng);
    if (special >= 3 && ng > sp_at) count(special == 3 ? "huge gradients" : special == 4 ? "infinite gradients" : "gradients with NaN");
    if (p.shuffle) count("shuffled epochs", epochs);
    event("alg=%d pol=%d n=%d bs=%zu epochs=%zu ok=%d h=%llx coef=%llx", p.alg, pol, n, p.bs, epochs, o.ok(), (unsigned long long)h, (unsigned long long)hmat(coef));
    if (epochs >= 1) nontrivial();
    sample("%s n=%d m=%d batch=%zu epochs=%zu shuffle=%d policies=%d special=%d", alg_name[p.alg], n, m, p.bs, epochs, p.shuffle, pol, special);
}
