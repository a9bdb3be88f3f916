// C05: the stochastic optimisers stop by their rule.
#include "opt_common.hpp"
using namespace sim;

SIM_SCENARIO("C05") {
    OptParams p;
    p.alg = (int)choose(3, "alg");
    bool wide = choose(30, "n.kind") == 29;
    int n = wide ? range(60, 320, "n") : range(1, 14, "n"), m = range(1, 3, "m");
    p.bs = wide && choose(2, "batch.wide") ? range(60, n, "batch") : range(1, n, "batch");
    p.max_iter = choose(12, "max.kind") == 11 ? range(40, 120, "max_iter") : range(0, 14, "max_iter");
    uint64_t pk = choose(120, "pat.kind"); p.patience = pk >= 100 ? range(5, 20, "patience") : range(1, 4, "patience");
    if (pk == 119) { p.patience = range(240, 330, "patience"); p.max_iter = p.patience + range(-20, 300, "max_iter.long"); n = std::min(n, 3); p.bs = 1 + p.bs % n; }
    static const double tols[] = {0, 0.25, 1, 0.015625, 4};
    p.tol = tols[choose(5, "tol")];
    p.shuffle = choose(2, "shuffle"); p.verbose = choose(2, "verbose");
    if (p.alg == 2) { p.alpha = 0.1; p.l1 = 0.5; }
    Rng r = data_rng("data");
    Mat X = rand_grid(r, n, m, -3, 3); Vec y = rand_grid(r, n, 1, 0, 1); Mat x0 = rand_mat(r, m, 1);
    for (int i = 0; i < n; i++) X(i, 0) = i;
    size_t nb = n / p.bs;
    Env e = choose_env(); set_env(e);
    set_console((int)choose(3, "console"), choose(64, "console.at"));
    heap_fill((int)choose(5, "fill"), 5);

    // the loss of every epoch, on a grid where sums are exact
    double margin = p.tol * p.bs;
    std::vector<double> S; double best = INFINITY;
    int style = (int)choose(5, "style");
    static const double offs[] = {0, 0, 1ull << 26, -(double)(1ull << 26), 1ull << 34}; // losses far from 0: sums still exact in double, not in float
    double off = offs[choose(5, "offset")];
    bool nan_forever = false;
    for (size_t ep = 0; ep < p.max_iter; ep++) {
        double s;
        double ref = std::isfinite(best) ? best : (double)(int)r.below(50) - 10 + off;
        uint64_t k = style == 0 ? 6 : style == 1 ? r.below(3) : r.below(style == 4 ? 12 : 9);
        switch (k) {
            case 0: s = ref - margin; break;                      // improves by exactly the margin
            case 1: s = ref - margin + 1.0 / 64; break;           // a hair less
            case 2: s = ref - margin - 1.0 / 64; break;           // a hair more
            case 3: s = ref; break;
            case 4: s = ref + 1.0 / 64; break;
            case 5: s = ref - margin / 2; break;
            case 6: s = ref + (double)(int)r.below(64) / 16 - 2; break;
            case 7: s = ref - 4 * margin - 3; break;
            case 8: s = ref + 5; break;
            case 9: s = NAN; break;
            case 10: s = std::isfinite(best) ? INFINITY : ref; break;
            default: s = NAN; nan_forever = r.below(4) == 0; break;
        }
        if (nan_forever) s = NAN;
        S.push_back(s); if (s < best) best = s;
    }
    std::vector<std::vector<double>> piece(S.size());
    for (size_t ep = 0; ep < S.size(); ep++) {
        double rest = S[ep]; piece[ep].assign(nb, 0);
        for (size_t j = 1; j < nb; j++) { double v = ((double)(int)r.below(256) - 128) / 64; piece[ep][j] = v; if (std::isfinite(rest)) rest -= v; }
        if (nb) { piece[ep][0] = rest; size_t j = r.below(nb); std::swap(piece[ep][0], piece[ep][j]); }
    }
    long throw_g = -1, throw_e = -1;
    if (choose(5, "throws") == 4) { long at = (long)choose(std::max<size_t>(1, nb * p.max_iter), "throw.at"); (choose(2, "throw.what") ? throw_e : throw_g) = at; }

    Rec rec;
    rec.gradient = [&](Rec& q, const Mat&, const Vec&, const Mat& W) {
        if ((long)q.ng == throw_g) throw SimError("gradient refused");
        Mat g(W.rows(), W.cols()); for (int i = 0; i < g.size(); i++) g(i) = r.normal();
        return g;
    };
    rec.evaluate = [&](Rec& q, const Mat&, const Vec&, const Mat&) {
        if ((long)q.ne == throw_e) throw SimError("loss refused");
        size_t ep = q.ne / nb;
        if (ep >= S.size()) violate("C05:too-many-epochs", "%s went on after %zu epochs", alg_name[p.alg], p.max_iter);
        return piece[ep][q.ne % nb];
    };
    if (choose(6, "earlier") == 5) { rec.earlier = range(1, 2, "earlier.n"); rec.earlier_seed = r.next(); }
    Mat coef; bool simerr = false;
    Outcome o = run_opt(p, x0, rec, openml::optimizer::VanillaUpdate<double>(), openml::optimizer::StepDecay<double>(0.125, 0.5, 2), X, y, coef, &simerr);

    // the rule
    best = INFINITY; size_t cnt = 0, stop = 0; bool conv = false;
    for (size_t ep = 0; ep < S.size(); ep++) {
        if (S[ep] > best - margin) cnt++; else cnt = 0;
        if (S[ep] < best) best = S[ep];
        if (cnt >= p.patience) { conv = true; stop = ep + 1; break; }
    }
    if (!conv) stop = p.max_iter;
    bool threw = (throw_g >= 0 && throw_g < (long)(stop * nb)) || (throw_e >= 0 && throw_e < (long)(stop * nb));
    auto losses = [&] { std::string s; char b[32]; for (size_t i = 0; i < S.size() && i < 16; i++) { snprintf(b, sizeof b, "%s%.7g", i ? " " : "", S[i]); s += b; } return s; };
    std::string cfg = std::string(alg_name[p.alg]) + " max_iter=" + std::to_string(p.max_iter) + " patience=" + std::to_string(p.patience) + " tol*batch=" + std::to_string(margin) + " epoch losses " + losses();
    if (threw) {
        if (o.ok()) violate("C05:exception-swallowed", "%s: the loss threw and the run was reported as converged", cfg.c_str());
        if (!simerr) violate("C05:exception-replaced", "%s: the loss threw, the caller got '%s'", cfg.c_str(), o.what.c_str());
        count("losses or gradients that threw");
    } else {
        if (o.kind == Outcome::BAD_ALLOC || simerr) violate("C05:threw", "%s: %s", cfg.c_str(), o.what.c_str());
        if (o.ok() && !conv) violate("C05:false-success", "%s: returned normally after %llu batches", cfg.c_str(), (unsigned long long)rec.ne);
        if (!o.ok() && conv) violate("C05:no-success", "%s: threw '%.40s', the rule is met after %zu epochs", cfg.c_str(), o.what.c_str(), stop);
        if (rec.ne != stop * nb || rec.ng != stop * nb) violate("C05:epochs", "%s: %llu losses and %llu gradients, the rule stops after %zu epochs of %zu batches", cfg.c_str(), (unsigned long long)rec.ne, (unsigned long long)rec.ng, stop, nb);
        if (conv) {
            const Call& last = rec.calls.back();
            if (!bit_equal(coef, last.W)) violate("C05:stale-coef", "%s: coefficients %s are not the final weights %s", cfg.c_str(), show(coef).c_str(), show(last.W).c_str());
            count("runs that converged");
        } else count("runs that exhausted max_iter");
    }
    // every loss is that of the batch just stepped on, at the weights after the step
    for (size_t i = 0; i < rec.calls.size(); i++) if (!rec.calls[i].grad) {
        const Call& c = rec.calls[i];
        if (i == 0 || !rec.calls[i - 1].grad) violate("C05:call-order", "%s: a loss without a step before it", cfg.c_str());
        const Call& g = rec.calls[i - 1];
        if (!bit_equal(c.X, g.X) || !bit_equal(c.y, g.y)) violate("C05:loss-batch", "%s: loss taken on %s rows instead of the batch", cfg.c_str(), shape(c.X).c_str());
        if (i + 1 < rec.calls.size() && rec.calls[i + 1].grad && !bit_equal(c.W, rec.calls[i + 1].W)) violate("C05:loss-weights", "%s: loss taken at other weights than the next gradient", cfg.c_str());
    }
    for (double s : S) if (std::isnan(s)) { count("runs with NaN losses"); break; }
    heap_check();
    uint64_t h = hash_bytes(S.data(), S.size() * 8, hmix(hmix(p.patience, p.alg), p.bs)); state(h);
    event("%s stop=%zu conv=%d ok=%d threw=%d coef=%llx", cfg.c_str(), stop, conv, o.ok(), threw, (unsigned long long)hmat(coef));
    if (rec.ng) nontrivial();
    sample("%s", cfg.c_str());
}
