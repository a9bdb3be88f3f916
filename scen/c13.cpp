// C13: concurrent readers of a fitted model all get the sequential answer.
#include <memory>
#include "est.hpp"
using namespace sim;

SIM_SCENARIO("C13") {
    sort_kinds();
    const Kind& k = *kinds()[choose(kinds().size(), "kind")];
    uint64_t settings = choose(1 << 20, "settings");
    Rng r = data_rng("data");
    heap_fill((int)choose(5, "fill"), 3); heap_layout((unsigned)choose(50, "layout"), choose(3, "reuse") == 2); set_console((int)choose(3, "console"), choose(400, "console.at"));
    step_budget(2000000000ull);
    Data d; k.gen(settings, r, d); Env e = choose_env(); e.ent_fail_at = -1;
    std::vector<Data> probe(3); for (auto& p : probe) { p = d; if (d.P.size()) { p.P = rand_mat(r, 1 + (int)r.below(4), (int)d.P.cols(), 1.5); if (k.name == std::string("multinomial naive Bayes")) p.P = rand_grid(r, (int)p.P.rows(), (int)d.P.cols(), 0, 6); } p.salt += r.below(7); }
    Est *m = nullptr, *twin = nullptr;
    for (Est** p : {&m, &twin}) {
        set_env(e); Outcome o = attempt([&] { *p = k.make(settings, false); (*p)->fit(d); });
        if (o.kind == Outcome::BAD_ALLOC) violate("C13:threw", "%s: out of memory without a fault", k.name);
        if (!o.ok()) discard("training does not converge");
    }
    int nq = (int)k.queries.size(), nt = range(2, 3, "threads");
    // a copy sharing what it may share with the model, read at the same time
    Est* copy = nullptr; bool copies = choose(3, "copy") == 2; if (copies) attempt([&] { copy = m->clone(); });
    struct Call { int q, p; bool on_copy, copying; Ans got, want; Outcome o, wo; };
    std::vector<std::vector<Call>> work(nt);
    for (auto& w : work) { int n = range(1, 4, "calls"); for (int i = 0; i < n; i++) { Call c; c.q = (int)choose(nq, "query"); c.p = (int)choose(3, "probe"); c.on_copy = copy && choose(2, "on.copy"); c.copying = choose(6, "copying") == 5; w.push_back(c); } }
    for (auto& w : work) for (auto& c : w) { c.wo = attempt([&] { twin->query(c.q, probe[c.p], c.want); }); }
    std::vector<std::function<void()>> b;
    for (int t = 0; t < nt; t++) b.push_back([&, t] { for (auto& c : work[t]) c.o = attempt([&] {
        Est* x = c.on_copy ? copy : m;
        if (!c.copying) { x->query(c.q, probe[c.p], c.got); return; }
        std::unique_ptr<Est> y(x->clone()); y->query(c.q, probe[c.p], c.got);     // copies the model while others read it, and asks the copy
    }); });
    for (int phase = 0; ; phase++) {
        uint64_t before = sched_stats().shared_writes;
        run_threads(b);
        for (int t = 0; t < nt; t++) for (auto& c : work[t]) {
            if (c.o.kind != c.wo.kind) violate("C13:answer", "%s (%s): concurrent %s %s", k.name, k.describe(settings).c_str(), k.queries[c.q], c.o.ok() ? "returned" : ("threw " + c.o.what).c_str());
            if (c.o.ok() && !same_ans(c.got, c.want)) violate("C13:answer", "%s (%s): concurrent %s gives %s, alone %s", k.name, k.describe(settings).c_str(), k.queries[c.q], shows(c.got).c_str(), shows(c.want).c_str());
            count(c.copying ? "concurrent copies asked" : "concurrent answers compared"); c.got.clear();
        }
        // readers that wrote to the model deserve more schedules, each on a newly fitted model
        if (phase >= 7 || sched_stats().shared_writes == before) break;
        count("phases repeated because readers wrote to the model");
        { Sut s; delete copy; delete m; copy = m = nullptr; }
        set_env(e); attempt([&] { m = k.make(settings, false); m->fit(d); }); if (copies) attempt([&] { copy = m->clone(); });
    }
    // and the model is unchanged
    for (int q = 0; q < nq; q++) {
        Ans a, w; Outcome wo = attempt([&] { twin->query(q, d, w); }), o = attempt([&] { m->query(q, d, a); });
        if (o.kind != wo.kind || (o.ok() && !same_ans(a, w))) violate("C13:changed", "%s (%s): %s after concurrent readers gives %s, an untouched twin %s", k.name, k.describe(settings).c_str(), k.queries[q], shows(a).c_str(), shows(w).c_str());
        if (copy) { Ans c; Outcome co = attempt([&] { copy->query(q, d, c); }); if (co.kind != wo.kind || (co.ok() && !same_ans(c, w))) violate("C13:changed", "%s (%s): %s of a copy after concurrent readers gives %s, an untouched twin %s", k.name, k.describe(settings).c_str(), k.queries[q], shows(c).c_str(), shows(w).c_str()); }
    }
    auto st = sched_stats();
    event("%s threads=%d switches=%llu", k.name, nt, (unsigned long long)st.switches);
    if (st.switches > (uint64_t)nt) { count("interleaved phases"); count(k.name); nontrivial(); }
    { Sut s; delete m; delete twin; delete copy; }
    heap_check();
    sample("%s (%s): %d threads, %llu switches%s", k.name, k.describe(settings).c_str(), nt, (unsigned long long)st.switches, copy ? ", with a copy" : "");
}
