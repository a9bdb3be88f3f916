// C12: failing allocations and entropy surface cleanly and lose nothing else.
#include "est.hpp"
using namespace sim;

SIM_SCENARIO("C12") {
    sort_kinds();
    const Kind& k = *kinds()[choose(kinds().size(), "kind")];
    uint64_t settings = choose(1 << 20, "settings");
    bool verbose = choose(4, "verbose") == 3;
    Rng r = data_rng("data");
    heap_fill((int)choose(5, "fill"), 3); set_console((int)choose(3, "console"), choose(400, "console.at"));
    step_budget(2000000000ull);
    Data d[2]; Env e[2];
    for (int i = 0; i < 2; i++) { k.gen(settings, r, d[i]); e[i] = choose_env(); e[i].ent_fail_at = -1; }
    const uint64_t data_hash = d[0].hash();
    int nq = (int)k.queries.size();
    int phase = (int)choose(6, "phase");             // 0,1,2 fit  3 query  4 copy  5 assign
    int q = (int)choose(nq, "query");
    char what[200];
    static const char* pn[] = {"fitting", "fitting", "refitting", "querying", "copying", "assigning"};
    snprintf(what, sizeof what, "%s (%s): %s%s%s", k.name, k.describe(settings).c_str(), pn[phase], phase == 3 ? " " : "", phase == 3 ? k.queries[q] : "");
    auto fitted = [&](int i) { Est* m = nullptr; set_env(e[i]); Outcome o = attempt([&] { m = k.make(settings, verbose); m->fit(d[i]); }); return std::make_pair(m, o); };
    auto kill = [&](Est*& m) { Sut s; delete m; m = nullptr; };

    // a failed fit on other data must leave nothing behind for the next fit
    if (choose(6, "crossed") == 5) {
        const bool before = choose(3, "fit.before") == 2;    // the model had been fitted before the fit that fails
        uint64_t allocs = 0, draws = 0; Outcome fo; std::vector<Ans> base;
        auto fresh = [&] { Est* m = nullptr; Outcome c = attempt([&] { m = k.make(settings, verbose); }); if (!c.ok()) violate("C12:threw", "%s: constructing threw %s", k.name, c.what.c_str()); if (before) { set_env(e[0]); attempt([&] { m->fit(d[0]); }); } return m; };
        auto first = [&] { Est* m = nullptr; set_env(e[0]); Outcome o = attempt([&] { m = k.make(settings, verbose); m->fit(d[0]); }); return std::make_pair(m, o); };
        { auto p = first(); fo = p.second; if (fo.kind == Outcome::BAD_ALLOC) violate("C12:threw", "%s: out of memory without a fault", k.name);
          if (!fo.ok()) { kill(p.first); discard("training does not converge"); }
          for (int i = 0; i < nq; i++) { Ans a; Outcome o = attempt([&] { p.first->query(i, d[0], a); }); if (!o.ok()) violate("C12:threw", "%s: %s threw %s without a fault", k.name, k.queries[i], o.what.c_str()); base.push_back(a); }
          kill(p.first); }
        { Est* m = fresh(); set_env(e[1]); uint64_t a0 = heap_allocs(); attempt([&] { m->fit(d[1]); }); allocs = heap_allocs() - a0; draws = env_use().entropy; kill(m); }
        bool ent = draws && choose(4, "entropy.fault") == 3;
        if (!ent && !allocs) { event("%s allocates nothing", k.name); return; }
        uint64_t at = ent ? choose(draws, "entropy.at") : 1 + choose(allocs, "alloc.at"); bool forever = choose(3, "forever") == 2;
        Est* m = fresh();
        Env x = e[1]; if (ent) { x.ent_fail_at = (long)at; x.ent_fail_forever = forever; } set_env(x); if (!ent) heap_fail_at(at, forever);
        Outcome o = attempt([&] { m->fit(d[1]); });
        bool fired = ent ? entropy_fault_fired() : heap_fault_fired(); heap_fail_at(0, false);
        if (fired && ent && o.ok()) violate("C12:silent", "%s (%s): fitting returned although the entropy source failed", k.name, k.describe(settings).c_str());
        set_env(e[0]); o = attempt([&] { m->fit(d[0]); });
        if (!o.ok()) violate("C12:refit", "%s (%s): fitting after a failed fit on other data threw %s", k.name, k.describe(settings).c_str(), o.what.c_str());
        for (int i = 0; i < nq; i++) {
            Ans a; Outcome p = attempt([&] { m->query(i, d[0], a); });
            if (!p.ok()) violate("C12:lost", "%s (%s) fitted after a failed fit on other data: %s threw %s", k.name, k.describe(settings).c_str(), k.queries[i], p.what.c_str());
            if (!same_ans(a, base[i])) violate("C12:lost", "%s (%s) fitted after a failed fit on other data: %s gives %s, without it %s", k.name, k.describe(settings).c_str(), k.queries[i], shows(a).c_str(), shows(base[i]).c_str());
        }
        kill(m); heap_check();
        if (fired) { count(ent ? "entropy failures" : forever ? "memory exhausted from some point" : "single allocation failures"); count("failed fits followed by a fit on other data"); nontrivial(); }
        event("%s crossed at=%llu fired=%d", k.name, (unsigned long long)at, fired);
        state(hmix(hmix(hmix(settings % 97, at), 900 + ent), sim::hash_bytes(k.name, strlen(k.name))));
        sample("%s: fit with %s %llu failing, then a fit on other data", k.name, ent ? "entropy draw" : "allocation", (unsigned long long)at);
        return;
    }

    // without the fault, counting what the operation allocates and draws
    std::vector<Ans> base; Outcome fo, bo; uint64_t allocs = 0, draws = 0;
    {
        Est* m = nullptr;
        if (phase <= 2) {
            Outcome c = attempt([&] { m = k.make(settings, verbose); }); if (!c.ok()) violate("C12:threw", "%s: constructing threw %s", what, c.what.c_str());
            if (phase == 2) { set_env(e[1]); attempt([&] { m->fit(d[1]); }); }      // a fit before
            set_env(e[0]); uint64_t a0 = heap_allocs(); fo = attempt([&] { m->fit(d[0]); }); allocs = heap_allocs() - a0; draws = env_use().entropy;
        } else { auto p = fitted(0); m = p.first; fo = p.second; }
        if (fo.kind == Outcome::BAD_ALLOC) violate("C12:threw", "%s: out of memory without a fault", what);
        if (!fo.ok() && phase > 2) { kill(m); discard("training does not converge"); }
        if (fo.ok()) for (int i = 0; i < nq; i++) { Ans a; Outcome o = attempt([&] { m->query(i, d[0], a); }); if (!o.ok()) violate("C12:threw", "%s: %s threw %s without a fault", what, k.queries[i], o.what.c_str()); base.push_back(a); }
        uint64_t a0 = heap_allocs();
        if (phase == 3) { Ans a; attempt([&] { m->query(q, d[0], a); }); allocs = heap_allocs() - a0; }
        if (phase == 4) { Est* c = nullptr; attempt([&] { c = m->clone(); }); allocs = heap_allocs() - a0; kill(c); }
        if (phase == 5) { auto p = fitted(1); a0 = heap_allocs(); attempt([&] { p.first->assign(*m); }); allocs = heap_allocs() - a0; kill(p.first); }
        kill(m);
    }
    // the fault
    bool ent = phase <= 2 && draws && choose(4, "entropy.fault") == 3;
    if (!ent && !allocs) { event("%s allocates nothing", what); return; }
    uint64_t at = ent ? choose(draws, "entropy.at") : 1 + choose(allocs, "alloc.at");
    bool forever = choose(3, "forever") == 2, refit = choose(3, "destroy") != 2;
    auto arm = [&] { Env x = e[0]; if (ent) { x.ent_fail_at = (long)at; x.ent_fail_forever = forever; } set_env(x); if (!ent) heap_fail_at(at, forever); };
    auto same = [&](Est& m, const char* when) {
        for (int i = 0; i < nq; i++) {
            Ans a; Outcome o = attempt([&] { m.query(i, d[0], a); });
            if (!o.ok()) violate("C12:lost", "%s %s: %s threw %s", what, when, k.queries[i], o.what.c_str());
            if (!same_ans(a, base[i])) violate("C12:lost", "%s %s: %s gives %s, without the fault %s", what, when, k.queries[i], shows(a).c_str(), shows(base[i]).c_str());
        }
    };
    auto fires = [&] { return ent ? entropy_fault_fired() : heap_fault_fired(); };
    uint64_t live[4]; live[0] = heap_live_blocks(); bool fired = false, surfaced = false; uint64_t seq0 = 0;
    for (int rep = 0; rep < 3; rep++) {
        if (rep == 2) seq0 = heap_seq();
        Est* m = nullptr; Est* other = nullptr;
        if (phase <= 2) { Outcome c = attempt([&] { m = k.make(settings, verbose); }); if (!c.ok()) violate("C12:threw", "%s", what); if (phase == 2) { set_env(e[1]); attempt([&] { m->fit(d[1]); }); } }
        else { auto p = fitted(0); m = p.first; if (!p.second.ok()) violate("C12:threw", "%s: fitting again threw %s", what, p.second.what.c_str()); }
        if (phase == 5) { auto p = fitted(1); other = p.first; }
        Outcome o;
        {
            Ans a;
            arm();
            o = attempt([&] {
                if (phase <= 2) m->fit(d[0]);
                else if (phase == 3) m->query(q, d[0], a);
                else if (phase == 4) other = m->clone();
                else other->assign(*m);
            });
            fired = fires(); heap_fail_at(0, false); set_env(e[0]);
            if (!o.ok() && !fired && !(phase <= 2 && !fo.ok())) violate("C12:threw", "%s threw %s without a fault", what, o.what.c_str());
            if (o.ok() && phase <= 2 && !fo.ok()) violate("C12:silent", "%s returned with a failing %s, without the fault it throws %s", what, ent ? "entropy source" : "allocation", fo.what.c_str());
            if (o.ok() && phase == 3 && !same_ans(a, base[q])) violate("C12:silent", "%s with a failing allocation returned %s, without the fault %s", what, shows(a).c_str(), shows(base[q]).c_str());
        }
        surfaced |= fired && !o.ok();
        if (ent && fired && o.ok()) violate("C12:silent", "%s returned although the entropy source failed", what);
        if (o.ok() && (phase > 2 || fo.ok())) { same(*m, "with the fault"); if (phase >= 4) same(*other, phase == 4 ? "(the copy)" : "(the target)"); }
        else {
            if (phase == 3 || phase == 4) same(*m, "after the failure");
            if (phase == 5) same(*m, "(the source) after the failure");
            if (phase == 3) { Ans a; Outcome p = attempt([&] { m->query(q, d[0], a); }); if (!p.ok() || !same_ans(a, base[q])) violate("C12:lost", "%s again after the failure gives %s", what, p.ok() ? shows(a).c_str() : p.what.c_str()); }
            Est* target = phase == 5 ? other : phase <= 2 ? m : nullptr;
            if (target && refit) {
                set_env(e[0]); Outcome p = attempt([&] { target->fit(d[0]); });
                if (p.kind != fo.kind) violate("C12:refit", "%s: fitting again after the failure %s", what, p.ok() ? "succeeds" : ("threw " + p.what).c_str());
                if (p.ok()) same(*target, "after the failure and a new fit");
            }
        }
        kill(m); if (other) kill(other);
        live[rep + 1] = heap_live_blocks();
    }
    if (d[0].hash() != data_hash) violate("C12:data-modified", "%s changed the caller's data", what);
    if (live[3] > live[2] && live[2] > live[1]) { heap_dump_live(seq0); violate("C12:leak", "%s with %s %llu failing leaks %llu blocks every time", what, ent ? "entropy draw" : "allocation", (unsigned long long)at, (unsigned long long)(live[3] - live[2])); }
    heap_check();
    if (fired) count(ent ? "entropy failures" : forever ? "memory exhausted from some point" : "single allocation failures");
    if (surfaced) { count("failures that surfaced"); count(k.name); }
    if (fired && !surfaced) count("failures absorbed without effect");
    event("%s at=%llu/%llu forever=%d fired=%d surfaced=%d", what, (unsigned long long)at, (unsigned long long)(ent ? draws : allocs), forever, fired, surfaced);
    if (fired) nontrivial();
    state(hmix(hmix(hmix(settings % 97, at), phase * 50 + ent), sim::hash_bytes(k.name, strlen(k.name))));
    sample("%s, %s %llu of %llu%s: %s", what, ent ? "entropy draw" : "allocation", (unsigned long long)at, (unsigned long long)(ent ? draws : allocs), forever ? " and all later ones" : "", surfaced ? "surfaced" : "absorbed");
}
