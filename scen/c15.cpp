// C15: results depend on declared inputs only, not on stale memory or the console.
#include "est.hpp"
using namespace sim;

namespace { struct Res { Outcome o; std::vector<Outcome> qo; std::vector<Ans> a; EnvUse use; }; }

static Res perform(const Kind& k, uint64_t settings, bool verbose, const std::vector<Data>& d, const Env& e, int history, unsigned order) {
    Res x; Est* m = nullptr; int nq = (int)k.queries.size();
    Outcome c = attempt([&] { m = k.make(settings, verbose); });
    if (!c.ok()) violate("C15:threw", "%s: constructing threw %s", k.name, c.what.c_str());
    for (int i = 0; i < history; i++) { set_env(e); attempt([&] { m->fit(d[1]); }); }
    set_env(e);
    x.o = attempt([&] { m->fit(d[0]); }); x.use = env_use();
    x.qo.resize(nq); x.a.resize(nq);
    if (x.o.ok()) for (int i = 0; i < nq; i++) { int q = (int)((i + order) % nq); x.qo[q] = attempt([&] { m->query(q, d[0], x.a[q]); }); }
    Sut s; delete m;
    return x;
}

SIM_SCENARIO("C15") {
    sort_kinds();
    const Kind& k = *kinds()[choose(kinds().size(), "kind")];
    uint64_t settings = choose(1 << 20, "settings");
    Rng r = data_rng("data");
    std::vector<Data> d(2); for (auto& x : d) k.gen(settings, r, x);
    Env e = choose_env(); e.ent_fail_at = -1;
    step_budget(4000000000ull);
    Res base; uint64_t h = 0;
    int n = range(2, 4, "repeats");
    std::string varied;
    for (int i = 0; i < n; i++) {
        int fill = (int)choose(5, "fill"), console = (int)choose(3, "console"); bool verbose = choose(2, "verbose");
        heap_fill(fill, choose(1000, "fill.seed")); heap_layout((unsigned)choose(60, "layout"), choose(2, "reuse")); set_console(console, choose(600, "console.at"));
        dirty_stack((int)choose(4, "stack"), choose(1000, "stack.seed"));
        int before = i ? (int)choose(3, "before") : 0;     // other computations earlier in the process
        for (int b = 0; b < before; b++) {
            const Kind& o = *kinds()[choose(kinds().size(), "other.kind")]; uint64_t os = choose(1 << 20, "other.settings"); Data od; o.gen(os, r, od);
            set_env(e); Est* m = nullptr; attempt([&] { m = o.make(os, false); m->fit(od); }); { Sut s; delete m; }
        }
        int history = i && choose(4, "history") == 3 ? 1 : 0;
        Res x = perform(k, settings, verbose, d, e, history, i ? (unsigned)choose(8, "order") : 0);
        char cfg[160]; snprintf(cfg, sizeof cfg, "fill=%d console=%d verbose=%d before=%d refitted=%d", fill, console, verbose, before, history);
        varied += std::string(varied.empty() ? "" : " | ") + cfg;
        if (x.o.kind == Outcome::BAD_ALLOC) violate("C15:threw", "%s: out of memory without a fault", k.name);
        for (auto& a : x.a) h = hans(a, h);
        event("%s ok=%d h=%llx", cfg, x.o.ok(), (unsigned long long)h);
        if (!i) { base = x; continue; }
        if (x.o.kind != base.o.kind) violate("C15:depends", "%s (%s): training %s with %s and %s before", k.name, k.describe(settings).c_str(), x.o.ok() ? "succeeds" : ("throws " + x.o.what).c_str(), cfg, base.o.ok() ? "succeeded" : "threw");
        for (size_t q = 0; q < k.queries.size(); q++) {
            if (x.qo[q].kind != base.qo[q].kind) violate("C15:depends", "%s (%s): %s %s with %s", k.name, k.describe(settings).c_str(), k.queries[q], x.qo[q].ok() ? "succeeds" : ("throws " + x.qo[q].what).c_str(), cfg);
            if (!bits_ans(x.a[q], base.a[q])) violate("C15:depends", "%s (%s): %s gives %s with %s, before %s", k.name, k.describe(settings).c_str(), k.queries[q], shows(x.a[q]).c_str(), cfg, shows(base.a[q]).c_str());
            count("answers compared bit for bit");
        }
    }
    heap_check();
    count(k.name); nontrivial(); state(hmix(h, settings));
    sample("%s (%s): %s", k.name, k.describe(settings).c_str(), varied.c_str());
}
