// C14: independent objects used from different threads never interfere.
#include "est.hpp"
using namespace sim;

namespace {
struct Job {                                    // what one thread does, on objects of its own
    const Kind* k; uint64_t settings; bool verbose; std::vector<Data> d; std::vector<Env> e; std::vector<std::pair<int, int>> ops; // op: 0 fit i, 1 query i, 2 copy and use the copy, 3 new object
};
struct Out { std::vector<Outcome> o; std::vector<Ans> a; };
void perform(const Job& j, Out& out) {
    Est* m = nullptr; size_t cur = 0; bool ok = false;
    for (auto& op : j.ops) {
        Outcome o; Ans a;
        if (op.first == 0 || !m) {
            if (op.first == 3 && m) { Sut s; delete m; m = nullptr; }
            set_env(j.e[cur = (size_t)op.second % j.d.size()]);
            o = attempt([&] { if (!m) m = j.k->make(j.settings, j.verbose); m->fit(j.d[cur]); }); ok = o.ok();
        } else if (op.first == 1) { if (ok) o = attempt([&] { m->query(op.second % (int)j.k->queries.size(), j.d[cur], a); }); }
        else if (op.first == 2) { Est* c = nullptr; o = attempt([&] { c = m->clone(); }); { Sut s; delete m; } m = c; }
        else { { Sut s; delete m; m = nullptr; } ok = false; }
        out.o.push_back(o); out.a.push_back(a);
    }
    Sut s; delete m;
}
}
SIM_SCENARIO("C14") {
    sort_kinds();
    int nt = range(2, 3, "threads");
    Rng r = data_rng("data");
    heap_fill((int)choose(5, "fill"), 3); heap_layout((unsigned)choose(50, "layout"), choose(3, "reuse") == 2); set_console((int)choose(3, "console"), choose(400, "console.at"));
    step_budget(4000000000ull);
    bool same_kind = choose(3, "same.kind") != 0, same_data = choose(4, "same.data") == 3, same_env = choose(3, "same.env") == 2;
    std::vector<Job> jobs(nt);
    for (int t = 0; t < nt; t++) {
        Job& j = jobs[t];
        j.k = same_kind && t ? jobs[0].k : kinds()[choose(kinds().size(), "kind")];
        j.settings = same_kind && t && choose(2, "same.settings") ? jobs[0].settings : choose(1 << 20, "settings");
        j.verbose = choose(3, "verbose") == 2;
        int nd = range(1, 2, "fits");
        for (int i = 0; i < nd; i++) { Data d; if (same_data && same_kind && t && i < (int)jobs[0].d.size() && j.settings == jobs[0].settings) d = jobs[0].d[i]; else j.k->gen(j.settings, r, d); j.d.push_back(d); Env e = same_env && t ? jobs[0].e[0] : choose_env(); e.ent_fail_at = -1; j.e.push_back(e); }
        int n = range(1, 4, "ops"); j.ops.push_back({0, 0}); for (int i = 0; i < n; i++) { static const int w[] = {1, 1, 0, 2, 3}; j.ops.push_back({w[choose(5, "op")], (int)choose(8, "arg")}); }
        j.ops.push_back({1, 0});
    }
    std::vector<Out> want(nt), got(nt);
    for (int t = 0; t < nt; t++) perform(jobs[t], want[t]);
    std::vector<std::function<void()>> b;
    for (int t = 0; t < nt; t++) b.push_back([&, t] { perform(jobs[t], got[t]); });
    uint64_t h = 3;
    for (int phase = 0; ; phase++) {
        uint64_t before = sched_stats().shared_writes;
        run_threads(b);
        for (int t = 0; t < nt; t++) for (size_t i = 0; i < want[t].o.size(); i++) {
            const Job& j = jobs[t]; const Outcome &o = got[t].o[i], &w = want[t].o[i];
            static const char* on[] = {"fit", "query", "copy", "new object"};
            if (o.kind != w.kind) violate("C14:interference", "%s (%s): %s in a thread %s, alone it %s", j.k->name, j.k->describe(j.settings).c_str(), on[j.ops[i].first], o.ok() ? "returned" : ("threw " + o.what).c_str(), w.ok() ? "returns" : ("throws " + w.what).c_str());
            if (o.ok() && !same_ans(got[t].a[i], want[t].a[i])) violate("C14:interference", "%s (%s): %s in a thread gives %s, alone %s", j.k->name, j.k->describe(j.settings).c_str(), on[j.ops[i].first], shows(got[t].a[i]).c_str(), shows(want[t].a[i]).c_str());
            count("results compared with the work alone"); h = hans(got[t].a[i], h);
        }
        // work that wrote to static memory or to another thread's objects deserves more schedules
        if (phase >= 5 || sched_stats().shared_writes == before) break;
        count("phases repeated because threads wrote to common memory");
        for (auto& g : got) { g.o.clear(); g.a.clear(); }
    }
    heap_check();
    auto st = sched_stats();
    event("threads=%d switches=%llu h=%llx", nt, (unsigned long long)st.switches, (unsigned long long)h);
    if (st.switches > (uint64_t)nt) { count("interleaved phases"); for (auto& j : jobs) count(j.k->name); nontrivial(); }
    std::string s; for (auto& j : jobs) s += std::string(s.empty() ? "" : " | ") + j.k->name + " (" + j.k->describe(j.settings) + ")";
    sample("%s, %llu switches", s.c_str(), (unsigned long long)st.switches);
}
