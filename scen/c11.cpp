// C11: refitting equals a fresh fit after any history, and copies are independent.
#include "est.hpp"
using namespace sim;

namespace {
const int NV = 3;                                    // sets of points to ask a fit about
struct Fit { Data d, ask[NV]; Env e; std::vector<int> from; };   // one fit: data and random inputs; ask[2] consists of the rows `from` of ask[0]
struct Ref { Outcome o; std::vector<Ans> a[NV]; std::vector<Outcome> qo[NV]; };
struct Slot { Est* m = nullptr; int fit = -1; bool known = false; };   // known: result of `fit` expected
}

static Outcome ask(Est& m, const Kind& k, int q, const Data& d, Ans& out) { (void)k; out.clear(); return attempt([&] { m.query(q, d, out); }); }

SIM_SCENARIO("C11") {
    sort_kinds();
    const Kind& k = *kinds()[choose(kinds().size(), "kind")];
    uint64_t settings = choose(1 << 20, "settings");
    bool verbose = choose(3, "verbose") == 2;
    Rng r = data_rng("data");
    heap_fill((int)choose(5, "fill"), 3); set_console((int)choose(3, "console"), choose(400, "console.at"));
    step_budget(2000000000ull);
    int nd = range(2, 4, "fits");
    std::vector<Fit> fits(nd);
    for (auto& f : fits) { k.gen(settings, r, f.d); f.e = choose_env(); f.e.ent_fail_at = -1; }
    // some fits are close relatives of the first: what a fit may keep from an earlier one must not depend on a likeness
    for (int i = 1; i < nd; i++) {
        uint64_t kin = choose(12, "kin"); if (kin < 5) continue;
        Data d = fits[0].d; const int n = (int)d.X.rows(), m = (int)d.X.cols();
        if (kin >= 6) { if (choose(2, "same.inputs")) fits[i].e = fits[0].e; }
        if (kin == 6 || kin == 7) { for (int t = (int)d.y.size() - 1; t > 0; t--) std::swap(d.y(t), d.y((int)r.below(t + 1))); }          // other labels
        if (kin == 8 || kin == 9) for (int t = n - 1; t > 0; t--) { int u = (int)r.below(t + 1); d.X.row(t).swap(d.X.row(u)); if (d.y.size() == n && kin == 8) std::swap(d.y(t), d.y(u)); }
        if (kin == 10 && n * m) d.X((int)r.below(n), (int)r.below(m)) += 1;
        if (kin == 11 && n > 14) { d.X = d.X.topRows(n - 1).eval(); if (d.y.size() == n) d.y = d.y.head(n - 1).eval(); }
        if (kin >= 9 && d.tr.size() > 1) { auto& t = d.tr[r.below(d.tr.size())]; auto& u = d.tr[r.below(d.tr.size())]; if (t.size() && u.size()) t[r.below(t.size())] = u[r.below(u.size())]; }   // another item
        else if (kin >= 6 && d.tr.size() > 1) { if (kin % 2) d.tr.pop_back(); else std::swap(d.tr[0], d.tr[r.below(d.tr.size())]); }
        if (kin >= 6 && d.sets.size() > 1) { if (kin % 2) d.sets.pop_back(); else std::swap(d.sets[0], d.sets[r.below(d.sets.size())]); }
        fits[i].d = d; count("fits on a relative of the first dataset");
    }
    // what they are asked about: their own points, like or unlike ones, and a selection of their own points
    const bool crowd = choose(50, "crowd") == 49;
    for (auto& f : fits) {
        for (auto& a : f.ask) a = f.d;
        Mat& P = f.d.P; const int n = (int)P.rows(), m = (int)P.cols(); if (!n || !m) continue;
        switch (choose(4, "other.points")) {
        case 0: f.ask[1].P((int)r.below(n), (int)r.below(m)) += 1; break;
        case 1: f.ask[1].P.row(n - 1) = P.row(0); break;
        case 2: f.ask[1].P = (P.array() + 1).matrix(); break;
        default: f.ask[1].P = P.topRows(1 + (int)r.below(n)).eval(); f.ask[1].P(0, 0) += 2; f.ask[1].salt = r.next(); break;
        }
        int c = crowd ? 1000 + (int)r.below(200) : 1 + (int)r.below(2 * n); f.ask[2].P.resize(c, m);
        for (int i = 0; i < c; i++) { f.from.push_back((int)r.below(n)); f.ask[2].P.row(i) = P.row(f.from.back()); }
    }
    const bool single = k.describe(settings).find("single") != std::string::npos;   // in single precision nearly tied labels may flip
    auto pointwise = [&](int q) { const std::string s = k.queries[q]; return (s == "predict" && !single && k.name != std::string("multinomial naive Bayes")) || s == "predict_prob" || s == "predict_log_prob" || s == "transform" || s == "query" || s == "query_radius"; };
    // references: constructed, fitted once, asked
    std::vector<Ref> ref(nd);
    for (int i = 0; i < nd; i++) {
        Est* m = nullptr; set_env(fits[i].e);
        Outcome c = attempt([&] { m = k.make(settings, verbose); });
        if (!c.ok()) violate("C11:threw", "%s: constructing threw %s", k.name, c.what.c_str());
        ref[i].o = attempt([&] { m->fit(fits[i].d); });
        if (ref[i].o.kind == Outcome::BAD_ALLOC) violate("C11:threw", "%s: out of memory without a fault", k.name);
        if (ref[i].o.ok()) for (int v = 0; v < NV; v++) for (size_t q = 0; q < k.queries.size(); q++) { Ans a; ref[i].qo[v].push_back(ask(*m, k, (int)q, fits[i].ask[v], a)); ref[i].a[v].push_back(a); }
        if (ref[i].o.ok() && fits[i].from.size()) for (int q = 0; q < (int)k.queries.size(); q++) if (pointwise(q) && ref[i].qo[0][q].ok()) {
            Ans &a = ref[i].a[0][q], &b = ref[i].a[2][q]; const std::vector<int>& from = fits[i].from; const int n = (int)fits[i].d.P.rows(); const bool lists = k.queries[q] == std::string("query_radius");
            if (lists && (int)a.size() != n) continue;     // points without neighbours have no list
            bool ok = ref[i].qo[2][q].ok() && (lists ? b.size() == from.size() : a.size() == b.size());
            for (size_t j = 0; ok && !lists && j < a.size(); j++) ok = a[j].rows() == n && b[j].rows() == (int)from.size() && a[j].cols() == b[j].cols();
            for (size_t t = 0; ok && t < from.size(); t++) {
                if (lists) ok = same_ans({a[from[t]]}, {b[t]});
                else for (size_t j = 0; ok && j < a.size(); j++) ok = close(Mat(a[j].row(from[t])), Mat(b[j].row(t)), single ? 2e-3 : 1e-6, single ? 1e-4 : 1e-8);
            }
            if (!ok) violate("C11:company", "%s (%s): %s of %zu points out of %d asked before gives other answers than for the %d", k.name, k.describe(settings).c_str(), k.queries[q], from.size(), n, n);
            count("answers compared in other company");
        }
        Sut s; delete m;
    }
    auto check = [&](Slot& s, int q, const char* when) {
        Ans a; Ref& rf = ref[s.fit]; Env e = fits[(s.fit + 1) % nd].e; set_env(e);
        int v = (int)r.below(NV); if (crowd && v == 2 && r.below(8)) v = 0;
        Outcome o = ask(*s.m, k, q, fits[s.fit].ask[v], a);
        if (o.kind != rf.qo[v][q].kind) violate("C11:answer", "%s (%s): %s %s %s, on a fresh object it %s", k.name, k.describe(settings).c_str(), k.queries[q], when, o.ok() ? "returned" : ("threw " + o.what).c_str(), rf.qo[v][q].ok() ? "returns" : "throws");
        if (o.ok() && !same_ans(a, rf.a[v][q])) violate("C11:answer", "%s (%s): %s %s gives %s, a fresh object gives %s", k.name, k.describe(settings).c_str(), k.queries[q], when, shows(a).c_str(), shows(rf.a[v][q]).c_str());
        count("answers compared with a fresh object");
    };
    std::vector<Slot> slots(1);
    { Sut s; slots[0].m = k.make(settings, verbose); }
    int ops = range(2, 12, "ops"), nq = (int)k.queries.size();
    int refits = 0, copies = 0, failed = 0;
    for (int i = 0; i < ops; i++) {
        size_t si = choose(slots.size(), "slot"); Slot& s = slots[si];
        int op = (int)choose(9, "op");
        if (op == 8) {                                     // a fit that runs out of memory or entropy
            int f = (int)choose(nd, "which.fit"); Env e = fits[f].e;
            if (choose(4, "how") == 3 && k.entropy) { e.ent_fail_at = (long)choose(6, "entropy.at"); set_env(e); }
            else { set_env(e); heap_fail_at(1 + choose(choose(3, "far") == 2 ? 1500 : 60, "alloc.at"), chance(1, 3, "forever")); }
            Outcome o = attempt([&] { s.m->fit(fits[f].d); });
            heap_fail_at(0, false);
            if (o.ok()) { s.fit = f; s.known = true; } else { s.known = false; failed++; }
            event("fit %d with a fault: %s", f, o.ok() ? "ok" : "failed");
            continue;
        }
        if (op <= 2 || !s.m) {                              // fit
            int f = (int)choose(nd, "which.fit"); set_env(fits[f].e);
            bool again = s.fit >= 0 || failed;
            Outcome o = attempt([&] { s.m->fit(fits[f].d); });
            if (o.kind != ref[f].o.kind) violate("C11:refit", "%s (%s): refitting %s, a fresh object %s", k.name, k.describe(settings).c_str(), o.ok() ? "succeeds" : ("threw " + o.what).c_str(), ref[f].o.ok() ? "fits" : ("threw " + ref[f].o.what).c_str());
            s.fit = f; s.known = o.ok();
            event("fit %d %s", f, o.ok() ? "ok" : "threw");
            if (!o.ok()) { count("fits that failed by themselves"); failed++; continue; }
            if (choose(400, "refit.often") == 399) {
                int times = range(5, 40, "times"); bool all = true;
                for (int t = 0; t < times; t++) { set_env(fits[f].e); Outcome p = attempt([&] { s.m->fit(fits[f].d); }); all = all && p.ok(); }
                if (!all) violate("C11:refit", "%s (%s): fitting the same data %d times in a row fails", k.name, k.describe(settings).c_str(), times);
                again = true; count("long runs of fits");
            }
            if (again) { refits++; count("refits"); }
            check(s, (int)choose(nq, "query"), again ? "after refitting" : "after fitting");
        } else if (op <= 4) {                               // query
            if (s.known && s.fit >= 0) check(s, (int)choose(nq, "query"), "after a history");
            if (s.known && s.fit >= 0 && !crowd && choose(250, "often") == 249) {      // the same again and again
                int q = (int)choose(nq, "often.query"), times = range(20, choose(4, "often.far") == 3 ? 1100 : 300, "times");
                attempt([&] { for (int t = 0; t < times; t++) { Ans a; s.m->query(q, fits[s.fit].d, a); } });
                check(s, q, "after many questions"); count("long runs of queries");
            }
        } else if (op == 5) {                               // copy
            if (slots.size() >= 4) continue;
            Slot c = s; c.m = nullptr; Outcome o = attempt([&] { c.m = slots[si].m->clone(); });
            if (!o.ok()) violate("C11:copy", "%s: copying threw %s", k.name, o.what.c_str());
            slots.push_back(c); copies++; count("copies"); event("copy");
            if (slots.back().known && slots.back().fit >= 0) check(slots.back(), (int)choose(nq, "query"), "of a copy");
        } else if (op == 6) {                               // destroy
            if (slots.size() < 2) continue;
            { Sut q; delete s.m; } slots.erase(slots.begin() + si); count("objects destroyed"); event("destroy");
        } else {                                            // assign
            size_t from = choose(slots.size(), "from"); if (from == si) continue;
            Outcome o = attempt([&] { s.m->assign(*slots[from].m); });
            if (!o.ok()) violate("C11:copy", "%s: assigning threw %s", k.name, o.what.c_str());
            s.fit = slots[from].fit; s.known = slots[from].known; count("assignments"); event("assign");
        }
    }
    // everything still standing answers as fresh; then refit it all
    for (auto& s : slots) {
        if (s.known && s.fit >= 0) for (int q = 0; q < nq; q++) check(s, q, "at the end");
        int f = (int)choose(nd, "last.fit"); set_env(fits[f].e);
        Outcome o = attempt([&] { s.m->fit(fits[f].d); });
        if (o.kind != ref[f].o.kind) violate("C11:refit", "%s (%s): refitting %s, a fresh object %s", k.name, k.describe(settings).c_str(), o.ok() ? "succeeds" : ("threw " + o.what).c_str(), ref[f].o.ok() ? "fits" : ("threw " + ref[f].o.what).c_str());
        s.fit = f; s.known = o.ok(); if (o.ok()) { count("refits"); refits++; }
    }
    for (auto& s : slots) if (s.known) for (int q = 0; q < nq; q++) check(s, q, "after the last refit");
    uint64_t h = settings; for (auto& s : slots) if (s.known) for (auto& a : ref[s.fit].a[0]) h = hans(a, h);
    for (auto& s : slots) { Sut q; delete s.m; }
    heap_check();
    if (failed) count("histories with failed fits");
    event("refits=%d copies=%d h=%llx", refits, copies, (unsigned long long)h);
    state(h); count(k.name); nontrivial(); sample("%s (%s): %d operations, %d refits, %d copies, %d failed fits", k.name, k.describe(settings).c_str(), ops, refits, copies, failed);
}
