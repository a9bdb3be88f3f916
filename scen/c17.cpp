// C17: the itemset hash tree equals a map of counters after any history.
#include "core/tree/hash_tree.hpp"
#include "common.hpp"
using namespace sim;
template <typename T> struct Node {
    bool is_leaf; std::size_t index;
    std::map<std::vector<T>, std::size_t> bucket;
    std::map<std::size_t, std::shared_ptr<Node>> children;
    Node() : is_leaf(true), index(0) {}
    Node(bool l, std::size_t i = 0) : is_leaf(l), index(i) {}
};
template <class T> static std::string iset(const std::vector<T>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "}"; }

template <class T> static void history() {
    typedef openml::tree::HashTree<Node<T>, T> Tree;
    int len = choose(25, "long.sets") == 24 ? range(5, 10, "len") : range(1, 4, "len"), items = range(1, 9, "items"); bool huge = choose(250, "huge") == 249; if (huge && choose(2, "many.items")) items = range(20, 80, "items");
    size_t leaf, child;
    bool dflt = choose(5, "default") == 4;
    if (dflt) { leaf = child = 3; }
    else { leaf = choose(7, "leaf"); child = 1 + choose(7, "child"); if (choose(6, "wide") == 5) leaf = child = 1 + choose(60, "wide.n"); }
    bool faults = choose(3, "faults") == 2;
    std::unique_ptr<Tree> t;
    { Sut s; t.reset(dflt ? new Tree() : new Tree(leaf, child)); }
    std::map<std::vector<T>, size_t> model;
    std::vector<size_t> counts; std::vector<std::vector<T>> sets;   // reused by every report
    // item names need not be small numbers
    T base = 0, step = 1; if (choose(5, "names") == 4) { base = (T)(sizeof(T) > 4 && choose(2, "names.far") ? (T)1 << (sizeof(T) * 8 - 2) : (T)choose(2000000000, "names.base")); step = (T)(1 + choose(1000000, "names.step")); }
    int n = huge ? range(500, 2500, "ops") : range(1, choose(4, "long") == 3 ? 160 : 40, "ops");
    int reports = 0, failed = 0;
    auto report = [&](size_t sup, bool fault) {
        if (fault) heap_fail_at(1 + choose(40, "alloc.at"), chance(1, 4, "forever"));
        Outcome o = attempt([&] { t->compute_frequency_itemsets(sup, counts, sets); });
        bool fired = fault && heap_fault_fired(); heap_fail_at(0, false);
        if (!o.ok()) { if (!fired) violate("C17:threw", "report threw: %s", o.what.c_str()); failed++; return; }
        reports++;
        if (counts.size() != sets.size()) violate("C17:report-shape", "%zu itemsets with %zu counts", sets.size(), counts.size());
        std::map<std::vector<T>, size_t> got;
        for (size_t i = 0; i < sets.size(); i++) if (!got.emplace(sets[i], counts[i]).second) violate("C17:listed-twice", "itemset %s listed twice", iset(sets[i]).c_str());
        for (auto& m : model) {
            auto g = got.find(m.first);
            if (m.second >= sup && g == got.end()) violate("C17:itemset-lost", "itemset %s with count %zu missing from the report at support %zu", iset(m.first).c_str(), m.second, sup);
            if (g != got.end() && g->second != m.second) violate("C17:count", "itemset %s reported with count %zu, it received %zu increments", iset(m.first).c_str(), g->second, m.second);
        }
        for (auto& g : got) {
            if (!model.count(g.first)) violate("C17:itemset-invented", "itemset %s reported but never inserted", iset(g.first).c_str());
            if (g.second < sup) violate("C17:below-support", "itemset %s with count %zu reported at support %zu", iset(g.first).c_str(), g.second, sup);
        }
        event("report support=%zu -> %zu itemsets", sup, sets.size());
    };
    for (int i = 0; i < n; i++) {
        int op = (int)choose(8, "op");
        if (op == 7) { report(choose(30, "far.support") == 29 ? choose(1500, "support") : choose(6, "support"), faults && chance(1, 4, "fault")); continue; }
        std::vector<T> s; for (int j = 0; j < len; j++) s.push_back((T)(base + (T)choose(items, "item") * step));
        std::sort(s.begin(), s.end());
        bool fault = faults && chance(1, 4, "fault");
        if (fault) heap_fail_at(1 + choose(choose(2, "far") ? 30 : 6, "alloc.at"), chance(1, 4, "forever"));
        if (op <= 3) {
            Outcome o = attempt([&] { t->build_tree(s); });
            bool fired = fault && heap_fault_fired(); heap_fail_at(0, false);
            event("insert %s -> %s", iset(s).c_str(), o.ok() ? "ok" : "failed");
            if (!o.ok()) {
                if (!fired) violate("C17:threw", "insert threw: %s", o.what.c_str());
                failed++;
                if (choose(2, "look")) {   // others stay exact; the itemset itself may be in or out
                    std::vector<size_t> c2; std::vector<std::vector<T>> s2;
                    Outcome r = attempt([&] { t->compute_frequency_itemsets(0, c2, s2); });
                    if (!r.ok()) violate("C17:threw", "report threw: %s", r.what.c_str());
                    std::map<std::vector<T>, size_t> got; for (size_t k = 0; k < s2.size(); k++) if (!got.emplace(s2[k], c2[k]).second) violate("C17:listed-twice", "itemset %s listed twice after a failed insert", iset(s2[k]).c_str());
                    for (auto& m : model) if (!got.count(m.first) || got[m.first] != m.second) violate("C17:failed-insert-damage", "after the failed insert of %s itemset %s counts %zu instead of %zu", iset(s).c_str(), iset(m.first).c_str(), got.count(m.first) ? got[m.first] : 0, m.second);
                    for (auto& g : got) if (!model.count(g.first) && (g.first != s || g.second != 0)) violate("C17:failed-insert-damage", "a failed insert left itemset %s", iset(g.first).c_str());
                }
                o = attempt([&] { t->build_tree(s); });
                if (!o.ok()) violate("C17:retry", "repeating a failed insert threw: %s", o.what.c_str());
                count("failed inserts repeated");
            }
            model.emplace(s, 0);
        } else if (choose(60, "burst") == 59) {               // many increments in a row, rarely more than sixteen bits can number
            size_t times = choose(40, "burst.far") == 39 ? 65536 + choose(2000, "burst.n") : 2 + choose(1200, "burst.n");
            heap_fail_at(0, false); step_budget(2000000000ull);
            Outcome o = attempt([&] { for (size_t k = 0; k < times; k++) t->add_support(s); });
            if (!o.ok()) violate("C17:threw", "add_support threw: %s", o.what.c_str());
            event("count %s %zu times", iset(s).c_str(), times); count(times > 65535 ? "bursts of more than 65535 increments" : "bursts of increments");
            auto it = model.find(s); if (it != model.end()) it->second += times;
        } else {
            Outcome o = attempt([&] { t->add_support(s); });
            bool fired = fault && heap_fault_fired(); heap_fail_at(0, false);
            event("count %s -> %s", iset(s).c_str(), o.ok() ? "ok" : "failed");
            if (!o.ok()) {
                if (!fired) violate("C17:threw", "add_support threw: %s", o.what.c_str());
                failed++;
                o = attempt([&] { t->add_support(s); });
                if (!o.ok()) violate("C17:retry", "repeating a failed increment threw: %s", o.what.c_str());
            }
            auto it = model.find(s); if (it != model.end()) { it->second++; count("increments of present itemsets"); } else count("increments of absent itemsets");
        }
    }
    report(0, false); report(1 + choose(3, "last.support"), false);
    { uint64_t h = hmix(leaf, child); for (auto& m : model) h = hmix(sim::hash_bytes(m.first.data(), m.first.size() * sizeof(T), h), m.second); state(h); }
    if (model.size() > leaf && leaf) count("histories that forced node splits");
    uint64_t live = 0; (void)live;
    { Sut s; t.reset(); }
    heap_check();
    nontrivial();
    sample("%d ops on itemsets of %d from %d items, leaf %zu child %zu: %zu itemsets, %d reports, %d failed operations", n, len, items, leaf, child, model.size(), reports, failed);
}
SIM_SCENARIO("C17") {
    heap_fill((int)choose(5, "fill"), 3);
    if (choose(2, "type")) history<size_t>(); else history<int>();
}
