// P17: histories of operations on two existence sets, against ordered sets.
#include "containers.hpp"

namespace {

template <typename W> void sets(const Scenario& s, const char* width) {
    using Set = chdr::existence_set<W>;
    scope(std::string("existence_set/") + width); Session w(s);
    {
        std::unique_ptr<Set> c[2]; std::set<size_t> m[2]; int did = 0;
        auto verify = [&](const char* when) {
            for (int k = 0; k < 2; ++k) {
                auto& x = *c[k]; const auto& cx = x; const size_t top = m[k].empty() ? 0 : *m[k].rbegin() + 1; std::vector<bool> want(top); for (auto i : m[k]) { want[i] = true; }
                auto ask = [&](size_t i, bool v) { if (cx.contains(i) != v) { violation("wrong-membership", "contains(" + std::to_string(i) + ") is " + (v ? "false" : "true") + ", " + when); } };
                for (size_t i = 0; i < top + 70; ++i) { ask(i, i < top && want[i]); }
                for (size_t i : { top + 5000, x.size(), x.capacity(), size_t(1) << 32, SIZE_MAX - 1, SIZE_MAX }) { if (i >= top) { ask(i, false); } }
                std::vector<bool> a, b, d; for (auto it = x.begin(); it != x.end(); ++it) { a.push_back(static_cast<bool>(*it)); } for (auto it = cx.begin(); it != cx.end(); ++it) { b.push_back(static_cast<bool>(*it)); } for (auto it = x.rbegin(); it != x.rend(); ++it) { d.push_back(static_cast<bool>(*it)); } std::reverse(d.begin(), d.end());
                if (a != b || a != d || a.size() < top) { violation("wrong-membership", std::string("ways to iterate differ, ") + when); }
                for (size_t i = 0; i < a.size(); ++i) { if (a[i] != (i < top && want[i])) { violation("wrong-membership", "iteration has " + std::string(a[i] ? "a" : "no") + " member at " + std::to_string(i) + ", " + when); } }
                if (x.size() != a.size() || x.empty() != a.empty() || x.capacity() < x.size()) { violation("wrong-size", std::string("size(), empty() and capacity() contradict each other, ") + when); }
                uint64_t h = static_cast<uint64_t>(k) + 5; for (auto i : m[k]) { h = mix(h ^ i); } state(h);
            }
        };
        auto fresh = [&](int k, int r) { alloc::plan_failure(0, false); attempt("destroy", [&] { c[k].reset(); }); attempt("construct", [&] { if (r & 2) { c[k] = std::make_unique<Set>(static_cast<size_t>(9), &w.res[r & 1]); } else { c[k] = std::make_unique<Set>(&w.res[r & 1]); } }); m[k].clear(); };
        fresh(0, 0); fresh(1, static_cast<int>(s.get("resources")));
        for (auto& op : s.ops) {
            const int k = op.arg(0) & 1; auto& x = *c[k]; const auto i = static_cast<size_t>(op.arg(1)); const char* when = "after an operation"; Result r = DONE;
            if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(1))), op.arg(2) & 1); continue; }
            auto add = [&](Result q) { r = q; if (q == DONE) { m[k].insert(i); ++did; } };
            if (op.kind == "push") { add(attempt("push", [&] { x.push(i); })); }
            else if (op.kind == "pushint") { add(attempt("push(int)", [&] { x.push(static_cast<int>(i)); })); }
            else if (op.kind == "emplace") { add(attempt("emplace", [&] { x.emplace(static_cast<uint32_t>(i)); })); }
            else if (op.kind == "pushlast") { if (x.size()) { const auto at = x.size() - 1; r = attempt("push", [&] { x.push(at); }); if (r == DONE) { m[k].insert(at); } } }
            else if (op.kind == "pushnext") { const auto at = op.arg(1) & 1 ? x.size() : x.capacity(); if (at < 100000) { r = attempt("push", [&] { x.push(at); }); if (r == DONE) { m[k].insert(at); } } }
            else if (op.kind == "huge") {
                const size_t at = op.arg(2) % 3 == 0 ? SIZE_MAX : op.arg(2) % 3 == 1 ? SIZE_MAX - i : SIZE_MAX / 2 + i; alloc::plan_limit(1 << 24);
                if (attempt("push(huge)", [&] { x.push(at); }, true) == DONE) { violation("impossible-member", "adding the hash " + std::to_string(at) + " succeeded"); }
                alloc::plan_limit(0); when = "after adding a huge hash, which failed"; count("fault.huge_request");
            }
            else if (op.kind == "erase") { attempt("erase", [&] { x.erase(i); }); m[k].erase(i); }
            else if (op.kind == "erasemember") { if (!m[k].empty()) { auto it = m[k].lower_bound(i); if (it == m[k].end()) { --it; } const auto at = *it; attempt("erase", [&] { x.erase(at); }); m[k].erase(at); } }
            else if (op.kind == "allocate") { r = attempt("allocate", [&] { if (op.arg(2) & 1) { x.allocate(i, static_cast<size_t>(op.arg(2))); } else { x.allocate(i, static_cast<size_t>(op.arg(2)), static_cast<size_t>(op.arg(3))); } }); }
            else if (op.kind == "reserve") { r = attempt("reserve", [&] { x.reserve(i); }); if (r == DONE && x.capacity() < i) { violation("not-reserved", "capacity() is less than was reserved"); } }
            else if (op.kind == "resize") {
                const bool v = op.arg(2) & 1; const auto had = x.size();
                r = attempt("resize", [&] { if (v) { x.resize(i, static_cast<W>(true)); } else { x.resize(i); } });
                if (r == DONE) { m[k].erase(m[k].lower_bound(i), m[k].end()); if (v) { for (auto j = had; j < i; ++j) { m[k].insert(j); } } if (x.size() != i) { violation("wrong-size", "resize() did not set the size"); } }
            }
            else if (op.kind == "trim") { r = attempt("trim", [&] { x.trim(); }); if (x.size() && !x.contains(x.size() - 1)) { violation("not-trimmed", "trim() left a trailing empty place"); } }
            else if (op.kind == "clear") { attempt("clear", [&] { x.clear(); }); m[k].clear(); if (x.size()) { violation("wrong-size", "clear() left a size"); } }
            else if (op.kind == "shrink") { r = attempt("shrink_to_fit", [&] { x.shrink_to_fit(); }); }
            else if (op.kind == "copy") { if (attempt("copy", [&] { auto n = std::make_unique<Set>(*c[!k]); c[k] = std::move(n); }) == DONE) { m[k] = m[!k]; } }
            else if (op.kind == "assign") { r = attempt("copy assignment", [&] { x = static_cast<const Set&>(*c[!k]); }); if (r == DONE) { m[k] = m[!k]; } else { fresh(k, k); } }
            else if (op.kind == "selfassign") { auto& y = x; attempt("self assignment", [&] { x = static_cast<const Set&>(y); }); auto& z = x; attempt("self move", [&] { x = std::move(z); }); }
            else if (op.kind == "move") { if (attempt("move", [&] { auto n = std::make_unique<Set>(std::move(*c[!k])); c[k] = std::move(n); }) == DONE) { m[k] = m[!k]; } attempt("clear", [&] { c[!k]->clear(); }); m[!k].clear(); }
            else if (op.kind == "moveassign") { if (attempt("move assignment", [&] { x = std::move(*c[!k]); }) == DONE) { m[k] = m[!k]; } else { attempt("clear", [&] { x.clear(); }); m[k].clear(); } attempt("clear", [&] { c[!k]->clear(); }); m[!k].clear(); }
            if (r == THREW) { when = "after an operation that failed"; }
            alloc::plan_failure(0, false); event(m[0].size(), m[1].size()); verify(when);
        }
        if (did >= 2) { nontrivial(); }
        attempt("destroy", [&] { c[0].reset(); c[1].reset(); });
    }
    w.over("existence_set");
}
Scenario gen_set(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 3); s.cfg["fill"] = r.range(0, 255); s.cfg["resources"] = r.range(0, 3);
    const int64_t n = 1 + r.skewed(thorough ? 300 : 120); const bool faults = r.chance(1, 2); const bool far = r.chance(1, 80); const int64_t top = far ? 70000 : r.pick(std::vector<int64_t>{ 8, 8, 70, 70, 70, 300, 300, 2000 }); const unsigned rares = static_cast<unsigned>(r.range(5, 50));
    static const std::vector<std::string> common{ "push", "pushint", "emplace", "pushlast", "pushnext", "erase", "erasemember" }, rare{ "huge", "allocate", "allocate", "reserve", "resize", "resize", "trim", "trim", "clear", "shrink", "copy", "assign", "selfassign", "move", "moveassign" };
    for (int64_t i = 0; i < (far ? n / 8 + 2 : n); ++i) {
        const int64_t k = r.chance(1, 4);
        if (faults && r.chance(1, 5)) { s.ops.push_back({ "fail", { k, r.range(1, 2), r.range(0, 1) } }); }
        s.ops.push_back({ r.pick(r.chance(rares, 100) ? rare : common), { k, r.range(0, top), r.range(0, 200), r.range(0, 400) } });
    }
    return s;
}
void exec_set(const Scenario& s) {
    switch (s.get("flavour") % 4) { case 0: return sets<char>(s, "char"); case 1: return sets<bool>(s, "bool"); case 2: return sets<uint16_t>(s, "uint16"); default: return sets<int64_t>(s, "int64"); }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the containers, the graph, and the standard containers below them; simulated: operator new/delete, three memory resources (one of them the default) that check what is given back to them; no stubs";
    const std::string rule = "one history of operations on two objects of one type, drawn from the seed: element and comparator types, order, arguments, memory resources, fill pattern, failing allocations; distinct by the hash of the event log; non-trivial if at least two insertions succeeded";
    return main_for({ { "P17", gen_set, exec_set, 60000, 4000000, rule, real } }, argc, argv);
}
