// P16: histories of operations on two queues or stacks, against the sequence they should hold.
#include "containers.hpp"

namespace {

template <template <typename> class C, typename T, bool Fifo> void line(const Scenario& s, const char* what) {
    using Line = C<T>;
    scope(std::string(what) + "/" + As<T>::name); Session w(s);
    {
        std::unique_ptr<Line> c[2]; std::vector<Id> m[2]; uint32_t serial = 0;     // front of m: the oldest
        auto verify = [&](const char* when) {
            for (int k = 0; k < 2; ++k) {
                auto& x = *c[k]; const auto& cx = x; auto fail = [&](const std::string& t) { violation("wrong-content", t + ", " + when + "; expected, oldest first:" + show(m[k]) + "; it holds:" + show(contents(x))); };
                if (x.size() != m[k].size() || x.empty() != m[k].empty()) { fail("size() is " + std::to_string(x.size())); }
                if (contents(x) != m[k] || contents(cx) != m[k]) { fail("iteration differs"); }
                std::vector<Id> back; for (auto it = x.rbegin(); it != x.rend(); ++it) { back.push_back(As<T>::read(*it)); } std::reverse(back.begin(), back.end());
                if (back != m[k]) { fail("reverse iteration differs"); }
                if (!m[k].empty()) {
                    const Id next = Fifo ? m[k].front() : m[k].back();
                    if (!(As<T>::read(x.top()) == next) || !(As<T>::read(x.front()) == next) || !(As<T>::read(cx.top()) == next) || !(As<T>::read(cx.front()) == next)) { fail("top() is " + str(As<T>::read(x.top()))); }
                }
            }
            state(digest(m[0]) ^ digest(m[1]) * 3);
        };
        auto fresh = [&](int k, int r) { alloc::plan_failure(0, false); c[k].reset(); attempt("construct", [&] { c[k] = std::make_unique<Line>(&w.res[r & 1]); }); m[k].clear(); };
        fresh(0, 0); fresh(1, static_cast<int>(s.get("resources")));
        int did = 0;
        for (auto& op : s.ops) {
            const int k = op.arg(0) & 1; auto& x = *c[k];
            if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(1))), op.arg(2) & 1); continue; }
            const char* when = "after an operation"; auto add = [&](Result r, Id i) { if (r == DONE) { m[k].push_back(i); ++did; } else { when = "after an insertion that failed"; } };
            const Id id{ op.arg(1), ++serial };
            if (op.kind == "push") { T v = As<T>::make(id); add(attempt("push", [&] { x.push(static_cast<const T&>(v)); }), id); }
            else if (op.kind == "pushmove") { T v = As<T>::make(id); add(attempt("push&&", [&] { x.push(std::move(v)); }), id); }
            else if (op.kind == "emplace") { T v = As<T>::make(id); add(attempt("emplace", [&] { x.emplace(std::move(v)); }), id); }
            else if (op.kind == "pushown") { if (!m[k].empty()) { const Id own = Fifo ? m[k].front() : m[k].back(); add(attempt("push(own)", [&] { x.push(static_cast<const T&>(x.top())); }), own); } }
            else if (op.kind == "emplaceown") { if (!m[k].empty()) { const Id own = Fifo ? m[k].front() : m[k].back(); add(attempt("emplace(own)", [&] { x.emplace(static_cast<const T&>(x.top())); }), own); } }
            else if (op.kind == "pushany") { if (!m[k].empty()) { auto i = static_cast<size_t>(op.arg(1)) % m[k].size(); const Id own = m[k][i]; const T& e = *(x.cbegin() + static_cast<long>(i)); if (op.arg(1) & 1) { add(attempt("push(one of its own)", [&] { x.push(e); }), own); } else { add(attempt("emplace(one of its own)", [&] { x.emplace(e); }), own); } } }
            else if (op.kind == "pop") { for (auto n = 1 + op.arg(1) % 4; n > 0 && !m[k].empty(); --n) { attempt("pop", [&] { x.pop(); }); if (Fifo) { m[k].erase(m[k].begin()); } else { m[k].pop_back(); } } }
            else if (op.kind == "many") { for (int64_t i = 0; i < op.arg(1); ++i) { const Id j{ op.arg(1) + i, ++serial }; T v = As<T>::make(j); const auto r = attempt("push", [&] { if (i & 1) { x.push(static_cast<const T&>(v)); } else { x.emplace(std::move(v)); } }); add(r, j); if (r != DONE) { break; } } }
            else if (op.kind == "popmany") { for (auto n = op.arg(1); n > 0 && !m[k].empty(); --n) { attempt("pop", [&] { x.pop(); }); if (Fifo) { m[k].erase(m[k].begin()); } else { m[k].pop_back(); } } }
            else if (op.kind == "clear") { if (attempt("clear", [&] { x.clear(); }) == DONE) { m[k].clear(); } }
            else if (op.kind == "copy") {
                const auto before = w.res[2].asked; auto r = attempt("copy", [&] { auto n = std::make_unique<Line>(*c[!k]); c[k] = std::move(n); });
                if (r == DONE) { m[k] = m[!k]; if (w.res[2].asked != before) { violation("wrong-resource", std::string("copying a ") + what + " took memory from the default resource, not from the source's"); } }
            }
            else if (op.kind == "assign") { if (attempt("copy assignment", [&] { x = static_cast<const Line&>(*c[!k]); }) == DONE) { m[k] = m[!k]; } else { fresh(k, k); } }
            else if (op.kind == "selfassign") { auto& y = x; attempt("self assignment", [&] { x = static_cast<const Line&>(y); }); auto& z = x; attempt("self move", [&] { x = std::move(z); }); }
            else if (op.kind == "move") { auto r = attempt("move", [&] { auto n = std::make_unique<Line>(std::move(*c[!k])); c[k] = std::move(n); }); if (r == DONE) { m[k] = m[!k]; attempt("clear", [&] { c[!k]->clear(); }); } else { attempt("clear", [&] { c[!k]->clear(); }); } m[!k].clear(); }
            else if (op.kind == "moveassign") { auto r = attempt("move assignment", [&] { x = std::move(*c[!k]); }); if (r == DONE) { m[k] = m[!k]; } else { attempt("clear", [&] { x.clear(); }); m[k].clear(); } attempt("clear", [&] { c[!k]->clear(); }); m[!k].clear(); }
            else if (op.kind == "edit") { if (!m[k].empty()) { auto i = static_cast<size_t>(op.arg(1)) % m[k].size(); T v = As<T>::make(id); { alloc::bypass_guard _; *(x.begin() + static_cast<long>(i)) = std::move(v); } m[k][i] = id; } }
            event(m[0].size(), m[1].size()); verify(when);
        }
        if (did >= 2) { nontrivial(); }
    }
    w.over(what);
}
Scenario gen_line(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 7); s.cfg["fill"] = r.range(0, 255); s.cfg["resources"] = r.range(0, 1);
    const int64_t n = 1 + r.skewed(thorough ? 400 : 150); const bool faults = r.chance(1, 2); const unsigned pops = static_cast<unsigned>(r.range(5, 60));
    static const std::vector<std::string> adds{ "push", "push", "pushmove", "emplace", "pushown", "emplaceown", "pushany" }, rare{ "clear", "copy", "assign", "selfassign", "move", "moveassign", "edit" };
    const bool many = r.chance(1, 40);
    for (int64_t i = 0; i < (many ? n / 4 + 1 : n); ++i) {
        const int64_t k = r.chance(1, 4);
        if (many && r.chance(1, 5)) { s.ops.push_back({ r.chance(1, 2) ? "many" : "popmany", { k, r.range(0, 1500) } }); }
        if (faults && r.chance(1, 5)) { s.ops.push_back({ "fail", { k, r.range(1, 4), r.range(0, 1) } }); }
        if (r.chance(1, 8)) { s.ops.push_back({ r.pick(rare), { k, r.range(0, 1000) } }); }
        else if (r.chance(pops, 100)) { s.ops.push_back({ "pop", { k, r.range(0, 3) } }); }
        else { s.ops.push_back({ r.pick(adds), { k, r.range(0, 1000) } }); }
    }
    return s;
}
void exec_line(const Scenario& s) {
    switch (s.get("flavour") % 8) {
        case 0: return line<chdr::queue, Elem, true>(s, "queue"); case 1: return line<chdr::queue, int64_t, true>(s, "queue"); case 2: return line<chdr::queue, std::string, true>(s, "queue"); case 3: return line<chdr::queue, Wide, true>(s, "queue");
        case 4: return line<chdr::stack, Elem, false>(s, "stack"); case 5: return line<chdr::stack, int64_t, false>(s, "stack"); case 6: return line<chdr::stack, std::string, false>(s, "stack"); default: return line<chdr::stack, Wide, false>(s, "stack");
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the containers, the graph, and the standard containers below them; simulated: operator new/delete, three memory resources (one of them the default) that check what is given back to them; no stubs";
    const std::string rule = "one history of operations on two objects of one type, drawn from the seed: element and comparator types, order, arguments, memory resources, fill pattern, failing allocations; distinct by the hash of the event log; non-trivial if at least two insertions succeeded";
    return main_for({ { "P16", gen_line, exec_line, 200000, 8000000, rule, real } }, argc, argv);
}
