// P15: histories of operations on two heaps, against the bag of elements they should hold.
#include "containers.hpp"

namespace {

template <typename T, template <typename> class Cmp, size_t Kd> void heaps(const Scenario& s) {
    using Heap = chdr::heap<T, Cmp<T>, std::pmr::vector<T>, Kd>;
    scope(std::string("heap/") + As<T>::name + "/" + Cmp<T>::name + "/" + std::to_string(Kd)); Session w(s);
    auto before = [](const Id& a, const Id& b) { return Cmp<T>::up ? a.key > b.key : a.key < b.key; };    // a is yielded before b
    {
        std::unique_ptr<Heap> c[2]; std::vector<Id> m[2]; uint32_t serial = 0;      // m: in no order
        auto drain = [&](int k, const char* when) {                     // everything, in order, from a copy
            std::unique_ptr<Heap> d; attempt("copy", [&] { d = std::make_unique<Heap>(*c[k]); });
            std::vector<Id> got; while (!d->empty() && got.size() <= m[k].size()) { got.push_back(As<T>::read(d->top())); attempt("pop", [&] { d->pop(); }); }
            if (sorted(got) != sorted(m[k])) { violation("wrong-content", std::string("taking everything out, ") + when + ", yields" + show(got) + "; expected, in some order:" + show(m[k])); }
            for (size_t i = 1; i < got.size(); ++i) { if (before(got[i], got[i - 1])) { violation("out-of-order", std::string("taking everything out, ") + when + ", yields" + show(got)); } }
            attempt("destroy", [&] { d.reset(); });
        };
        auto verify = [&](const char* when) {
            for (int k = 0; k < 2; ++k) {
                auto& x = *c[k]; const auto& cx = x; auto fail = [&](const std::string& t) { violation("wrong-content", t + ", " + when + "; expected, in some order:" + show(m[k]) + "; it holds:" + show(contents(x))); };
                if (x.size() != m[k].size() || x.empty() != m[k].empty()) { fail("size() is " + std::to_string(x.size())); }
                auto v = contents(x); if (sorted(v) != sorted(m[k]) || contents(cx) != v) { fail("iteration differs"); }
                std::vector<Id> back; for (auto it = x.rbegin(); it != x.rend() && back.size() <= v.size(); ++it) { back.push_back(As<T>::read(*it)); } std::reverse(back.begin(), back.end());
                if (back != v) { fail("reverse iteration differs"); }
                for (size_t i = 0; i < v.size(); ++i) { if (!(As<T>::read(cx[i]) == v[i]) || !(As<T>::read(cx.at(i)) == v[i])) { fail("element " + std::to_string(i) + " differs by index"); } }
                if (v.empty()) { continue; }
                const Id top = As<T>::read(x.top());
                if (!(As<T>::read(cx.top()) == top) || !(As<T>::read(x.front()) == top) || !(As<T>::read(cx.front()) == top) || !(v.front() == top)) { fail("top() is " + str(top)); }
                if (!(As<T>::read(x.back()) == v.back()) || !(As<T>::read(cx.back()) == v.back())) { fail("back() is " + str(As<T>::read(x.back()))); }
                for (auto& i : m[k]) { if (before(i, top)) { violation("out-of-order", std::string("top() is ") + str(top) + ", " + when + ", although it holds" + show(v)); } }
            }
            state(digest(sorted(m[0])) ^ digest(sorted(m[1])) * 3);
        };
        auto fresh = [&](int k, int r) { alloc::plan_failure(0, false); attempt("destroy", [&] { c[k].reset(); }); attempt("construct", [&] { if (r & 2) { c[k] = std::make_unique<Heap>(static_cast<size_t>(5), &w.res[r & 1]); } else { c[k] = std::make_unique<Heap>(&w.res[r & 1]); } }); m[k].clear(); };
        auto take = [&](int k, const Id& i) { auto it = std::find(m[k].begin(), m[k].end(), i); if (it == m[k].end()) { violation("wrong-content", "an element came out that was not in: " + str(i)); } m[k].erase(it); };
        fresh(0, 0); fresh(1, static_cast<int>(s.get("resources")));
        const bool shared = !(s.get("resources") & 1); int did = 0; size_t ticks = 0;
        for (auto& op : s.ops) {
            const int k = op.arg(0) & 1; auto& x = *c[k]; const auto pos = [&](int64_t a) { return static_cast<size_t>(a) % m[k].size(); };
            if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(1))), op.arg(2) & 1); continue; }
            const char* when = "after an operation"; const Id id{ op.arg(1), ++serial }; auto add = [&](Result r) { if (r == DONE) { m[k].push_back(id); ++did; } else { when = "after an insertion that failed"; } };
            if (op.kind == "push") { T v = As<T>::make(id); add(attempt("push", [&] { x.push(static_cast<const T&>(v)); })); }
            else if (op.kind == "pushmove") { T v = As<T>::make(id); add(attempt("push&&", [&] { x.push(std::move(v)); })); }
            else if (op.kind == "emplace") { T v = As<T>::make(id); add(attempt("emplace", [&] { x.emplace(std::move(v)); })); }
            else if (op.kind == "enqueue") { T v = As<T>::make(id); add(attempt("enqueue", [&] { if (op.arg(2) & 1) { x.enqueue(std::move(v)); } else { x.enqueue(static_cast<const T&>(v)); } })); }
            else if (op.kind == "pushown") {                             // an element of its own, by reference
                if (m[k].empty()) { continue; }
                const auto i = pos(op.arg(1)); const Id own = contents(x)[i]; const T& r = *(x.begin() + static_cast<long>(i));
                if (attempt("push of an own element", [&] { switch (op.arg(2) % 3) { case 0: x.push(r); break; case 1: x.emplace(r); break; default: x.enqueue(r); } }) == DONE) { m[k].push_back(own); ++did; } else { when = "after an insertion that failed"; }
            }
            else if (op.kind == "nosort") {
                T v = As<T>::make(id);
                add(attempt("push_nosort", [&] { switch (op.arg(2) % 4) { case 0: x.push_nosort(static_cast<const T&>(v)); break; case 1: x.push_nosort(std::move(v)); break; case 2: x.emplace_nosort(std::move(v)); break; default: x.enqueue_nosort(static_cast<const T&>(v)); } x.sort_up(*(x.end() - 1)); }));
            }
            else if (op.kind == "insertat") {
                T v = As<T>::make(id); bool right = true; const auto p = static_cast<long>(static_cast<size_t>(op.arg(2)) % (m[k].size() + 1));
                add(attempt("insert", [&] { auto it = op.arg(2) & 1 ? x.insert(x.begin() + p, std::move(v)) : x.insert(x.begin() + p, static_cast<const T&>(v)); right = it != x.end() && As<T>::read(*it) == id; }));
                if (!right) { violation("wrong-iterator", "insert() returned an iterator that is not at the inserted element"); }
            }
            else if (op.kind == "insertrange") {
                std::vector<T> v; std::vector<Id> ids; for (int64_t i = 0; i < 1 + op.arg(2) % 7; ++i) { ids.push_back({ (op.arg(1) * (i + 1)) % 997, ++serial }); v.push_back(As<T>::make(ids.back())); }
                attempt("insert range", [&] { x.insert(v.begin(), v.end()); });
                for (size_t n = x.size() - std::min(x.size(), m[k].size()), i = 0; i < n && i < ids.size(); ++i) { m[k].push_back(ids[i]); ++did; }
            }
            else if (op.kind == "pop") { for (auto n = 1 + op.arg(1) % 3; n > 0 && !m[k].empty(); --n) { const Id top = As<T>::read(x.top()); attempt("pop", [&] { x.pop(); }); take(k, top); } }
            else if (op.kind == "dequeue") { if (!m[k].empty()) { const Id top = As<T>::read(x.top()); Id got{}; attempt("dequeue", [&] { T v = x.dequeue(); alloc::bypass_guard _; got = As<T>::read(v); }); if (!(got == top)) { violation("wrong-element", "dequeue() returned " + str(got) + ", the top was " + str(top)); } take(k, top); } }
            else if (op.kind == "popback") { if (!m[k].empty()) { const Id last = As<T>::read(*(x.end() - 1)); attempt("pop_back", [&] { x.pop_back(); }); take(k, last); } }
            else if (op.kind == "eraseref") { if (!m[k].empty()) { auto i = pos(op.arg(1)); const Id v = contents(x)[i]; attempt("erase(item)", [&] { x.erase(static_cast<const T&>(*(x.begin() + static_cast<long>(i)))); }); take(k, v); } }
            else if (op.kind == "eraseat") { if (!m[k].empty()) { auto i = pos(op.arg(1)); const Id v = contents(x)[i]; attempt("erase(iterator)", [&] { (void)x.erase(x.begin() + static_cast<long>(i)); }); take(k, v); } }
            else if (op.kind == "eraserange") {
                if (!m[k].empty()) { auto i = pos(op.arg(1)), n = static_cast<size_t>(op.arg(2)) % (m[k].size() - i + 1); auto v = contents(x); attempt("erase(range)", [&] { x.erase(x.begin() + static_cast<long>(i), x.begin() + static_cast<long>(i + n)); }); for (size_t j = i; j < i + n; ++j) { take(k, v[j]); } }
            }
            else if (op.kind == "change") {                              // another priority, and the sort it calls for
                if (!m[k].empty()) {
                    auto i = pos(op.arg(2)); auto it = x.begin() + static_cast<long>(i); const Id was = As<T>::read(*it), now{ op.arg(1), was.serial };
                    { alloc::bypass_guard _; *it = As<T>::make(now); }
                    attempt("sort", [&] { if (before(now, was)) { x.sort_up(*it); } else { x.sort_down(*it); } }); take(k, was); m[k].push_back(now);
                }
            }
            else if (op.kind == "contains") {
                for (size_t i = 0; i < m[k].size(); ++i) { bool in = false; attempt("contains", [&] { in = x.contains(*(x.begin() + static_cast<long>(i))); }); if (!in) { violation("wrong-content", "contains() denies an element"); } }
            }
            else if (op.kind == "bounds") {
                T v = As<T>::make(id); bool any_l = false, any_u = false, ok_l = false, ok_u = false;
                for (auto& i : m[k]) { any_l |= !before(id, i); any_u |= before(i, id); }
                { alloc::arm_guard _; auto l = x.lower_bounds(v); ok_l = l == x.end() ? !any_l : any_l && !before(id, As<T>::read(*l)); auto u = x.upper_bounds(v); ok_u = u == x.end() ? !any_u : any_u && before(As<T>::read(*u), id); }
                if (!ok_l || !ok_u) { violation("wrong-bound", std::string(ok_l ? "upper" : "lower") + "_bounds() of key " + std::to_string(id.key) + " in" + show(contents(x))); }
            }
            else if (op.kind == "many") { for (int64_t i = 0; i < 20 + op.arg(2); ++i) { const Id j{ static_cast<int64_t>(mix(static_cast<uint64_t>(op.arg(1) * 1001 + i)) % 5000), ++serial }; T v = As<T>::make(j); const auto r = attempt("push", [&] { x.push(std::move(v)); }); if (r != DONE) { when = "after an insertion that failed"; break; } m[k].push_back(j); ++did; } }
            else if (op.kind == "clear") { attempt("clear", [&] { x.clear(); }); m[k].clear(); }
            else if (op.kind == "reserve") { if (attempt("reserve", [&] { x.reserve(static_cast<size_t>(op.arg(1) % 200)); }) == DONE && x.capacity() < static_cast<size_t>(op.arg(1) % 200)) { violation("not-reserved", "capacity() is less than was reserved"); }
                else if (x.capacity() >= static_cast<size_t>(op.arg(1) % 200) && op.arg(2) % 4 == 0) {    // room was made: no more is asked for until it is used up
                    const auto asked = w.res[0].asked + w.res[1].asked + w.res[2].asked; alloc::plan_failure(0, false);
                    while (x.size() < static_cast<size_t>(op.arg(1) % 200)) { const Id j{ (op.arg(2) * static_cast<int64_t>(x.size() + 1)) % 997, ++serial }; T v = As<T>::make(j); attempt("push", [&] { x.push(std::move(v)); }); m[k].push_back(j); }
                    if (w.res[0].asked + w.res[1].asked + w.res[2].asked != asked) { violation("not-reserved", "memory was asked for although enough was reserved"); }
                } }
            else if (op.kind == "shrink") { attempt("shrink_to_fit", [&] { x.shrink_to_fit(); }); }
            else if (op.kind == "wipe") { attempt("wipe", [&] { x.wipe(); }); fresh(k, static_cast<int>(op.arg(1)) & (shared ? 2 : 3)); }
            else if (op.kind == "swap") { if (shared) { attempt("swap", [&] { x.swap(*c[!k]); }); std::swap(m[0], m[1]); } }
            else if (op.kind == "copy") { if (shared) { continue; } auto r = attempt("copy", [&] { auto n = std::make_unique<Heap>(*c[!k]); c[k] = std::move(n); }); if (r == DONE) { m[k] = m[!k]; } }
            else if (op.kind == "assign") { if (attempt("copy assignment", [&] { x = static_cast<const Heap&>(*c[!k]); }) == DONE) { m[k] = m[!k]; } else { fresh(k, shared ? 0 : k); } }
            else if (op.kind == "selfassign") { auto& y = x; attempt("self assignment", [&] { x = static_cast<const Heap&>(y); }); auto& z = x; attempt("self move", [&] { x = std::move(z); }); }
            else if (op.kind == "move" || op.kind == "moveassign") {
                auto& y = *c[!k];
                auto r = op.kind == "move" ? attempt("move", [&] { auto n = std::make_unique<Heap>(std::move(y)); c[k] = std::move(n); }) : attempt("move assignment", [&] { x = std::move(y); });
                if (r == DONE) { m[k] = m[!k]; } else if (op.kind == "moveassign") { fresh(k, shared ? 0 : k); }
                // What was moved from is valid: it can be used as it is after clear(), or assigned to.
                if (op.arg(1) & 1) { attempt("clear", [&] { y.clear(); }); } else if (!y.empty()) { attempt("clear", [&] { y.clear(); }); }
                m[!k].clear();
            }
            else if (op.kind == "build") {
                std::pmr::vector<T> v(&w.res[shared ? 0 : op.arg(2) & 1]); std::vector<Id> ids; for (int64_t i = 0; i < op.arg(1) % 40; ++i) { ids.push_back({ (op.arg(1) * 31 * (i + 1) + op.arg(2)) % 997, ++serial }); v.push_back(As<T>::make(ids.back())); }
                if (attempt("build", [&] { auto n = op.arg(2) & 2 ? std::make_unique<Heap>(std::move(v)) : std::make_unique<Heap>(static_cast<const std::pmr::vector<T>&>(v)); c[k] = std::move(n); }) == DONE) { m[k] = ids; ++did; }
            }
            event(m[0].size(), m[1].size()); alloc::plan_failure(0, false); verify(when);
            if (++ticks % 5 == 0) { drain(k, when); }
        }
        alloc::plan_failure(0, false); drain(0, "at the end"); drain(1, "at the end");
        if (did >= 2) { nontrivial(); }
        attempt("destroy", [&] { c[0].reset(); c[1].reset(); });
    }
    w.over("heap");
}
Scenario gen_heap(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 8); s.cfg["fill"] = r.range(0, 255); s.cfg["resources"] = r.range(0, 3);
    const int64_t n = 1 + r.skewed(thorough ? 300 : 120); const bool faults = r.chance(1, 3); const unsigned takes = static_cast<unsigned>(r.range(5, 50)), rares = static_cast<unsigned>(r.range(0, 30)); const int64_t keys = r.pick(std::vector<int64_t>{ 3, 20, 1000 });
    static const std::vector<std::string> adds{ "push", "pushmove", "emplace", "enqueue", "pushown", "nosort", "insertat", "insertrange" }, takings{ "pop", "pop", "dequeue", "popback", "eraseref", "eraseat", "eraserange", "change", "change" },
        rare{ "contains", "bounds", "clear", "reserve", "shrink", "wipe", "swap", "copy", "assign", "selfassign", "move", "moveassign", "build", "build" };
    const bool many = r.chance(1, 40);
    for (int64_t i = 0; i < (many ? n / 4 + 1 : n); ++i) {
        const int64_t k = r.chance(1, 4);
        if (many && r.chance(1, 6)) { s.ops.push_back({ "many", { k, r.range(0, 1000), r.range(0, 1000) } }); }
        if (faults && r.chance(1, 5)) { s.ops.push_back({ "fail", { k, r.range(1, 4), r.range(0, 1) } }); }
        const auto& kinds = r.chance(rares, 100) ? rare : r.chance(takes, 100) ? takings : adds;
        s.ops.push_back({ r.pick(kinds), { k, r.range(0, keys), r.range(0, 1000) } });
    }
    return s;
}
void exec_heap(const Scenario& s) {
    switch (s.get("flavour") % 9) {
        case 0: return heaps<Elem, Less, 2>(s); case 1: return heaps<Elem, Greater, 3>(s); case 2: return heaps<int64_t, Greater, 4>(s); case 3: return heaps<std::string, Less, 2>(s); case 4: return heaps<const Id*, Less, 2>(s);
        case 5: return heaps<int64_t, Less, 8>(s); case 6: return heaps<Wide, Less, 5>(s); case 7: return heaps<int64_t, Less, 2>(s); default: return heaps<const Id*, Greater, 3>(s);
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the containers, the graph, and the standard containers below them; simulated: operator new/delete, three memory resources (one of them the default) that check what is given back to them; no stubs";
    const std::string rule = "one history of operations on two objects of one type, drawn from the seed: element and comparator types, order, arguments, memory resources, fill pattern, failing allocations; distinct by the hash of the event log; non-trivial if at least two insertions succeeded";
    return main_for({ { "P15", gen_heap, exec_heap, 60000, 4000000, rule, real } }, argc, argv);
}
