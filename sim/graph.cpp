// P14: histories of edits of two graphs, against adjacency lists.
#include "containers.hpp"

namespace {

template <typename I, typename S> using Model = std::map<I, std::vector<std::pair<I, S>>>;

template <typename I, typename S> std::map<I, double> reach(const Model<I, S>& m, I from) {
    std::map<I, double> d; std::set<std::pair<double, I>> open{ { 0, from } }; d[from] = 0;
    while (!open.empty()) {
        auto [x, i] = *open.begin(); open.erase(open.begin()); auto it = m.find(i); if (it == m.end()) { continue; }
        for (auto& [j, c] : it->second) { const double y = x + static_cast<double>(c); auto f = d.find(j); if (f == d.end() || y < f->second) { if (f != d.end()) { open.erase({ f->second, j }); } d[j] = y; open.insert({ y, j }); } }
    }
    return d;
}

template <typename I, typename S> void graphs(const Scenario& s, const char* name) {
    using Graph = chdr::mazes::graph<I, S>; using Edge = std::pair<I, S>;
    scope(std::string("graph/") + name); Session w(s); const bool both = s.get("undirected");
    {
        std::unique_ptr<Graph> c[2]; Model<I, S> m[2]; int did = 0;
        auto id = [stride = s.get("stride", 1)](int64_t p) { return static_cast<I>(static_cast<uint64_t>(p) * static_cast<uint64_t>(stride)); };     // a node's name
        auto read = [&](const Graph& g) { Model<I, S> v; for (auto& [i, l] : g) { auto& t = v[i]; t.assign(l.begin(), l.end()); } return v; };
        auto order = [](Model<I, S> v) { for (auto& [i, l] : v) { std::sort(l.begin(), l.end()); } return v; };
        auto show = [&](const Model<I, S>& v) { std::string t; for (auto& [i, l] : v) { t += " " + std::to_string(i) + "{"; for (auto& [j, x] : l) { t += std::to_string(j) + ":" + std::to_string(x) + " "; } t += "}"; } return t; };
        auto verify = [&](const char* when) {
            for (int k = 0; k < 2; ++k) {
                const Graph& g = *c[k]; auto fail = [&](const std::string& t) { violation("wrong-graph", t + ", " + when + "; expected" + show(m[k]) + "; it is" + show(read(g))); };
                if (g.count() != m[k].size()) { fail("count() is " + std::to_string(g.count())); }
                if (order(read(g)) != order(m[k])) { fail("nodes or connections differ"); }
                for (int64_t p = 0; p < 40; ++p) {
                    const I i = id(p);
                    const auto it = m[k].find(i);
                    if (g.contains(i) != (it != m[k].end())) { fail("contains(" + std::to_string(i) + ")"); }
                    if (it == m[k].end()) { continue; }
                    const auto& n = g.get_neighbours(i); std::vector<Edge> v(n.begin(), n.end()); if (v != it->second) { fail("get_neighbours(" + std::to_string(i) + ")"); }
                    if (!g[i].is_active()) { fail("node " + std::to_string(i) + " is not active"); }
                }
                uint64_t h = 3; for (auto& [i, l] : m[k]) { h = mix(h ^ static_cast<uint64_t>(i)); for (auto& [j, x] : l) { h = mix(h ^ static_cast<uint64_t>(j) * 7 ^ static_cast<uint64_t>(x)); } } state(h);
            }
        };
        auto fresh = [&](int k, int r) { alloc::plan_failure(0, false); attempt("destroy", [&] { c[k].reset(); }); attempt("construct", [&] { c[k] = std::make_unique<Graph>(&w.res[r & 1]); }); m[k].clear(); };
        // An edit that failed may have left the node it was for, without connections.
        auto failed = [&](int k, I i) { if (!m[k].count(i) && c[k]->contains(i) && c[k]->get_neighbours(i).empty()) { m[k][i]; } };
        fresh(0, 0); fresh(1, static_cast<int>(s.get("resources")));
        for (auto& op : s.ops) {
            const int k = op.arg(0) & 1; auto& g = *c[k]; const I i = id(op.arg(1)), j = id(op.arg(2)); const S d = static_cast<S>(op.arg(3)); const char* when = "after an operation";
            if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(1))), op.arg(2) & 1); continue; }
            if (op.kind == "node") { if (attempt("add node", [&] { g.add(i); }) == DONE) { m[k][i]; ++did; } else { when = "after an edit that failed"; } }
            else if (op.kind == "edge") {
                if (attempt("add connection", [&] { g.add(i, Edge{ j, d }); }) == DONE) {
                    m[k][i].push_back({ j, d }); ++did;
                    if (both && i != j) { if (attempt("add connection", [&] { g.add(j, Edge{ i, d }); }) == DONE) { m[k][j].push_back({ i, d }); } else { failed(k, j); when = "after an edit that failed"; } }
                    if (both && i == j) { m[k][i].pop_back(); attempt("remove", [&] { g.remove(i, Edge{ j, d }); }); if (m[k][i].empty()) { m[k].erase(i); } else { auto& l = m[k][i]; l.erase(std::remove(l.begin(), l.end(), Edge{ j, d }), l.end()); if (l.empty()) { m[k].erase(i); } } }
                }
                else { failed(k, i); when = "after an edit that failed"; }
            }
            else if (op.kind == "remove" || op.kind == "removeany") {
                I from = i; Edge e{ j, d };
                if (op.kind == "remove" && !m[k].empty()) { auto it = m[k].lower_bound(i); if (it == m[k].end()) { it = m[k].begin(); } from = it->first; if (!it->second.empty()) { e = it->second[static_cast<size_t>(op.arg(2)) % it->second.size()]; } }
                auto cut = [&](I a, Edge x) { attempt("remove", [&] { g.remove(a, x); }); auto it = m[k].find(a); if (it == m[k].end()) { return; } auto& l = it->second; auto n = std::remove(l.begin(), l.end(), x); if (n != l.end()) { l.erase(n, l.end()); if (l.empty()) { m[k].erase(it); } } };
                cut(from, e); if (both) { cut(e.first, Edge{ from, e.second }); }
            }
            else if (op.kind == "clear") { attempt("clear", [&] { g.clear(); }); m[k].clear(); }
            else if (op.kind == "move" || op.kind == "moveassign") {
                auto& o = *c[!k];
                auto r = op.kind == "move" ? attempt("move", [&] { auto n = std::make_unique<Graph>(std::move(o)); c[k] = std::move(n); }) : attempt("move assignment", [&] { g = std::move(o); });
                if (r == DONE) { m[k] = m[!k]; } else if (op.kind == "moveassign") { attempt("clear", [&] { g.clear(); }); m[k].clear(); }
                attempt("clear", [&] { o.clear(); }); m[!k].clear();
            }
            else if (op.kind == "build") {
                const S one = d, two = static_cast<S>(d + 1); const I a = i, b = j;
                if (attempt("build", [&] { auto n = op.arg(2) & 1 ? std::make_unique<Graph>(std::initializer_list<std::initializer_list<Edge>>{ { { I(1), one }, { a, two } }, { { I(0), one } }, { { b, two }, { b, two } } }, &w.res[k]) : std::make_unique<Graph>(std::initializer_list<std::initializer_list<Edge>>{ { { b, one } } }, &w.res[k]); c[k] = std::move(n); }) == DONE) {
                    m[k].clear(); if (op.arg(2) & 1) { m[k][0] = { { I(1), one }, { a, two } }; m[k][1] = { { I(0), one } }; m[k][2] = { { b, two }, { b, two } }; } else { m[k][0] = { { b, one } }; } ++did;
                }
            }
            else if (op.kind == "prune") {
                if (!both) { continue; }                                 // it does not support directed graphs
                std::map<I, std::map<I, double>> was; for (auto& [x, l] : m[k]) { was[x] = reach(m[k], x); }
                attempt("prune", [&] { if (op.arg(1) & 1) { g.prune(); } else { g.template prune<false>(); } });
                auto now = read(g); auto fail = [&](const std::string& t) { violation("wrong-pruning", t + "; before" + show(m[k]) + "; after" + show(now)); };
                for (auto& [x, l] : now) {
                    if (!m[k].count(x)) { fail("pruning made a node " + std::to_string(x)); }
                    for (auto& [y, cost] : l) {
                        if (!now.count(y)) { fail("node " + std::to_string(x) + " is left with a connection to node " + std::to_string(y) + ", which is gone"); }
                        auto& back = now[y]; if (std::find(back.begin(), back.end(), Edge{ x, cost }) == back.end()) { fail("the connection from " + std::to_string(x) + " to " + std::to_string(y) + " leads one way only"); }
                    }
                    auto d2 = reach(now, x); for (auto& [y, l2] : now) { auto a = was[x].find(y), b = d2.find(y); const bool ra = a != was[x].end(), rb = b != d2.end(); if (ra != rb || (ra && a->second != b->second)) { fail("the distance from " + std::to_string(x) + " to " + std::to_string(y) + " changed"); } }
                }
                for (auto& [x, l] : m[k]) { if (!now.count(x) && l.size() != 2 && !std::any_of(l.begin(), l.end(), [&](auto& e) { return !now.count(e.first); })) { fail("node " + std::to_string(x) + " was removed, although it has " + std::to_string(l.size()) + " neighbours"); } }
                if (now.size() > 2) {
                    for (auto& [x, l] : now) { if (l.size() == 2 && l[0].first != l[1].first && l[0].first != x && l[1].first != x) { fail("node " + std::to_string(x) + " has two neighbours and was left"); } }
                }
                if (now.size() != m[k].size()) { count("prunings"); count("nodes_pruned", m[k].size() - now.size()); } m[k] = now;
            }
            alloc::plan_failure(0, false); event(m[0].size(), m[1].size()); verify(when);
        }
        if (did >= 2) { nontrivial(); }
        attempt("destroy", [&] { c[0].reset(); c[1].reset(); });
    }
    w.over("graph");
}
Scenario gen_graph(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 2); s.cfg["fill"] = r.range(0, 255); s.cfg["resources"] = r.range(0, 1); const bool both = r.chance(1, 2); s.cfg["undirected"] = both;
    const int64_t n = 1 + r.skewed(thorough ? 200 : 100); const bool faults = r.chance(1, 2); const int64_t top = r.pick(std::vector<int64_t>{ 2, 5, 12, 39 }), far = r.pick(std::vector<int64_t>{ 1, 3, 50, 50, 40000 }); s.cfg["stride"] = r.pick(std::vector<int64_t>{ 1, 1, 1, 257, 65537, 100000007, 4294967311 }); const unsigned cuts = static_cast<unsigned>(r.range(0, 50));
    static const std::vector<std::string> rare{ "node", "node", "clear", "move", "moveassign", "build", "prune", "prune", "removeany" }; const bool chain = both && r.chance(1, 3);
    for (int64_t i = 0; i < n; ++i) {
        const int64_t k = r.chance(1, 5);
        if (faults && r.chance(1, 5)) { s.ops.push_back({ "fail", { k, r.range(1, 3), r.range(0, 1) } }); }
        auto kind = r.chance(1, 8) ? r.pick(rare) : r.chance(cuts, 100) ? std::string("remove") : std::string("edge"); if (both && kind == "build") { kind = "prune"; }
        int64_t a = r.range(0, top), b = r.range(0, top); if (kind == "edge" && chain && r.chance(4, 5)) { b = (a + 1) % (top + 1); }
        s.ops.push_back({ kind, { k, a, b, r.range(0, far) } });
    }
    if (both) { s.ops.push_back({ "prune", { 0, 1, 0, 0 } }); }
    return s;
}
void exec_graph(const Scenario& s) {
    switch (s.get("flavour") % 3) { case 0: return graphs<uint32_t, uint32_t>(s, "uint32"); case 1: return graphs<uint64_t, double>(s, "uint64-double"); default: return graphs<uint16_t, float>(s, "uint16-float"); }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the containers, the graph, and the standard containers below them; simulated: operator new/delete, three memory resources (one of them the default) that check what is given back to them; no stubs";
    const std::string rule = "one history of operations on two objects of one type, drawn from the seed: element and comparator types, order, arguments, memory resources, fill pattern, failing allocations; distinct by the hash of the event log; non-trivial if at least two insertions succeeded";
    return main_for({ { "P14", gen_graph, exec_graph, 60000, 4000000, rule, real } }, argc, argv);
}
