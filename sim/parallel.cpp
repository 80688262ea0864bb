// P13: the graph of a grid, built by several tasks, under schedules and failures the simulator chooses.
#include "tasks.hpp"
#include "containers.hpp"

namespace {

struct Shared final : std::pmr::memory_resource {                // the resource given to the graph: one user at a time
    Res& r; int users = 0;
    explicit Shared(Res& x) : r(x) {}
    void enter() { if (users++) { violation("concurrent-use", "two tasks use the memory resource of the graph at once"); } tasks::point(); }
    void* do_allocate(size_t n, size_t a) override { enter(); void* p = nullptr; try { p = r.do_allocate(n, a); } catch (...) { --users; throw; } --users; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override { enter(); r.do_deallocate(p, n, a); --users; }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Cells {                                                   // the grid, as plain cells
    std::vector<int> size; std::vector<bool> open; std::vector<std::vector<size_t>> next; std::vector<int> part; int parts = 0;
    size_t count() const { return open.size(); }
    void link() {
        next.assign(count(), {});
        for (size_t i = 0; i < count(); ++i) {
            if (!open[i]) { continue; }
            size_t stride = 1, rest = i;
            for (int d : size) {
                const auto x = rest % static_cast<size_t>(d); rest /= static_cast<size_t>(d);
                if (x > 0 && open[i - stride]) { next[i].push_back(i - stride); }
                if (x + 1 < static_cast<size_t>(d) && open[i + stride]) { next[i].push_back(i + stride); }
                stride *= static_cast<size_t>(d);
            }
        }
        part.assign(count(), -1); parts = 0;
        for (size_t i = 0; i < count(); ++i) {
            if (!open[i] || part[i] >= 0) { continue; }
            std::vector<size_t> todo{ i }; part[i] = parts;
            while (!todo.empty()) { auto c = todo.back(); todo.pop_back(); for (auto n : next[c]) { if (part[n] < 0) { part[n] = parts; todo.push_back(n); } } }
            ++parts;
        }
    }
    bool passage(size_t i) const { return next[i].size() == 2; }
    std::vector<int> distances(size_t from) const {
        std::vector<int> d(count(), -1); std::deque<size_t> q{ from }; d[from] = 0;
        while (!q.empty()) { auto c = q.front(); q.pop_front(); for (auto n : next[c]) { if (d[n] < 0) { d[n] = d[c] + 1; q.push_back(n); } } }
        return d;
    }
    std::string draw() const { std::string t; for (size_t i = 0; i < count(); ++i) { if (i % static_cast<size_t>(size[0]) == 0) { t += "\n  "; } t += open[i] ? '.' : '#'; } return t; }
};
using Plain = std::map<size_t, std::vector<std::pair<size_t, int>>>;
std::string text(const Plain& g) { std::string t; for (auto& [i, l] : g) { t += " " + std::to_string(i) + "{"; for (auto& [j, d] : l) { t += std::to_string(j) + ":" + std::to_string(d) + " "; } t += "}"; } return t; }

// The connections of the grid before anything is pruned: from every cell that is no passage, through passages, to the next.
Plain corridors(const Cells& c) {
    Plain g;
    for (size_t i = 0; i < c.count(); ++i) {
        if (!c.open[i] || c.passage(i)) { continue; }
        for (auto n : c.next[i]) {
            size_t was = i, at = n; int d = 1;
            while (at != i && c.passage(at)) { auto to = c.next[at][0] == was ? c.next[at][1] : c.next[at][0]; was = at; at = to; ++d; }
            if (at != i) { g[i].emplace_back(at, d); }
        }
    }
    return g;
}
// Is there a way of that length between two nodes which meets no other node, and no cell twice?
bool corridor(const Cells& c, const Plain& g, size_t from, size_t to, int length, uint64_t& effort) {
    std::vector<bool> seen(c.count()); seen[from] = true;
    std::function<bool(size_t, int)> go = [&](size_t at, int left) {
        if (++effort > 200000) { return true; }                          // undecided
        for (auto n : c.next[at]) {
            if (n == to && left == 1) { return true; }
            if (left > 1 && !seen[n] && n != to && !g.count(n)) { seen[n] = true; if (go(n, left - 1)) { return true; } seen[n] = false; }
        }
        return false;
    };
    return go(from, length);
}
std::map<size_t, int> reach(const Plain& g, size_t from) {
    std::map<size_t, int> d{ { from, 0 } }; std::set<std::pair<int, size_t>> open{ { 0, from } };
    while (!open.empty()) {
        auto [x, i] = *open.begin(); open.erase(open.begin()); if (x > d[i]) { continue; }
        auto it = g.find(i); if (it == g.end()) { continue; }
        for (auto& [j, w] : it->second) { auto f = d.find(j); if (f == d.end() || x + w < f->second) { d[j] = x + w; open.insert({ x + w, j }); } }
    }
    return d;
}

void judge(const Cells& c, const Plain& g) {
    auto fail = [&](const char* cls, const std::string& t) { violation(cls, t + "; the graph:" + text(g) + "; the grid, " + std::to_string(c.size[0]) + " wide:" + c.draw()); };
    const auto raw = corridors(c); uint64_t effort = 0;
    size_t eg = 0, er = 0; for (auto& [i, l] : g) { eg += l.size(); } for (auto& [i, l] : raw) { er += l.size(); }
    for (auto& [i, l] : g) {
        if (i >= c.count() || !c.open[i]) { fail("wrong-node", "node " + std::to_string(i) + " is no active cell"); }
        for (auto& [j, d] : l) {
            auto back = g.find(j); if (back == g.end()) { fail("wrong-connection", "node " + std::to_string(i) + " is connected to " + std::to_string(j) + ", which is no node"); }
            auto n = std::count(l.begin(), l.end(), std::make_pair(j, d)), m = std::count(back->second.begin(), back->second.end(), std::make_pair(i, d));
            if (n != m) { fail("wrong-connection", "from " + std::to_string(i) + " to " + std::to_string(j) + " lead " + std::to_string(n) + " connections of length " + std::to_string(d) + ", back " + std::to_string(m)); }
            if (d < 1 || !corridor(c, g, i, j, d, effort)) { fail("wrong-connection", "no passage of length " + std::to_string(d) + " leads from " + std::to_string(i) + " to " + std::to_string(j)); }
        }
        if (g.size() > 2 && l.size() == 2 && l[0].first != l[1].first && l[0].first != i && l[1].first != i) { fail("not-pruned", "node " + std::to_string(i) + " has two neighbours"); }
        const auto real = c.distances(i); const auto d = reach(g, i);
        for (auto& [j, l2] : g) {
            auto it = d.find(j); const int have = it == d.end() ? -1 : it->second;
            if (have != real[j]) { fail("wrong-distance", "from " + std::to_string(i) + " to " + std::to_string(j) + " it is " + std::to_string(have) + " in the graph, " + std::to_string(real[j]) + " in the grid"); }
        }
    }
    // What was pruned had two connections to begin with, unless two that are alike were made one.
    std::set<int> have, want; size_t extra = 0; for (auto& [i, l] : g) { have.insert(c.part[i]); if (!raw.count(i)) { ++extra; } }
    const auto merged = (static_cast<int64_t>(er) / 2 - static_cast<int64_t>(raw.size())) - (static_cast<int64_t>(eg) / 2 - static_cast<int64_t>(g.size() - extra));
    size_t cells = 0, links = 0; for (size_t i = 0; i < c.count(); ++i) { cells += c.open[i]; links += c.next[i].size(); }
    const bool tree = cells == links / 2 + static_cast<size_t>(c.parts);
    if (!extra && (merged < 0 || (tree && merged))) { fail("wrong-graph", "connections were lost or added"); }
    for (auto& [i, l] : raw) {
        want.insert(c.part[i]);
        if (!g.count(i) && (l.size() == 1 || (l.size() > 2 && merged <= 0 && !extra))) { fail("missing-node", "cell " + std::to_string(i) + ", which has " + std::to_string(l.size()) + " connections, is no node"); }
    }
    for (auto p : want) { if (!have.count(p)) { fail("missing-node", "a connected part of the grid has no node at all"); } }
}

template <typename I, typename S, int D, typename W> void parallel(const Scenario& s, const char* name) {
    using Graph = chdr::mazes::graph<I, S>; using C = chdr::coord<uint32_t, static_cast<size_t>(D)>;
    scope(std::string("graph(grid)/") + name); Session w(s); g_step_budget = 40000000; g_step_what = "the construction";
    {
        Cells c; for (int d = 0; d < D; ++d) { c.size.push_back(static_cast<int>(std::clamp<int64_t>(s.get("side" + std::to_string(d), 1), 1, 400))); }
        size_t n = 1; for (int d : c.size) { n *= static_cast<size_t>(d); } c.open.assign(n, true);
        tasks::Plan p; p.seed = s.get("sched_seed", -1); p.rate = static_cast<unsigned>(s.get("rate")); p.access_rate = static_cast<unsigned>(s.get("access_rate")); p.hardware = static_cast<unsigned>(s.get("hardware", 4));
        int64_t fail_alloc = 0, sticky = 0;
        for (auto& op : s.ops) {
            if (op.kind == "wall") { c.open[static_cast<size_t>(op.arg(0)) % n] = false; }
            if (op.kind == "pre") { p.pre[static_cast<uint64_t>(op.arg(0))] = static_cast<int>(op.arg(1)); }
            if (op.kind == "failalloc") { fail_alloc = std::max<int64_t>(1, op.arg(0)); sticky = op.arg(1) & 1; }
            if (op.kind == "failstart") { p.fail_start = std::max<int64_t>(1, op.arg(0)); }
        }
        c.link();
        std::vector<W> nodes; for (size_t i = 0; i < n; ++i) { if constexpr (std::is_same_v<W, bool>) { nodes.push_back(!c.open[i]); } else { nodes.push_back(c.open[i] ? static_cast<W>(1 + i % 5) : std::numeric_limits<W>::max()); } }
        C size{}; for (int d = 0; d < D; ++d) { size[static_cast<size_t>(d)] = static_cast<uint32_t>(c.size[static_cast<size_t>(d)]); }
        chdr::mazes::grid<C, W> grid(size, nodes); Shared shared(w.res[0]);
        auto read = [&](const Graph& x) { Plain v; for (auto& [i, l] : x) { auto& t = v[static_cast<size_t>(i)]; for (auto& [j, d] : l) { t.emplace_back(static_cast<size_t>(j), static_cast<int>(d)); } std::sort(t.begin(), t.end()); } return v; };
        auto build = [&](const tasks::Plan& q, bool faults, Plain& out) {
            std::string threw; std::unique_ptr<Graph> x; const auto failed = alloc::stats.failed; const auto live = alloc::stats.live;
            if (faults) { alloc::plan_failure(static_cast<uint64_t>(fail_alloc), sticky); }
            tasks::begin(q);
            try { alloc::arm_guard _; x = std::make_unique<Graph>(grid, &shared); }
            catch (const std::bad_alloc&) { threw = "bad_alloc"; }
            catch (const std::system_error&) { threw = "system_error"; }
            if (tasks::running()) { violation("task-outlives", "the construction is over, but one of its tasks is not"); }
            const auto starts = static_cast<int64_t>(tasks::started()); tasks::end(); alloc::plan_failure(0, false);
            if (threw == "bad_alloc" && alloc::stats.failed == failed) { violation("spurious-failure", "bad_alloc was thrown although no allocation failed"); }
            if (threw == "system_error" && !(q.fail_start && starts >= q.fail_start)) { violation("spurious-failure", "system_error was thrown although every thread started"); }
            if (!threw.empty()) {
                count("constructions_that_threw"); alloc::bypass_guard _;
                if (alloc::stats.live != live || !w.res[0].live.empty()) { violation("leak", "the construction that threw " + threw + " left memory behind: " + alloc::describe_live(6)); }
                return false;
            }
            { alloc::bypass_guard _; out = read(*x); }
            for (auto& [i, l] : *x) { if (!(*x)[i].is_active()) { violation("wrong-node", "node " + std::to_string(i) + " is not active"); } }
            alloc::arm_guard _; x.reset(); return true;
        };
        Plain quiet, other; tasks::Plan q; q.hardware = p.hardware;
        scope(std::string("graph(grid)/") + name + "/one after another"); build(q, false, quiet); judge(c, quiet);
        scope(std::string("graph(grid)/") + name + "/interleaved");
        if (build(p, true, other)) {
            if (other != quiet) { violation("depends-on-schedule", "under this schedule the graph is" + text(other) + "; with the tasks one after another it is" + text(quiet) + "; the grid, " + std::to_string(c.size[0]) + " wide:" + c.draw()); }
        }
        uint64_t h = 11; for (auto& [i, l] : quiet) { h = mix(h ^ i); for (auto& [j, d] : l) { h = mix(h ^ j * 31 ^ static_cast<uint64_t>(d)); } } state(h);
        if (quiet.size() > 1) { nontrivial(); }
    }
    w.over("graph(grid)");
}

Scenario gen_parallel(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 4); const int dims = s.cfg["flavour"] == 2 || s.cfg["flavour"] == 4 ? 3 : 2; s.cfg["fill"] = r.range(0, 255);
    const int64_t side = dims == 3 ? 4 : thorough && r.chance(1, 4) ? 12 : 9; std::vector<int> size; int n = 1; const int64_t longer = r.chance(1, 400) ? r.range(0, 5) : -1;
    for (int d = 0; d < dims; ++d) { auto x = 1 + r.range(0, side - 1); if (r.chance(1, 12)) { x = 1; } if (longer >= 0) { x = d == longer % dims ? r.range(258, dims == 3 ? 280 : 330) : r.range(1, 2); } s.cfg["side" + std::to_string(d)] = x; size.push_back(static_cast<int>(x)); n *= static_cast<int>(x); }
    s.cfg["hardware"] = r.pick(std::vector<int64_t>{ 0, 1, 2, 2, 3, 4, 6, 6, 8, 64 }); s.cfg["rate"] = r.pick(std::vector<int64_t>{ 0, 1, 10, 100, 400 }); s.cfg["access_rate"] = r.pick(std::vector<int64_t>{ 0, 3, 30, 300, 3000, 20000 }); s.cfg["sched_seed"] = r.range(0, 1 << 30);
    std::vector<bool> open(static_cast<size_t>(n), true); const int kind = static_cast<int>(r.range(0, 3));
    if (kind == 0) { const auto p = static_cast<unsigned>(r.range(0, 60)); for (size_t i = 0; i < open.size(); ++i) { open[i] = !r.chance(p, 100); } }
    else if (kind < 3) {                                          // passages: cells at odd places, opened by a walk; some loops
        std::fill(open.begin(), open.end(), false); const int w = size[0], h = n / w; std::vector<std::pair<int, int>> st{ { 0, 0 } }; open[0] = true;
        while (!st.empty()) {
            auto [x, y] = st.back(); std::vector<std::pair<int, int>> o;
            for (auto [dx, dy] : { std::make_pair(2, 0), { -2, 0 }, { 0, 2 }, { 0, -2 } }) { int a = x + dx, b = y + dy; if (a >= 0 && b >= 0 && a < w && b < h && !open[static_cast<size_t>(b * w + a)]) { o.emplace_back(a, b); } }
            if (o.empty()) { st.pop_back(); continue; }
            auto [a, b] = r.pick(o); open[static_cast<size_t>(b * w + a)] = open[static_cast<size_t>((y + b) / 2 * w + (x + a) / 2)] = true; st.emplace_back(a, b);
        }
        if (kind == 2) { for (int i = static_cast<int>(r.range(1, 6)); i > 0; --i) { open[r.below(open.size())] = true; } }
    }
    for (size_t i = 0; i < open.size(); ++i) { if (!open[i]) { s.ops.push_back({ "wall", { static_cast<int64_t>(i) } }); } }
    if (r.chance(1, 4)) { s.ops.push_back({ "failalloc", { 1 + r.skewed(120), r.range(0, 1) } }); }
    if (r.chance(1, 8)) { s.ops.push_back({ "failstart", { r.range(1, 7) } }); }
    return s;
}
void exec_parallel(const Scenario& s) {
    switch (s.get("flavour") % 5) {
        case 0: return parallel<uint32_t, uint32_t, 2, bool>(s, "uint32-2d"); case 1: return parallel<size_t, double, 2, bool>(s, "size_t-double-2d"); case 2: return parallel<uint32_t, float, 3, bool>(s, "uint32-float-3d");
        case 3: return parallel<uint64_t, uint32_t, 2, uint8_t>(s, "weighted-2d"); default: return parallel<uint32_t, int32_t, 3, uint8_t>(s, "weighted-3d");
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the graph's construction from a grid, its pruning, the grid; std::async, std::future, std::thread; simulated: the threads interface below those (pthread_create, join, mutexes, conditions, futexes: which task runs is decided at each of them, at every access to memory and at every allocation), threads that do not start, the number of hardware threads, operator new/delete, the graph's memory resource";
    const std::string rule = "one grid and two constructions of its graph, one with the tasks one after another and one interleaved as the seed decides, with failing allocations and thread starts: sizes, walls, types, number of tasks, rate of preemption; distinct by the hash of the event log; non-trivial if the graph has at least two nodes";
    return main_for({ { "P13", gen_parallel, exec_parallel, 40000, 1500000, rule, real } }, argc, argv);
}
