// Sessions: a history of solves that share memory resources, mazes and a process, with faults in between and inside.
#include "solve.hpp"
#include "tasks.hpp"
#include "pristine.hpp"

namespace sim::solve {

std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }

void yield(uint64_t what) { (void)what; step(); tasks::point(); }

// ----------------------------------------------------------------------------------------------------- Resources --

namespace {
thread_local std::string current_call;                           // for messages
bool contract_checked = false;                                   // misuse of a resource ends the run; otherwise it is tolerated
[[noreturn]] void broken(const std::string& cls, const std::string& msg) { violation(cls, msg + " [" + current_call + "]"); }
}

void* Resource::do_allocate(size_t n, size_t a) {
    yield(0x44); event(0x44 + static_cast<uint64_t>(index), n);
    if (in_solve && one_size && contract_checked) {
        if (only_n && (n != only_n || a != only_a)) { broken("resource-contract:mixed-sizes", std::string(role) + " resource, which serves one size only, was asked for " + std::to_string(n) + " bytes after " + std::to_string(only_n)); }
    }
    if (contract_checked && ((a & (a - 1)) || !a)) { broken("resource-contract:alignment", "an alignment of " + std::to_string(a) + " was asked for"); }
    void* p = backend->get(n, a);
    ++allocations; only_n = n; only_a = a;
    alloc::bypass_guard _;
    if (!live.emplace(p, Live{ n, a }).second) { broken("resource-contract:pool-reused-live-block", std::string(role) + " resource handed out a block that is still in use"); }
    if (nodes) { nodes->add(one_size, n); }
    live_bytes += n; peak_bytes = std::max(peak_bytes, live_bytes); ++live_blocks; peak_blocks = std::max(peak_blocks, live_blocks);
    return p;
}

void Resource::do_deallocate(void* p, size_t n, size_t a) {
    yield(0x45); event(0x55 + static_cast<uint64_t>(index), n);
    {
        alloc::bypass_guard _;
        auto it = live.find(p);
        if (it == live.end()) { if (!contract_checked) { count("tolerated_misuse"); return; } broken("resource-contract:not-live", "memory was given back to the " + std::string(role) + " resource that is not allocated there: it was given back before, the resource was reset meanwhile, or it came from elsewhere"); }
        if (it->second.n != n || it->second.a != a) { if (!contract_checked) { count("tolerated_misuse"); n = it->second.n; a = it->second.a; } else broken("resource-contract:wrong-size", "memory allocated with size " + std::to_string(it->second.n) + " alignment " + std::to_string(it->second.a) + " was given back to the " + role + " resource with size " + std::to_string(n) + " alignment " + std::to_string(a)); }
        if (nodes) { nodes->sub(one_size, n); }
        live_bytes -= n; --live_blocks; live.erase(it);
    }
    backend->put(p, n, a);
}

void Resource::forget() { alloc::bypass_guard _; if (nodes) { for (auto& [q, l] : live) { nodes->sub(one_size, l.n); } } live.clear(); live_bytes = live_blocks = 0; only_n = 0; }
void Resource::reset() {
    event(0x66 + static_cast<uint64_t>(index)); step(); ++resets; forget();
    backend->reset();
    if (fail_reset) { fail_reset = false; if (failed_at_reset && *first_failed_reset < 0) { *failed_at_reset = alloc::stats.failed; } count("fault.reset_failed"); if (first_failed_reset && *first_failed_reset < 0) { *first_failed_reset = index; } throw ResetError{ index }; }
}
void Resource::release() { event(0x77 + static_cast<uint64_t>(index)); ++releases; forget(); backend->release(); }

namespace {

// Every block straight from the system allocator, which checks it; reset() gives all of them back.
struct Direct final : Backend {
    std::map<void*, std::pair<size_t, size_t>> live;
    void* get(size_t n, size_t a) override { void* p = ::operator new(n, std::align_val_t(a)); alloc::bypass_guard _; live[p] = { n, a }; return p; }
    void  put(void* p, size_t n, size_t a) override { { alloc::bypass_guard _; live.erase(p); } ::operator delete(p, n, std::align_val_t(a)); }
    void  reset() override { for (auto& [p, na] : live) { ::operator delete(p, na.first, std::align_val_t(na.second)); } alloc::bypass_guard _; live.clear(); }
    void  release() override { reset(); }
    ~Direct() override { reset(); }
};
template <typename P> struct Pooled final : Backend {
    P p;
    template <typename... A> explicit Pooled(A... a) : p(a...) {}
    void* get(size_t n, size_t a) override { return static_cast<std::pmr::memory_resource&>(p).allocate(n, a); }
    void  put(void* q, size_t n, size_t a) override { static_cast<std::pmr::memory_resource&>(p).deallocate(q, n, a); }
    void  reset() override { p.reset(); }
    void  release() override { p.release(); }
};

constexpr size_t kMax = std::numeric_limits<size_t>::max();
enum BackendKind { DIRECT, POOLS, SMALL_POOLS, kBackends };
const char* const kBackendNames[] = { "direct", "pools", "small-pools" };

struct Set {                                                     // the three resources of one caller
    Resource r[3]; Resource::Nodes nodes; int first_failed_reset = -1; uint64_t failed_at_start = 0, failed_at_reset = 0; int last_solver = -1, last_profile = -1; bool littered = false;
    explicit Set(int kind) {
        static const char* const roles[] = { "monotonic", "heterogeneous", "homogeneous" };
        for (int i = 0; i < 3; ++i) { r[i].role = roles[i]; r[i].index = i; r[i].first_failed_reset = &first_failed_reset; r[i].failed_at_reset = &failed_at_reset; }
        alloc::arm_guard _;
        switch (kind) {
            case POOLS:
                r[0].backend = std::make_unique<Pooled<chdr::monotonic_pool<>>>();
                r[1].backend = std::make_unique<Pooled<chdr::heterogeneous_pool<>>>();
                r[2].backend = std::make_unique<Pooled<chdr::homogeneous_pool<>>>(); break;
            case SMALL_POOLS:
                r[0].backend = std::make_unique<Pooled<chdr::monotonic_pool<64, 32, 1024>>>(size_t(128));
                r[1].backend = std::make_unique<Pooled<chdr::heterogeneous_pool<64, 32, 1024>>>(size_t(128), size_t(1));
                r[2].backend = std::make_unique<Pooled<chdr::homogeneous_pool<128, kMax, 1024>>>(size_t(256), size_t(1)); break;
            default:
                for (auto& x : r) { x.backend = std::make_unique<Direct>(); }
        }
        r[2].one_size = true; r[1].nodes = r[2].nodes = &nodes;
    }
    void reset()   { alloc::arm_guard _; for (auto& x : r) { try { x.reset(); } catch (const ResetError&) {} } littered = false; }
    void release() { alloc::arm_guard _; for (auto& x : r) { x.release(); } littered = false; }
    ~Set() { alloc::arm_guard _; for (auto& x : r) { x.live.clear(); x.backend.reset(); } }
};

// ------------------------------------------------------------------------------------------------------- Solvers --

struct Trait { const char* name; bool optimal; bool exponential; bool bounded; bool unit = false; bool jumps = false; };
const Trait kTraits[] = {
    { "astar", true, false, false }, { "bfs", true, false, false, true }, { "best_first", false, false, false }, { "dfs", false, false, false }, { "dijkstra", true, false, false },
    { "eidastar", true, true, false }, { "eidbest_first", false, true, false }, { "eiddfs", true, true, false, true }, { "flood", false, false, false }, { "fringe", true, false, false },
    { "gbest_first", false, false, false }, { "gbfs", true, false, false, true }, { "gdfs", false, false, false }, { "gjps", true, false, false, false, true }, { "gstar", true, false, false },
    { "idastar", true, true, false }, { "idbest_first", false, true, false }, { "iddfs", true, true, false, true }, { "jps", true, false, false, false, true },
    { "mgstar", false, false, true }, { "osmastar", false, false, true }, { "smastar", false, false, true },
};
constexpr int kSolvers = sizeof kTraits / sizeof *kTraits;
Fn fn_of(int solver, int profile) {
    for (auto& e : registry()) { if (!std::strcmp(e.solver, kTraits[solver].name)) { return e.fn[profile]; } }
    return nullptr;
}

// ----------------------------------------------------------------------------------------------------- Reference --

uint32_t index_of(const Problem& p, const std::array<uint32_t, 4>& c) { uint64_t i = 0, m = 1; for (int d = 0; d < p.dims; ++d) { i += c[static_cast<size_t>(d)] * m; m *= p.size[static_cast<size_t>(d)]; } return static_cast<uint32_t>(std::min<uint64_t>(i, UINT32_MAX)); }
std::array<uint32_t, 4> coord_of(const Problem& p, uint32_t i) { std::array<uint32_t, 4> c{ 0, 0, 0, 0 }; for (int d = 0; d < p.dims; ++d) { c[static_cast<size_t>(d)] = i % p.size[static_cast<size_t>(d)]; i /= p.size[static_cast<size_t>(d)]; } return c; }

// One of n, by a number below 1000.
uint32_t spread(int64_t v, size_t n) { return static_cast<uint32_t>(n <= 1000 ? static_cast<size_t>(v) % n : static_cast<size_t>(v) * (n - 1) / 999); }

// Neighbours and distances of a cell under a profile, from the maze description alone.
// JPS moves along any diagonal unless both cells it passes between are blocked, and counts it as the square root of two.
const std::vector<std::pair<uint32_t, double>>& neighbours(const Problem& p, int profile, bool jumps, uint32_t i) {
    static std::vector<std::pair<uint32_t, double>> out; out.clear();
    if (is_graph(profile)) { for (auto [j, w] : p.adj[i]) { out.emplace_back(j, w * unit_of(profile)); } return out; }
    auto c = coord_of(p, i);
    const bool diag = profile == OCTILE2 || jumps; int total = 1; for (int d = 0; d < p.dims; ++d) { total *= 3; }
    for (int k = 0; k < total; ++k) {
        auto n = c; int moved = 0, v = k; bool ok = true;
        for (int d = 0; d < p.dims; ++d) {
            int delta = v % 3 - 1; v /= 3; if (!delta) { continue; } ++moved;
            int64_t x = static_cast<int64_t>(c[static_cast<size_t>(d)]) + delta;
            if (x < 0 || x >= p.size[static_cast<size_t>(d)]) { ok = false; break; }
            n[static_cast<size_t>(d)] = static_cast<uint32_t>(x);
        }
        if (!ok || !moved || (!diag && moved > 1)) { continue; }
        auto j = index_of(p, n); if (!p.open[j]) { continue; }
        if (jumps && moved == 2) { auto f = c, g2 = c; f[0] = n[0]; g2[1] = n[1]; if (!p.open[index_of(p, f)] && !p.open[index_of(p, g2)]) { continue; } }
        out.emplace_back(j, jumps && moved == 2 ? std::sqrt(2.0) : 1.0);
    }
    return out;
}

constexpr double kFar = 1e18;
std::vector<double> distances(const Problem& p, int profile, bool jumps, uint32_t from) {
    std::vector<double> d(p.count(), kFar); using E = std::pair<double, uint32_t>; std::priority_queue<E, std::vector<E>, std::greater<>> q;
    d[from] = 0; q.emplace(0, from);
    while (!q.empty()) { auto [dd, i] = q.top(); q.pop(); if (dd > d[i]) { continue; } for (const auto& [j, w] : neighbours(p, profile, jumps, i)) { if (dd + w < d[j]) { d[j] = dd + w; q.emplace(d[j], j); } } }
    return d;
}

// ------------------------------------------------------------------------------------------------------- Problems --

struct Universe {
    Problem p[kProfiles]; std::unique_ptr<std::pmr::memory_resource> graph_mr, wgraph_mr; Mazes m; std::vector<uint8_t> have = std::vector<uint8_t>(kProfiles, 0);
    const Scenario& s; const bool tiny;                           // tiny: for solvers that need exponential time
    std::vector<int64_t> seed;                                    // of each maze; 2d profiles share theirs
    Universe(const Scenario& sc, bool small) : s(sc), tiny(small), seed(kProfiles, sc.get("maze_seed")) {}
    static int shared(int profile) { return profile == OCTILE2 ? GRID2 : profile == LAZY2 ? BYTE2 : profile; }

    const Problem& get(int profile) {
        auto& q = p[profile]; if (have[static_cast<size_t>(profile)]) { return q; }
        have[static_cast<size_t>(profile)] = 1; q.dims = kDims[profile];
        Rng r(static_cast<uint64_t>(seed[static_cast<size_t>(shared(profile))]) * 31 + static_cast<uint64_t>(shared(profile)));
        const bool hub = is_graph(profile) && s.get("hub") && !tiny && !s.get("vast");
        const int64_t cap = tiny ? (q.dims == 1 ? 12 : q.dims == 2 ? 4 : q.dims == 3 ? 3 : 2) : hub ? 18 : q.dims == 1 ? 200 : q.dims == 2 ? 40 : q.dims == 3 ? 8 : 4;
        const int64_t side = hub ? 18 : tiny ? 1 + s.get("side", 5) % cap : std::clamp<int64_t>(s.get("side", 5), 1, cap);
        const bool cubic = (s.get("shape") & 1) == 0;
        const int vast = tiny ? 0 : static_cast<int>(s.get("vast")); const int along = static_cast<int>(s.get("shape") / 2 % q.dims);
        size_t n = 1;
        if (vast) { for (int d = 0; d < q.dims; ++d) { q.size[static_cast<size_t>(d)] = vast_side(r, q.dims, vast, d == along); n *= q.size[static_cast<size_t>(d)]; } }
        else for (int d = 0; d < q.dims; ++d) { q.size[static_cast<size_t>(d)] = static_cast<uint32_t>(cubic || d == 0 || hub ? side : std::clamp<int64_t>(1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(side) + 3)), 1, cap)); n *= q.size[static_cast<size_t>(d)]; }
        q.open.assign(n, 1);
        if (is_graph(profile)) {
            q.adj.resize(n);
            const auto wmax = static_cast<uint64_t>(std::max<int64_t>(1, s.get("weights", 1)));
            const auto cost = [&] { return cost_of(r.below(wmax)); };
            for (uint32_t i = 1; i < n; ++i) { if (r.chance(9, 10)) { auto j = static_cast<uint32_t>(r.chance(1, 2) ? i - 1 : r.below(i)); link(q, i, j, cost()); } }
            for (auto k = r.below(n + 1); k-- > 0;) { auto i = static_cast<uint32_t>(r.below(n)), j = static_cast<uint32_t>(r.below(n)); if (i != j) { link(q, i, j, cost(), r.chance(static_cast<unsigned>(s.get("oneway")), 100)); } }
            if (hub) { auto c = static_cast<uint32_t>(r.below(n)); for (uint32_t j = 0; j < n; ++j) { if (j != c && r.chance(97, 100)) { link(q, c, j, cost()); } } }
        }
        else if (s.get("kind") == 1) {                            // a perfect maze with some walls opened
            q.open.assign(n, 0); std::vector<uint32_t> st{ 0 }; q.open[0] = 1;
            while (!st.empty()) {
                auto i = st.back(); auto c = coord_of(q, i); std::vector<std::pair<uint32_t, uint32_t>> next;
                for (int d = 0; d < q.dims; ++d) { for (int sgn : { -1, 1 }) {
                    int64_t x = static_cast<int64_t>(c[static_cast<size_t>(d)]) + 2 * sgn; if (x < 0 || x >= q.size[static_cast<size_t>(d)]) { continue; }
                    auto e = c; e[static_cast<size_t>(d)] = static_cast<uint32_t>(x); auto w = c; w[static_cast<size_t>(d)] = static_cast<uint32_t>(x - sgn);
                    if (!q.open[index_of(q, e)]) { next.emplace_back(index_of(q, e), index_of(q, w)); } } }
                if (next.empty()) { st.pop_back(); continue; }
                auto [e, w] = next[r.below(next.size())]; q.open[e] = q.open[w] = 1; st.push_back(e);
            }
            for (auto& o : q.open) { if (!o && r.chance(static_cast<unsigned>(s.get("loops", 3)), 100)) { o = 1; } }
        }
        else { const auto density = static_cast<unsigned>(s.get("density", 25)); for (auto& o : q.open) { o = !r.chance(density, 100); } }
        realise(profile);
        return q;
    }
    // Long: beyond what a byte counts, along one side. Huge: more cells than two bytes count.
    static uint32_t vast_side(Rng& r, int dims, int vast, bool along) {
        if (vast == 1) { return static_cast<uint32_t>(along ? 257 + r.below(dims == 1 ? 3000 : 350) : 1 + r.below(dims == 2 ? 5 : 3)); }
        return static_cast<uint32_t>(dims == 1 ? 65537 + r.below(3000) : dims == 2 ? 257 + r.below(30) : dims == 3 ? 41 : 17);
    }
    static void link(Problem& q, uint32_t i, uint32_t j, uint32_t w, bool oneway = false) {
        for (auto& [k, d] : q.adj[i]) { if (k == j) { return; } }
        for (auto& [k, d] : q.adj[j]) { if (k == i) { return; } }
        q.adj[i].emplace_back(j, w); if (!oneway) { q.adj[j].emplace_back(i, w); }
    }
    template <int D> Coord<D> size(const Problem& q) { return cut<D>(q.size); }
    // Another maze in the place of this one.
    void replace(int profile, int64_t other) {
        profile = shared(profile); seed[static_cast<size_t>(profile)] = other;
        for (int i = 0; i < kProfiles; ++i) { if (shared(i) == profile) { have[static_cast<size_t>(i)] = 0; p[i] = Problem{}; } }
        switch (profile) { case CUBE1: m.byte1.reset(); break; case GRID2: m.bit2.reset(); break; case BYTE2: m.byte2.reset(); break; case CUBE3: m.bit3.reset(); break; case CUBE4: m.byte4.reset(); break; case GRAPH2: m.graph2.reset(); graph_mr.reset(); break; case WIDE2: m.wide2.reset(); break; case WGRAPH2: m.wgraph2.reset(); wgraph_mr.reset(); break; }
    }
    // The maze stays, and changes: a cell is opened or closed, two nodes are connected or not any more.
    template <typename G> static void set_cell(G& grid, uint32_t cell, bool open, int64_t how) {
        using W = std::decay_t<decltype(grid.nodes())>; using V = typename W::value_type; V v; if constexpr (std::is_same_v<V, bool>) { v = !open; } else { v = open ? static_cast<V>(cell % 7) : std::numeric_limits<V>::max(); }
        if (how % 3 == 0) { *(grid.begin() + cell) = v; return; }
        W all = grid.nodes(); all[cell] = v; if (how % 3 == 1) { grid.nodes(all); } else { grid = G(grid.size(), all); }
    }
    void edit(int profile, int64_t a, int64_t b, int64_t how) {
        profile = shared(profile); auto& q = p[profile]; get(profile); const auto i = spread(a * 7 % 1000, q.count()), j = spread(b * 7 % 1000, q.count());
        if (is_graph(profile)) { if (profile == GRAPH2) { edit_graph<uint32_t>(*m.graph2, q, 1U, i, j, how); } else { edit_graph<size_t>(*m.wgraph2, q, unit_of(profile), i, j, how); survey_graph(q); } return; }
        for (int k = 0; k < kProfiles; ++k) { if (shared(k) == profile) { get(k); p[k].open[i] = !p[k].open[i]; } }
        const bool open = q.open[i];
        switch (profile) { case CUBE1: return set_cell(*m.byte1, i, open, how); case GRID2: return set_cell(*m.bit2, i, open, how); case BYTE2: return set_cell(*m.byte2, i, open, how); case CUBE3: return set_cell(*m.bit3, i, open, how); case CUBE4: return set_cell(*m.byte4, i, open, how); case WIDE2: return set_cell(*m.wide2, i, open, how); }
    }
    // Few distinct sums on tiny mazes: iterative deepening takes one round for each.
    uint32_t cost_of(uint64_t x) const { const auto wmax = static_cast<uint64_t>(s.get("weights", 1)); return static_cast<uint32_t>(tiny && wmax > 20 ? (1 + x % 5) * (wmax / 5) : 1 + x); }
    template <typename I, typename G, typename W> void edit_graph(G& graph, Problem& q, W unit, uint32_t i, uint32_t j, int64_t how) {
        if (i == j) { return; } auto in = [&](uint32_t x, uint32_t y) { for (auto& [k, w] : q.adj[x]) { if (k == y) { return true; } } return false; };
        auto edge = [&](uint32_t y, uint32_t w) { return std::make_pair(static_cast<I>(y), w * unit); };
        auto cut_link = [&](uint32_t x, uint32_t y) { for (size_t k = 0; k < q.adj[x].size(); ++k) { if (q.adj[x][k].first == y) { graph.remove(x, edge(y, q.adj[x][k].second)); graph.add(x); q.adj[x].erase(q.adj[x].begin() + static_cast<long>(k)); return; } } };
        if (in(i, j) || in(j, i)) { cut_link(i, j); cut_link(j, i); return; }
        const auto w = cost_of(static_cast<uint64_t>(how % std::max<int64_t>(1, s.get("weights", 1))));
        graph.add(i, edge(j, w)); q.adj[i].emplace_back(j, w); graph.add(j, edge(i, w)); q.adj[j].emplace_back(i, w);
    }
    void survey_graph(const Problem& q) {
        alloc::bypass_guard _; auto& l = landmarks[tiny]; l.width = q.size[0]; l.far.clear(); const auto n = q.count(); if (s.get("oneway") || !s.get("landmark")) { return; }
        l.far = distances(q, WGRAPH2, false, spread(s.get("landmark") % 1000, n)); for (auto& d : l.far) { if (d >= kFar) { d = -1; } }
    }
    void realise(int profile) {
        const auto& q = p[profile];
        std::vector<bool> bits; std::vector<char> bytes;
        for (auto o : q.open) { bits.push_back(!o); bytes.push_back(o ? static_cast<char>(bytes.size() % 7) : std::numeric_limits<char>::max()); }
        switch (profile) {
            case CUBE1: m.byte1 = std::make_unique<Grid<1, char>>(size<1>(q), bytes); break;
            case GRID2: case OCTILE2: if (!m.bit2) { m.bit2 = std::make_unique<Grid<2, bool>>(size<2>(q), bits); } break;
            case BYTE2: case LAZY2: if (!m.byte2) { m.byte2 = std::make_unique<Grid<2, char>>(size<2>(q), bytes); } break;
            case CUBE3: m.bit3 = std::make_unique<Grid<3, bool>>(size<3>(q), bits); break;
            case CUBE4: m.byte4 = std::make_unique<Grid<4, char>>(size<4>(q), bytes); break;
            case GRAPH2:
                graph_mr = std::make_unique<std::pmr::monotonic_buffer_resource>();
                m.graph2 = std::make_unique<Graph>(graph_mr.get());
                for (uint32_t i = 0; i < q.count(); ++i) { m.graph2->add(i); }
                for (uint32_t i = 0; i < q.count(); ++i) { for (auto& [j, w] : q.adj[i]) { m.graph2->add(i, std::make_pair(j, w)); } }
                break;
            case WIDE2: m.wide2 = std::make_unique<WideGrid>(cut<2, size_t>(q.size), bytes); break;
            case WGRAPH2:
                wgraph_mr = std::make_unique<std::pmr::monotonic_buffer_resource>();
                m.wgraph2 = std::make_unique<WideGraph>(wgraph_mr.get());
                for (uint32_t i = 0; i < q.count(); ++i) { m.wgraph2->add(i); }
                for (uint32_t i = 0; i < q.count(); ++i) { for (auto& [j, w] : q.adj[i]) { m.wgraph2->add(i, std::make_pair(size_t(j), w * unit_of(profile))); } }
                survey_graph(q); break;
        }
    }
};

// -------------------------------------------------------------------------------------------------------- Oracles --

// The path as a walk from start to end: which of the two it lists, and in which direction.
// bit 0: backwards, bit 1: without start, bit 2: without end.
bool walk_ok(const Problem& p, int profile, bool jumps, std::vector<uint32_t> v, uint32_t s, uint32_t e, int conv, double& length) {
    if (conv & 1) { std::reverse(v.begin(), v.end()); }
    if (conv & 2) { v.insert(v.begin(), s); }
    if (conv & 4) { v.push_back(e); }
    if (v.empty() || v.front() != s || v.back() != e) { return false; }
    if (jumps) {                                                 // the cells between jump points
        std::vector<uint32_t> all{ v[0] };
        for (size_t i = 1; i < v.size(); ++i) {
            auto a = coord_of(p, v[i - 1]), b = coord_of(p, v[i]);
            const int64_t dx = int64_t(b[0]) - a[0], dy = int64_t(b[1]) - a[1], n = std::max(std::abs(dx), std::abs(dy));
            if (!n || (dx && dy && std::abs(dx) != std::abs(dy))) { return false; }
            for (int64_t k = 1; k <= n; ++k) { auto c = a; c[0] = static_cast<uint32_t>(a[0] + dx / n * k); c[1] = static_cast<uint32_t>(a[1] + dy / n * k); all.push_back(index_of(p, c)); }
        }
        v.swap(all);
    }
    length = 0;
    for (size_t i = 0; i + 1 < v.size(); ++i) {
        bool ok = false; for (const auto& [j, w] : neighbours(p, profile, jumps, v[i])) { if (j == v[i + 1]) { ok = true; length += w; break; } }
        if (!ok) { return false; }
    }
    return true;
}

std::string show(const Problem& p, const std::vector<std::array<uint32_t, 4>>& path) {
    std::string t; size_t n = 0;
    for (auto& c : path) { if (n++ > 40) { t += " ..."; break; } t += " ("; for (int d = 0; d < p.dims; ++d) { t += (d ? "," : "") + std::to_string(c[static_cast<size_t>(d)]); } t += ")"; }
    return t;
}

// ------------------------------------------------------------------------------------------------------- Solving --

// --------------------------------------------------------------------------------------------------------- Plans --

struct Plan {                                                    // of one property: what is checked
    bool walk = false, optimal = false, contract = false, limit = false, steps = false, same = false, cleanup = false, faults = false, survey = false;
};
Plan plan;

struct Ask { int solver = 0, profile = 0; uint32_t s = 0, e = 0; int64_t out_s = -1, out_e = -1; uint32_t weight = 1; size_t capacity = 0, limit = 0; };
struct Fault { uint64_t nth = 0; bool sticky = false; uint64_t bytes = 0; int resets = 0; };

struct World {
    Universe big, tiny;
    explicit World(const Scenario& s) : big(s, false), tiny(s, true) {}
    Universe& of(const Ask& q) { return kTraits[q.solver].exponential ? tiny : big; }
    const Problem& problem(const Ask& q) { return of(q).get(q.profile); }
    bool changed(const Op& op) {
        if (op.kind == "edit") { (op.arg(4) & 1 ? tiny : big).edit(static_cast<int>(op.arg(0) % kProfiles), op.arg(1), op.arg(2), op.arg(3)); return true; }
        if (op.kind == "another") { (op.arg(4) & 1 ? tiny : big).replace(static_cast<int>(op.arg(0) % kProfiles), op.arg(1)); return true; }
        return false;
    }
};

std::string name_of(const Ask& q) { return std::string(kTraits[q.solver].name) + "/" + kProfileNames[q.profile]; }
bool jumps(const Ask& q) { return kTraits[q.solver].jumps; }
bool no_cleanup(int profile) { return profile == BYTE2 || profile == CUBE4 || profile == WIDE2 || profile == WGRAPH2; }     // or no reset() to be seen

// Which way round a solver lists its path. bit 0: end first, bit 1: without start, bit 2: without end.
int convention(const Ask& q) {
    const std::string n = kTraits[q.solver].name; auto in = [&](std::initializer_list<const char*> l) { for (auto x : l) { if (n == x) { return true; } } return false; };
    const bool forward = q.profile == BYTE2 || q.profile == LAZY2 || q.profile == WIDE2 || q.profile == WGRAPH2;      // parameters without reverse equivalence
    if (in({ "best_first", "dfs", "gbest_first", "gdfs" })) { return 2; }
    if (in({ "astar" })) { return forward ? 3 : 2; }
    if (in({ "bfs", "gbfs", "fringe", "gstar", "mgstar", "jps", "gjps" })) { return forward ? 3 : q.profile == GRAPH2 ? 2 : 5; }
    if (in({ "dijkstra", "eidastar" })) { return 0; }
    if (in({ "smastar", "osmastar" })) { return 4; }
    return 1;
}

// A coordinate outside the maze, by one dimension or another.
std::array<uint32_t, 4> place(const Problem& p, uint32_t i, int64_t out) {
    auto c = coord_of(p, i);
    if (out >= 0) { auto d = static_cast<size_t>(out % p.dims); c[d] = p.size[d] + static_cast<uint32_t>(out / p.dims % 3); }
    return c;
}

uint64_t edges_of(const Ask& q, const Problem& p) {
    uint64_t e = 0; if (is_graph(q.profile)) { for (auto& a : p.adj) { e += a.size(); } return e; }
    return p.count() * (q.profile == OCTILE2 || jumps(q) ? 8 : 2 * static_cast<uint64_t>(p.dims));
}

// Steps (seam crossings) a solve may take: polynomial in the size of the maze for solvers that remember what they saw.
uint64_t budget(const Ask& q, const Problem& p) {
    const uint64_t n = p.count(), edges = edges_of(q, p);
    if (plan.survey) { return 100000000; }
    // Measured over a million solves: at most 2^4 (n + edges), 2^5 for memory-bounded ones, 2^9 for exponential ones on tiny mazes.
    uint64_t b = kTraits[q.solver].exponential ? 2000000 : kTraits[q.solver].bounded ? 20000 + std::min<uint64_t>(2000 * (n + edges), 4000000) : 2000 + 400 * (n + edges);
    return plan.steps ? b : 2 * b;
}

Answer ask(World& u, Set& set, const Ask& q, const Fault& f = {}) {
    const Problem& p = u.problem(q);
    Answer a; Call c{ &u.of(q).m, &p, &set.r[0], &set.r[1], &set.r[2], u.of(q).tiny, place(p, q.s, q.out_s), place(p, q.e, q.out_e), q.weight, q.capacity, q.limit };
    // A caller that asked for no cleanup has to reset before it uses the resources for nodes of another kind.
    if (set.littered && (set.last_solver != q.solver || set.last_profile != q.profile)) { set.reset(); }
    set.last_solver = q.solver; set.last_profile = q.profile;
    {
        alloc::bypass_guard _;
        if (!tasks::simulated()) { scope(name_of(q)); }
        current_call = name_of(q) + " from" + show(p, { c.start }) + " to" + show(p, { c.end }) + " in a maze of" + show(p, { p.size }) + ", weight " + std::to_string(q.weight) + ", capacity " + std::to_string(q.capacity) + (kTraits[q.solver].bounded ? ", memory limit " + std::to_string(q.limit) : "");
        if (!tasks::simulated()) { g_step_what = current_call.c_str(); }
    }
    set.nodes.base = set.nodes.peak = set.nodes.now(); set.first_failed_reset = -1; set.failed_at_start = alloc::stats.failed;
    for (auto& r : set.r) { r.in_solve = true; r.only_n = 0; r.peak_blocks = r.live_blocks; r.resets_before = r.resets; r.fail_reset = (f.resets >> r.index) & 1; }
    event(static_cast<uint64_t>(q.solver) * 100 + static_cast<uint64_t>(q.profile), (uint64_t(q.s) << 32) | q.e);
    if (!tasks::simulated()) { g_step_budget = g->steps + budget(q, p); }
    const auto before = g->steps;
    if (f.nth) { alloc::plan_failure(f.nth, f.sticky); }
    if (f.bytes) { alloc::plan_limit(alloc::stats.live_bytes + f.bytes); }
    { alloc::arm_guard _; fn_of(q.solver, q.profile)(c, a); }
    if (!tasks::simulated()) { alloc::plan_failure(0, false); alloc::plan_limit(0); }
    count("solves"); count(a.kind != Answer::OK ? "solves_that_threw" : a.path.empty() ? "answers_without_path" : "answers_with_path");
    if (plan.survey) { auto ratio = (g->steps - before) / (p.count() + edges_of(q, p)); int b = 0; while (ratio >> b) { ++b; } count((std::string("ratio ") + kTraits[q.solver].name + " 2^" + std::to_string(b)).c_str()); }
    for (auto& r : set.r) { r.in_solve = r.fail_reset = false; }
    set.littered |= no_cleanup(q.profile);
    event(static_cast<uint64_t>(a.kind), a.path.size());
    for (auto& x : a.path) { event((uint64_t(x[0]) << 32) | x[1], (uint64_t(x[2]) << 32) | x[3]); }
    state(mix(static_cast<uint64_t>(q.solver) * 64 + static_cast<uint64_t>(q.profile)) ^ mix(a.path.size() * 8 + static_cast<uint64_t>(a.kind) + 77) ^ mix(p.count() + 99) ^ mix(f.nth ? 1 + std::min<uint64_t>(f.nth, 40) : 0));
    if (a.kind != Answer::OK || !a.path.empty()) { nontrivial(); }
    return a;
}

bool equal(const Answer& a, const Answer& b) { return a.kind == b.kind && a.path == b.path; }

std::string describe(const Problem& p, const Answer& a) {
    switch (a.kind) { case Answer::OK: return a.path.empty() ? "no path" : "the path" + show(p, a.path); case Answer::BAD_ALLOC: return "bad_alloc"; case Answer::RESET_ERROR: return "the error of reset " + std::to_string(a.reset_id); default: return "an exception: " + a.what; }
}
std::string draw(const Problem& p, int profile) {
    std::string t = "\nmaze:";
    if (is_graph(profile)) { for (uint32_t i = 0; i < p.count(); ++i) { t += " " + std::to_string(i) + "{"; for (auto& [j, w] : p.adj[i]) { t += std::to_string(j) + ":" + std::to_string(w) + " "; } t += "}"; } return t; }
    for (size_t i = 0; i < p.count(); ++i) { if (i % p.size[0] == 0) { t += "\n  "; } t += p.open[i] ? '.' : '#'; }
    return t;
}

struct Reference { bool valid_s, valid_e, reachable; double dist; };
Reference reference(const Problem& p, const Ask& q) {
    Reference r{ q.out_s < 0 && p.open[q.s], q.out_e < 0 && p.open[q.e], false, 0 };
    if (r.valid_s && r.valid_e) { auto d = distances(p, q.profile, jumps(q), q.s); r.dist = d[q.e]; r.reachable = d[q.e] < kFar; }
    return r;
}

// The answer of a solve without faults, against the maze alone.
void check_answer(World& u, const Set& set, const Ask& q, const Answer& a) {
    const Problem& p = u.problem(q); const auto r = reference(p, q); const auto& t = kTraits[q.solver];
    auto fail = [&](const char* cls, const std::string& m) { broken(cls, m + ": " + describe(p, a) + draw(p, q.profile)); };
    if (plan.limit && t.bounded) {
        const auto held = set.nodes.peak - set.nodes.base;
        if (held > q.limit) { fail("over-limit", "held " + std::to_string(held) + " nodes at once"); }
        if (q.limit < 400) { count(held + 3 > q.limit ? (std::string("limit reached by ") + t.name + ", left " + std::to_string(q.limit - held)).c_str() : "limit_not_reached"); }
    }
    if (a.kind != Answer::OK) { if (plan.walk) { fail("unexpected-exception", "a solve without any fault threw"); } return; }
    if (!r.valid_s || !r.valid_e) { if (plan.walk && !a.path.empty()) { fail("path-to-nowhere", "an endpoint is not an open cell, yet there is a path"); } return; }
    if (q.s == q.e) { if (plan.walk && (a.path.size() != 1 || a.path[0] != coord_of(p, q.e))) { fail("trivial-path", "start is end, the answer is not that cell"); } return; }
    if (!std::strcmp(t.name, "flood")) {
        if (plan.walk && !(r.reachable ? a.path.size() == 1 && a.path[0] == coord_of(p, q.e) : a.path.empty())) { fail("wrong-verdict", std::string("flood fill answers with the end if it can be reached, which it ") + (r.reachable ? "can" : "cannot")); }
        return;
    }
    if (!r.reachable) { if (plan.walk && !a.path.empty()) { fail("path-to-unreachable", "the end cannot be reached, yet there is a path"); } return; }
    if (a.path.empty()) { if ((plan.walk || (plan.optimal && (t.optimal || t.bounded))) && (!t.bounded || q.limit >= 1000000)) { fail("path-not-found", "the end can be reached at distance " + std::to_string(r.dist) + ", yet there is no path"); } return; }
    std::vector<uint32_t> v; for (auto& c : a.path) { v.push_back(index_of(p, c)); for (int d = 0; d < p.dims; ++d) { if (c[static_cast<size_t>(d)] >= p.size[static_cast<size_t>(d)]) { v.back() = UINT32_MAX; } } }
    double len = 0; bool ok = false;
    for (auto x : v) { if (x == UINT32_MAX) { if (plan.walk) { fail("path-leaves-maze", "the path has a cell outside the maze"); } return; } }
    if (plan.survey) {
        for (int k = 0; k < 8; ++k) { double l; if (walk_ok(p, q.profile, jumps(q), v, q.s, q.e, k, l)) { if (!ok) { len = l; } ok = true; count((std::string("conv ") + name_of(q) + " " + std::to_string(k)).c_str()); } }
    }
    if (!ok) { ok = walk_ok(p, q.profile, jumps(q), v, q.s, q.e, convention(q), len); }
    if (plan.walk && !ok) { fail("not-a-walk", "the answer is not a walk from start to end, as this solver lists it"); }
    const bool shortest = (t.optimal || (t.bounded && q.limit >= 1000000)) && !(t.unit && is_graph(q.profile) && u.big.s.get("weights", 1) > 1) && q.profile != LAZY2 && q.weight <= 1;
    if (plan.optimal && shortest) {
        count("lengths_compared");
        if (!ok) { fail("not-a-walk", "the answer is not a walk from start to end, as this solver lists it"); }
        if (len > r.dist * 1.00001) { fail("not-shortest", "the path has length " + std::to_string(len) + ", the shortest one " + std::to_string(r.dist)); }
    }
}

// ----------------------------------------------------------------------------------------------------- Scenarios --

constexpr int64_t kNoLimit = 1000000;

bool s_huge(World& u) { return u.big.s.get("vast") == 2; }
Ask ask_of(World& u, const Op& op) {
    Ask q; q.solver = static_cast<int>(op.arg(0) % kSolvers); q.profile = static_cast<int>(op.arg(1) % kProfiles);
    for (int k = 0; k < kProfiles && !fn_of(q.solver, q.profile); ++k) { q.profile = (q.profile + 1) % kProfiles; }
    if (s_huge(u) && q.profile != CUBE1 && !std::strcmp(kTraits[q.solver].name, "fringe")) { q.solver = 0; }      // its sorted list takes quadratic time
    const auto& p = u.problem(q);
    std::vector<uint32_t> cells; for (uint32_t i = 0; i < p.count(); ++i) { if (p.open[i]) { cells.push_back(i); } }
    auto pick = [&](int64_t v, uint32_t& cell, int64_t& out) {   // below 1000: an open cell, 1000+: any, 2000+: outside
        out = v >= 2000 ? v - 2000 : -1;
        cell = v >= 1000 || cells.empty() ? spread(v * 7 % 1000, p.count()) : cells[spread(v, cells.size())];
    };
    pick(op.arg(2), q.s, q.out_s); pick(op.arg(3), q.e, q.out_e);
    q.weight = static_cast<uint32_t>(op.arg(4, 1)); q.capacity = static_cast<size_t>(op.arg(5)); q.limit = static_cast<size_t>(std::max<int64_t>(op.arg(6), 4));
    return q;
}

int64_t gen_end(Rng& r, bool odd) { return odd && r.chance(1, 25) ? 2000 + r.range(0, 30) : odd && r.chance(1, 15) ? 1000 + r.range(0, 999) : r.range(0, 999); }

struct Style {                                                   // what a property's histories are made of
    int solves_lo = 1, solves_hi = 3; bool odd_ends = true, unit_weight = false, faults = false, resets = false, between = false, edits = false; std::vector<int> solvers{}; int small_limits = 3;
};
Op gen_solve(Rng& r, const Style& st) {
    static const std::vector<int64_t> weights{ 1, 1, 1, 1, 1, 0, 2, 5 }, caps{ 0, 0, 0, 1, 2, 7, 64, 1000 };
    const int solver = st.solvers.empty() ? static_cast<int>(r.below(kSolvers)) : r.pick(st.solvers);
    const int64_t limit = r.chance(static_cast<unsigned>(st.small_limits), 6) ? (r.chance(1, 2) ? r.range(4, 40) : r.range(40, 300)) : kNoLimit;
    return { "solve", { solver, r.range(0, kProfiles - 1), gen_end(r, st.odd_ends), gen_end(r, st.odd_ends), st.unit_weight ? r.range(0, 9) > 0 : r.pick(weights), r.pick(caps), limit } };
}
void gen_maze(Rng& r, Scenario& s, bool thorough) {
    s.cfg["maze_seed"] = r.range(0, 1000000); s.cfg["kind"] = r.range(0, 1); s.cfg["density"] = r.pick(std::vector<int64_t>{ 0, 10, 20, 30, 40, 60 });
    s.cfg["side"] = r.chance(1, thorough ? 15 : 40) ? r.range(15, 40) : r.range(1, 14); s.cfg["shape"] = r.range(0, 1); s.cfg["loops"] = r.pick(std::vector<int64_t>{ 0, 3, 15 });
    s.cfg["weights"] = r.pick(std::vector<int64_t>{ 1, 1, 1, 5, 5, 20, 20, 100000 }); s.cfg["oneway"] = r.pick(std::vector<int64_t>{ 0, 0, 30, 100 }); s.cfg["hub"] = r.chance(1, 12); s.cfg["landmark"] = r.chance(1, 4) ? 0 : r.range(1, 999);
    if (r.chance(1, 60)) { s.cfg["vast"] = r.chance(1, 20) ? 2 : 1; if (s.cfg["vast"] == 2) { s.cfg["weights"] = std::min<int64_t>(s.cfg["weights"], 5); } s.cfg["shape"] = r.range(0, 31); s.cfg["density"] = r.pick(std::vector<int64_t>{ 0, 0, 1, 5 }); }
    s.cfg["fill"] = r.range(0, 255); s.cfg["backend"] = r.range(0, kBackends - 1);
}
Scenario gen_history(Rng& r, bool thorough, const Style& st) {
    Scenario s; gen_maze(r, s, thorough); const bool edits = st.edits && r.chance(1, 3); const int64_t solves = r.range(st.solves_lo, st.solves_hi);
    for (auto n = s.get("vast") == 2 ? std::min<int64_t>(solves, std::max(2, st.solves_lo)) : solves; n-- > 0;) {
        if (st.between && r.chance(1, 6)) { s.ops.push_back({ r.chance(1, 2) ? "reset" : "release", {} }); }
        if (edits) { for (int k = 0; k < 6 && r.chance(1, 2); ++k) { s.ops.push_back({ r.chance(1, 6) ? "another" : "edit", { r.range(0, kProfiles - 1), r.range(0, 999), r.range(0, 999), r.range(0, 999), r.range(0, 1) } }); } }
        if (st.faults && r.chance(3, 4)) {
            switch (r.range(0, 3)) {
                case 0: s.ops.push_back({ "fail_bytes", { r.skewed(6000) } }); break;
                case 1: s.ops.push_back({ "fail_nth", { r.range(0, 20), r.range(0, 1) } }); break;
                default: s.ops.push_back({ "fail_nth", { r.skewed(100000), r.range(0, 1) } });
            }
        }
        if (st.resets && r.chance(2, 3)) { s.ops.push_back({ "fail_reset", { r.range(1, 7) } }); }
        s.ops.push_back(gen_solve(r, st));
    }
    return s;
}

// -------------------------------------------------------------------------------------------------------- Running --

struct Fresh { Answer a; uint64_t allocs = 0; };
// The same solve in memory resources of its own, nothing failing.
Fresh alone(World& u, const Ask& q, int backend) {
    Fresh f; const auto before = alloc::stats.allocs;
    { Set set(backend); f.allocs = alloc::stats.allocs; f.a = ask(u, set, q); f.allocs = alloc::stats.allocs - f.allocs; }
    (void)before; count("reference_solves"); return f;
}

void check_cleanup(const Set& set, const Ask& q, const Problem& p, const Answer& a, const Answer& plain, int resets) {
    auto fail = [&](const char* cls, const std::string& m) { broken(cls, m + ": " + describe(p, a)); };
    for (auto& r : set.r) {
        const auto n = r.resets - r.resets_before;
        if (no_cleanup(q.profile)) { if (n) { fail("reset-unasked", std::string(r.role) + " resource was reset although no cleanup was asked for"); } continue; }
        if (!n) { fail("not-reset", std::string(r.role) + " resource was not reset by the solve"); }
        if (r.live_blocks) { fail("not-empty", std::string(r.role) + " resource still holds " + std::to_string(r.live_blocks) + " blocks after the solve"); }
    }
    const bool reset_first = set.first_failed_reset >= 0 && set.failed_at_reset == set.failed_at_start;    // some solvers reset while they search
    bool midway = false; for (auto& r : set.r) { midway |= r.resets - r.resets_before > 1; }
    if (plain.kind != Answer::OK && (midway || reset_first) && set.first_failed_reset >= 0 && a.kind == Answer::RESET_ERROR && a.reset_id == set.first_failed_reset) { return; }
    if (plain.kind != Answer::OK && !reset_first) { if (!equal(a, plain)) { fail("first-error-lost", "the solve fails with " + describe(p, plain) + " if no reset fails"); } return; }
    if (set.first_failed_reset < 0) { if (!equal(a, plain)) { fail("different-answer", "without reset failures the answer is " + describe(p, plain)); } return; }
    if (a.kind != Answer::RESET_ERROR || a.reset_id != set.first_failed_reset) { fail("reset-error-lost", "the reset of resource " + std::to_string(set.first_failed_reset) + " failed first (of mask " + std::to_string(resets) + ")"); }
}

std::string text_of(const Answer& a) { std::string t(1, static_cast<char>('0' + a.kind)); for (auto& c : a.path) { t.append(reinterpret_cast<const char*>(c.data()), sizeof c); } return t; }
Answer answer_of(const std::string& t) { Answer a; a.kind = static_cast<decltype(a.kind)>(t[0] - '0'); a.path.resize((t.size() - 1) / sizeof a.path[0]); if (!a.path.empty()) { std::memcpy(a.path.data(), t.data() + 1, t.size() - 1); } return a; }
// In a process where nothing has been solved: the mazes as they are before that solve, and the solve.
std::string first_answer(const std::string& question) {
    std::istringstream in(question); size_t at = 0; in >> at; in.ignore(); const auto s = Scenario::parse(in);
    alloc::fill = static_cast<uint8_t>(s.get("fill")); g_step_budget = UINT64_MAX; World u(s);
    for (size_t i = 0; i < at; ++i) { if (s.ops[i].kind == "solve") { (void)ask_of(u, s.ops[i]); } else { (void)u.changed(s.ops[i]); } }
    return text_of(alone(u, ask_of(u, s.ops[at]), DIRECT).a);
}

void exec_history(const Scenario& s, const Plan& what) {
    static std::unique_ptr<Pristine> server; Pristine* pristine = nullptr;
    if (what.same) { plan = what; contract_checked = false; if (!server) { server = std::make_unique<Pristine>(first_answer); } if (s.get("pristine")) { pristine = server.get(); } }
    plan = what; contract_checked = what.contract; alloc::fill = static_cast<uint8_t>(s.get("fill"));
    const int backend = static_cast<int>(s.get("backend") % kBackends);
    World u(s); Fault f; auto set = std::make_unique<Set>(backend); const auto live = alloc::stats.live;
    { Set probe(backend); }                                      // sets leave nothing behind
    const auto base = live;
    std::vector<std::pair<Op, Answer>> seen;
    for (auto& op : s.ops) {
        if (op.kind == "reset") { set->reset(); continue; }
        if (op.kind == "release") { set->release(); continue; }
        if (op.kind == "fail_nth") { f.nth = 1 + static_cast<uint64_t>(op.arg(0)); f.sticky = op.arg(1) & 1; continue; }
        if (op.kind == "fail_bytes") { f.bytes = 1 + static_cast<uint64_t>(op.arg(0)); continue; }
        if (op.kind == "fail_reset") { f.resets = static_cast<int>(op.arg(0) & 7); continue; }
        if (u.changed(op) || op.kind != "solve") { continue; }
        const auto q = ask_of(u, op); const auto& p = u.problem(q);
        if (kTraits[q.solver].exponential) { f.nth = f.nth ? 1 + (f.nth - 1) % 5000 : 0; }

        if (plan.cleanup) {                                      // each in a fresh set, so that its twin takes the same course
            Fault g2 = f; g2.resets = 0; if (f.nth) { f.nth = g2.nth = 1 + (f.nth - 1) % (alone(u, q, backend).allocs + 1); }
            Answer plain; { Set twin(backend); plain = ask(u, twin, q, g2); }
            Set mine(backend); auto a = ask(u, mine, q, f);
            check_cleanup(mine, q, p, a, plain, f.resets);
            f = {}; continue;
        }
        Fresh fresh; const bool compare = plan.same || plan.faults; std::optional<Answer> first;
        if (pristine) { if (auto t = pristine->ask(std::to_string(&op - s.ops.data()) + "\n" + s.text())) { first = answer_of(*t); count("answers_from_a_pristine_process"); } }
        if (compare) {
            fresh = alone(u, q, DIRECT);
            if (f.nth > 40 && fresh.allocs) { f.nth = 1 + (f.nth - 1) % (fresh.allocs + 1); }
        }
        const auto failed = alloc::stats.failed;
        auto a = ask(u, *set, q, f);
        const bool hit = alloc::stats.failed != failed;
        if (hit) { count("solves_with_failed_allocations"); }
        if (compare) {
            auto fail = [&](const char* cls, const std::string& m) { broken(cls, m + ": " + describe(p, a) + ", by itself " + describe(p, fresh.a) + draw(p, q.profile)); };
            if (a.kind == Answer::BAD_ALLOC) { if (!hit) { fail("bad-alloc-without-fault", "no allocation failed, yet the solve threw"); } }
            else if (a.kind == Answer::RESET_ERROR) { if (!f.resets) { fail("reset-error-without-fault", "no reset failed"); } }
            else if (first && !equal(a, *first)) { broken(hit ? "wrong-answer-after-failed-allocation" : "depends-on-history", "the answer differs from that of the same solve in a process that has not solved anything yet: " + describe(p, a) + ", there " + describe(p, *first) + draw(p, q.profile)); }
            else if (!equal(a, fresh.a)) { fail(hit ? "wrong-answer-after-failed-allocation" : "depends-on-history", "the answer differs from that of the same solve by itself"); }
        }
        else if (!hit && !f.resets) { check_answer(u, *set, q, a); }
        f = {};
    }
    scope("end"); set->release(); const auto after = alloc::stats.live;
    if ((plan.faults || plan.contract) && after > base) { broken("leak", std::to_string(after - base) + " blocks of memory are still allocated after all solves returned and all resources were released: " + alloc::describe_live(10)); }
}

// ---- several callers ----

Scenario gen_concurrent(Rng& r, bool thorough) {
    Style st; st.solves_lo = 2; st.solves_hi = 8;
    Scenario s = gen_history(r, thorough, st); const auto n = r.range(2, 4); s.cfg["callers"] = n; s.cfg["side"] = std::min<int64_t>(s.cfg["side"], 14); s.cfg["vast"] = s.cfg["vast"] & 1;
    for (auto& op : s.ops) { op.a.push_back(r.range(0, n - 1)); }
    s.cfg["sched_seed"] = r.range(0, 1 << 30); s.cfg["sched_rate"] = r.pick(std::vector<int64_t>{ 0, 1, 5, 30, 200, 500 });
    s.cfg["access_rate"] = r.pick(std::vector<int64_t>{ 0, 0, 3, 30, 300, 3000, 30000 });
    if (r.chance(1, 5)) { s.cfg["fail_at"] = 1 + r.skewed(400); s.cfg["fail_all"] = r.range(0, 1); }
    return s;
}
void exec_concurrent(const Scenario& s) {
    plan = Plan{}; contract_checked = false; alloc::fill = static_cast<uint8_t>(s.get("fill"));
    const int backend = static_cast<int>(s.get("backend") % kBackends); const int n = static_cast<int>(std::clamp<int64_t>(s.get("callers", 2), 1, 4));
    World u(s); std::vector<std::vector<Ask>> todo(static_cast<size_t>(n)); std::vector<std::vector<Answer>> solo(todo.size()), got(todo.size());
    uint64_t steps = 0; std::map<uint64_t, int> pre;
    for (auto& op : s.ops) {
        if (op.kind == "pre") { pre[static_cast<uint64_t>(op.arg(0))] = static_cast<int>(op.arg(1)); continue; }
        if (op.kind != "solve") { continue; }
        auto q = ask_of(u, op); auto c = static_cast<size_t>(op.arg(7) % n);
        const auto before = g->steps; solo[c].push_back(alone(u, q, backend).a); todo[c].push_back(q); steps += g->steps - before;
    }
    scope("concurrent"); g_step_what = "concurrent solves"; g_step_budget = g->steps + 4 * steps + 10000;
    tasks::Plan p; p.seed = s.get("sched_seed", -1); p.rate = static_cast<unsigned>(s.get("sched_rate", 5)); p.access_rate = static_cast<unsigned>(s.get("access_rate")); p.pre = pre;
    std::vector<std::unique_ptr<Set>> sets; for (int i = 0; i < n; ++i) { sets.push_back(std::make_unique<Set>(backend)); }
    const auto failed = alloc::stats.failed; if (auto at = s.get("fail_at"); at > 0) { alloc::plan_failure(static_cast<uint64_t>(at), s.get("fail_all") & 1); }
    tasks::begin(p); std::vector<int> ids;
    for (size_t c = 0; c < todo.size(); ++c) {
        ids.push_back(tasks::start([&, c] { alloc::disarm(); for (auto& q : todo[c]) { got[c].push_back(ask(u, *sets[c], q)); } alloc::arm(); }));
    }
    for (int i : ids) { tasks::join(i); }
    tasks::end(); alloc::plan_failure(0, false); const bool hit = alloc::stats.failed != failed;
    for (size_t c = 0; c < todo.size(); ++c) {
        for (size_t k = 0; k < todo[c].size(); ++k) {
            const auto& q = todo[c][k]; const auto& p = u.problem(q);
            if (hit && got[c][k].kind == Answer::BAD_ALLOC) { count("solves_that_threw"); continue; }
            if (!equal(got[c][k], solo[c][k])) { scope("concurrent " + name_of(q)); broken("influenced", "caller " + std::to_string(c) + ", solve " + std::to_string(k) + " (" + name_of(q) + "): " + describe(p, got[c][k]) + ", alone: " + describe(p, solo[c][k]) + draw(p, q.profile)); }
        }
    }
}

std::vector<int> solvers_where(bool (*f)(const Trait&)) { std::vector<int> v; for (int i = 0; i < kSolvers; ++i) { if (f(kTraits[i])) { v.push_back(i); } } return v; }

Scenario gen_survey(Rng& r, bool thorough) { Style st; st.solves_hi = 1; return gen_history(r, thorough, st); }
Scenario gen_p05(Rng& r, bool t) { Style st; st.solves_hi = 5; st.faults = st.between = true; return gen_history(r, t, st); }
Scenario gen_p06(Rng& r, bool t) { Style st; st.solves_hi = 4; st.faults = r.chance(1, 2); st.resets = true; return gen_history(r, t, st); }
Scenario gen_p07(Rng& r, bool t) {
    Style st; st.solves_lo = 3; st.solves_hi = 10; st.edits = true; st.faults = r.chance(1, 2); st.resets = r.chance(1, 3); st.between = true;
    if (r.chance(1, 2)) { int a = static_cast<int>(r.below(kSolvers)); st.solvers = { a }; if (r.chance(1, 2)) { st.solvers.push_back(static_cast<int>(r.below(kSolvers))); } }
    auto s = gen_history(r, t, st); s.cfg["pristine"] = r.chance(1, 30); return s;
}
Scenario gen_p09(Rng& r, bool t) { Style st; st.solves_hi = 4; st.edits = true; return gen_history(r, t, st); }
Scenario gen_p10(Rng& r, bool t) { Style st; st.solves_hi = 4; st.edits = true; st.odd_ends = false; st.unit_weight = true; st.small_limits = 1; st.solvers = solvers_where([](const Trait& x) { return x.optimal || x.bounded; }); return gen_history(r, t, st); }
Scenario gen_p11(Rng& r, bool t) { Style st; st.solves_hi = 4; st.solvers = solvers_where([](const Trait& x) { return x.bounded; }); st.small_limits = 6; return gen_history(r, t, st); }
Scenario gen_p12(Rng& r, bool t) { Style st; st.solves_hi = 4; st.faults = r.chance(1, 2); st.resets = r.chance(1, 4); st.between = true; return gen_history(r, t, st); }
Scenario gen_p18(Rng& r, bool t) { Style st; st.solves_hi = 3; auto s = gen_history(r, t, st); if (r.chance(1, 3)) { s.cfg["kind"] = 0; s.cfg["density"] = r.range(45, 75); } return s; }

void exec_survey(const Scenario& s) { Plan p; p.walk = p.optimal = p.contract = p.survey = p.limit = true; exec_history(s, p); }
void exec_p05(const Scenario& s) { Plan p; p.faults = true; exec_history(s, p); }
void exec_p06(const Scenario& s) { Plan p; p.cleanup = true; exec_history(s, p); }
void exec_p07(const Scenario& s) { Plan p; p.same = true; exec_history(s, p); }
void exec_p09(const Scenario& s) { Plan p; p.walk = true; exec_history(s, p); }
void exec_p10(const Scenario& s) { Plan p; p.optimal = true; exec_history(s, p); }
void exec_p11(const Scenario& s) { Plan p; p.limit = true; exec_history(s, p); }
void exec_p12(const Scenario& s) { Plan p; p.contract = true; exec_history(s, p); }
void exec_p18(const Scenario& s) { Plan p; p.steps = true; exec_history(s, p); }

} // namespace
} // namespace sim::solve

int main(int argc, char** argv) {
    using namespace sim; using namespace sim::solve;
    const char* real = "real: all 22 solvers, containers, memory pools, grids and graph, result vectors; simulated: operator new/delete, the memory resources' front (checks, injected failures) and, in a third of the runs, their back, the callers' threads (one runs at a time, the simulator chooses which); the maze and heuristic are the library's, wrapped so that every access is a step";
    const char* rule = "one history of solves drawn from the seed: maze (kind, sides, density, weights, one-way links, hub), solver, parameter profile, endpoints, weight, capacity, memory limit, resource backend, fill pattern of fresh memory, faults; distinct by the hash of the whole event log; non-trivial if some solve found a path or failed";
    return main_for({
        { "SURVEY", gen_survey, exec_survey, 20000, 20000, "survey", "" },
        { "P05", gen_p05, exec_p05, 200000, 2500000, rule, real }, { "P06", gen_p06, exec_p06, 200000, 2500000, rule, real }, { "P07", gen_p07, exec_p07, 100000, 1500000, rule, real },
        { "P08", gen_concurrent, exec_concurrent, 60000, 900000, rule, real }, { "P09", gen_p09, exec_p09, 250000, 3500000, rule, real }, { "P10", gen_p10, exec_p10, 250000, 3500000, rule, real },
        { "P11", gen_p11, exec_p11, 150000, 2500000, rule, real }, { "P12", gen_p12, exec_p12, 250000, 3500000, rule, real }, { "P18", gen_p18, exec_p18, 250000, 4000000, rule, real },
    }, argc, argv);
}
