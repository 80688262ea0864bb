// Between the session harness and the per-solver translation units.
#pragma once
#include "core.hpp"
#include "alloc.hpp"
#include "chdr.hpp"

namespace sim::solve {

// ------------------------------------------------------------------------------------------------------ Problems --

enum Profile { CUBE1, GRID2, BYTE2, CUBE3, CUBE4, OCTILE2, LAZY2, GRAPH2, WIDE2, WGRAPH2, kProfiles };
inline const char* const kProfileNames[] = { "1D-byte", "2D-bit", "2D-byte-forward-nocleanup", "3D-bit", "4D-byte", "2D-bit-octile", "2D-byte-lazy", "2D-graph", "2D-wide-plain", "2D-graph-wide-plain" };
inline constexpr int kDims[] = { 1, 2, 2, 3, 4, 2, 2, 2, 2, 2 };
inline bool is_graph(int profile) { return profile == GRAPH2 || profile == WGRAPH2; }
inline double unit_of(int profile) { return profile == WGRAPH2 ? 0.25 : 1.0; }   // of distances in a graph

struct Problem {
    int dims = 2; std::array<uint32_t, 4> size{ 1, 1, 1, 1 };
    std::vector<uint8_t> open;                                    // 1: walkable
    std::vector<std::vector<std::pair<uint32_t, uint32_t>>> adj;  // graphs: neighbours and distances
    size_t count() const { return open.size(); }
};

// ----------------------------------------------------------------------------------------------------- Resources --

struct ResetError { int id; };

struct Backend {
    virtual ~Backend() = default;
    virtual void* get(size_t n, size_t a) = 0;
    virtual void  put(void* p, size_t n, size_t a) = 0;
    virtual void  reset() = 0;
    virtual void  release() = 0;
};

// The memory resource a solver is given. Every allocation is one of the session's; the contract is checked here.
struct Resource final : std::pmr::memory_resource {
    const char* role = ""; int index = 0; bool one_size = false;
    std::unique_ptr<Backend> backend;
    struct Live { size_t n, a; };
    std::map<void*, Live> live;
    size_t live_bytes = 0, peak_bytes = 0, live_blocks = 0, peak_blocks = 0, only_n = 0, only_a = 0;
    int* first_failed_reset = nullptr; uint64_t* failed_at_reset = nullptr;
    // Of the set: how many nodes are held, as blocks of the homogeneous and blocks of one size of the heterogeneous resource.
    struct Nodes {
        size_t homo = 0, peak = 0, base = 0; std::array<size_t, 128> hetero{};
        size_t now() const { return homo + *std::max_element(hetero.begin(), hetero.end()); }
        void add(bool one_size, size_t n) { if (one_size) { ++homo; } else if (n < hetero.size()) { ++hetero[n]; } peak = std::max(peak, now()); }
        void sub(bool one_size, size_t n) { if (one_size) { --homo; } else if (n < hetero.size()) { --hetero[n]; } }
    };
    Nodes* nodes = nullptr;
    uint64_t resets = 0, resets_before = 0, releases = 0, allocations = 0;
    bool in_solve = false, fail_reset = false;
    void reset();
    void release();
private:
    void forget();
    void* do_allocate(size_t n, size_t a) override;
    void  do_deallocate(void* p, size_t n, size_t a) override;
    bool  do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

// --------------------------------------------------------------------------------------------------------- Calls --

struct Mazes;                                                     // the real mazes of a session, one per profile kind

struct Call {
    const Mazes* mazes; const Problem* problem;
    Resource *mono, *hetero, *homo; bool tiny;
    std::array<uint32_t, 4> start, end;
    uint32_t weight = 1; size_t capacity = 0, memory_limit = 0;
};

struct Answer {
    enum { OK, BAD_ALLOC, RESET_ERROR, OTHER } kind = OK;
    int reset_id = 0; std::string what;
    std::vector<std::array<uint32_t, 4>> path;
};

using Fn = void (*)(const Call&, Answer&);
struct Entry { const char* solver; Fn fn[kProfiles]; };
std::vector<Entry>& registry();
struct Register { Register(Entry e) { registry().push_back(e); } };

void yield(uint64_t what);                                        // every seam: one step, and a scheduling point

template <int D, typename I = uint32_t> using Coord = std::array<I, D>;

// A maze as the solvers see it: the library's own grid, every crossing a seam.
template <typename G> struct Seamed {
    const G& g;
    auto contains(size_t i) const { return g.contains(i); }
    template <typename T> auto operator[](T i) const -> decltype(g[i]) { yield(0x11); return g[i]; }
    template <bool Diag = false, typename T> auto get_neighbours(const T& id) const { yield(0x22); return g.template get_neighbours<Diag>(id); }
    size_t count() const { return g.count(); }
    const auto& size() const { return g.size(); }
};

template <int D, typename W> using Grid = chdr::mazes::grid<Coord<D>, W>;
using Graph = chdr::mazes::graph<uint32_t, uint32_t>;
using WideGrid = chdr::mazes::grid<Coord<2, size_t>, char>;
using WideGraph = chdr::mazes::graph<size_t, double>;

struct Mazes {
    std::unique_ptr<Grid<1, char>> byte1;
    std::unique_ptr<Grid<2, bool>> bit2;
    std::unique_ptr<Grid<2, char>> byte2;
    std::unique_ptr<Grid<3, bool>> bit3;
    std::unique_ptr<Grid<4, char>> byte4;
    std::unique_ptr<Graph> graph2;
    std::unique_ptr<WideGrid> wide2;
    std::unique_ptr<WideGraph> wgraph2;
};

template <int D, typename T = uint32_t, typename I = uint32_t> T manhattan(const Coord<D, I>& a, const Coord<D, I>& b) noexcept { yield(0x33); return chdr::heuristics::manhattan_distance<T, Coord<D, I>>(a, b); }
template <int D, typename T = uint32_t, typename I = uint32_t> T octile(const Coord<D, I>& a, const Coord<D, I>& b) noexcept { yield(0x33); return chdr::heuristics::octile_distance<T, Coord<D, I>>(a, b); }
template <int D> uint32_t chebyshev(const Coord<D>& a, const Coord<D>& b) noexcept { yield(0x33); return chdr::heuristics::chebyshev_distance<uint32_t, Coord<D>>(a, b); }
// On a graph: the difference of two nodes' distances from a third one. Consistent where all connections go both ways; elsewhere the table is empty.
struct Landmark { size_t width = 1; std::vector<double> far; };
inline Landmark landmarks[2];                                     // of the tiny mazes, of the others
template <int Tiny> double landmark(const Coord<2, size_t>& a, const Coord<2, size_t>& b) noexcept {
    yield(0x33); const auto& l = landmarks[Tiny]; const auto i = a[0] + a[1] * l.width, j = b[0] + b[1] * l.width;
    return i < l.far.size() && j < l.far.size() && l.far[i] >= 0 && l.far[j] >= 0 ? std::abs(l.far[i] - l.far[j]) : 0.0;
}
template <int D> uint32_t zero(const Coord<D>&, const Coord<D>&) noexcept { yield(0x33); return 0; }

template <typename M, int D, typename W, bool Lazy, bool NoCleanup, bool Reverse, bool Octile, typename Scalar, typename I = uint32_t, typename R = Resource> struct Params {
    using weight_type = W; using scalar_type = Scalar; using index_type = I; using coord_type = Coord<D, I>;
    using lazy_sorting = std::bool_constant<Lazy>; using no_cleanup = std::bool_constant<NoCleanup>;
    using reverse_equivalence = std::bool_constant<Reverse>; using octile_neighbours = std::bool_constant<Octile>;
    const M& maze; const coord_type start, end, size;
    scalar_type (*h)(const coord_type&, const coord_type&) noexcept;
    R *monotonic_pmr, *heterogeneous_pmr, *homogeneous_pmr;
    const scalar_type weight = 1; const size_t capacity = 0, memory_limit = 0;
};

template <int D, typename I = uint32_t> Coord<D, I> cut(const std::array<uint32_t, 4>& c) { Coord<D, I> r{}; for (int i = 0; i < D; ++i) { r[i] = c[i]; } return r; }

template <template <typename> typename S, int D, typename P, bool Args = false, typename M>
void run(const M& maze, typename P::scalar_type (*h)(const typename P::coord_type&, const typename P::coord_type&) noexcept, const Call& c, Answer& a) {
    try {
        using Solver = chdr::solvers::solver<S, P>;
        using I = typename P::index_type;
        const auto w = static_cast<typename P::scalar_type>(c.weight);
        auto r = [&] {
            if constexpr (Args) { return Solver::solve(maze, cut<D, I>(c.start), cut<D, I>(c.end), cut<D, I>(c.problem->size), h, c.mono, c.hetero, c.homo, w, c.capacity, c.memory_limit); }
            else { const P p{ maze, cut<D, I>(c.start), cut<D, I>(c.end), cut<D, I>(c.problem->size), h, c.mono, c.hetero, c.homo, w, c.capacity, c.memory_limit }; return Solver::solve(p); }
        }();
        alloc::bypass_guard _;
        for (auto& x : r) { std::array<uint32_t, 4> k{ 0, 0, 0, 0 }; for (int i = 0; i < D; ++i) { k[i] = static_cast<uint32_t>(std::min<uint64_t>(x[i], UINT32_MAX)); } a.path.push_back(k); }
    }
    catch (const std::bad_alloc&) { a.kind = Answer::BAD_ALLOC; }
    catch (const ResetError& e)   { a.kind = Answer::RESET_ERROR; a.reset_id = e.id; }
    catch (const std::exception& e) { alloc::bypass_guard _; a.kind = Answer::OTHER; a.what = e.what(); }
    catch (...) { alloc::bypass_guard _; a.kind = Answer::OTHER; a.what = "not a std::exception"; }
}

} // namespace sim::solve
