// One solver, every profile. Built once per solver: -DSOLVER=astar (-DJPS for those that insist on a library grid).
#include "solve.hpp"
namespace sim::solve {
#define STR2(x) #x
#define STR(x) STR2(x)
template <typename P> using S = chdr::solvers::SOLVER<P>;
#ifdef JPS
template <typename G> using Seen = G;
template <typename G> const G& see(const G& g) { return g; }
#else
template <typename G> using Seen = Seamed<G>;
template <typename G> Seamed<G> see(const G& g) { return { g }; }
#endif
template <int D, typename W, bool L, bool N, bool R, bool O, typename T = uint32_t> void on(const Grid<D, W>& g, const Call& c, Answer& a) {
    using M = Seen<Grid<D, W>>; using P = Params<M, D, W, L, N, R, O, T>;
    const auto& m = see(g);
#ifdef JPS
    run<S, D, P>(m, octile<D, T>, c, a);
#else
    if constexpr (O) { run<S, D, P>(m, chebyshev<D>, c, a); } else { run<S, D, P, std::is_same_v<W, bool> && D == 3>(m, manhattan<D, T>, c, a); }
#endif
}
// Wide coordinates and indexes, real costs, and resources of which the solver sees no reset().
static void wide(const Call& c, Answer& a) {
    using M = Seen<WideGrid>; const auto& m = see(*c.mazes->wide2);
#ifdef JPS
    run<S, 2, Params<M, 2, char, false, false, false, true, double, size_t, std::pmr::memory_resource>>(m, octile<2, double, size_t>, c, a);
#else
    run<S, 2, Params<M, 2, char, false, false, false, false, double, size_t, std::pmr::memory_resource>>(m, manhattan<2, double, size_t>, c, a);
#endif
}
static Register reg({ STR(SOLVER), {
#ifdef JPS
    nullptr, nullptr,
    [](const Call& c, Answer& a) { on<2, char, false, true, false, true, float>(*c.mazes->byte2, c, a); },
    nullptr, nullptr,
    [](const Call& c, Answer& a) { on<2, bool, false, false, true, true, double>(*c.mazes->bit2, c, a); },
    nullptr, nullptr,
    wide, nullptr,
#else
    [](const Call& c, Answer& a) { on<1, char, false, false, true, false>(*c.mazes->byte1, c, a); },
    [](const Call& c, Answer& a) { on<2, bool, false, false, true, false>(*c.mazes->bit2, c, a); },
    [](const Call& c, Answer& a) { on<2, char, false, true, false, false, float>(*c.mazes->byte2, c, a); },
    [](const Call& c, Answer& a) { on<3, bool, false, false, true, false>(*c.mazes->bit3, c, a); },
    [](const Call& c, Answer& a) { on<4, char, false, true, true, false>(*c.mazes->byte4, c, a); },
    [](const Call& c, Answer& a) { on<2, bool, false, false, true, true>(*c.mazes->bit2, c, a); },
    [](const Call& c, Answer& a) { on<2, char, true, false, false, false>(*c.mazes->byte2, c, a); },
#ifdef NOGRAPH
    nullptr,
    wide, nullptr,
#else
    [](const Call& c, Answer& a) { run<S, 2, Params<Graph, 2, char, false, false, true, false, uint32_t>>(*c.mazes->graph2, zero<2>, c, a); },
    wide,
    [](const Call& c, Answer& a) { run<S, 2, Params<WideGraph, 2, char, false, false, false, false, double, size_t, std::pmr::memory_resource>>(*c.mazes->wgraph2, c.tiny ? landmark<1> : landmark<0>, c, a); },
#endif
#endif
} });
}
