// P21: a grid, under histories of edits with failing allocations, against a plain array of cells.
#include "containers.hpp"

namespace {

template <typename W> struct Cell { static W make(int64_t v) { return v % 4 == 0 ? std::numeric_limits<W>::max() : static_cast<W>(static_cast<uint64_t>(v) % (static_cast<uint64_t>(std::numeric_limits<W>::max()) + 1)); } };
template <> struct Cell<bool> { static bool make(int64_t v) { return v % 4 == 0; } };

template <typename C, typename W> void grids(const Scenario& s, const char* name) {
    using Grid = chdr::mazes::grid<C, W>; using V = typename C::value_type; constexpr size_t D = std::tuple_size_v<C>;
    scope(std::string("grid/") + name); Session w(s);
    {
        struct Model { C size{}; std::vector<W> cells; };
        std::unique_ptr<Grid> x[2]; Model m[2]; int did = 0;
        auto made = [&](int64_t a, int64_t b) {
            Model n; size_t count = 1; uint64_t r = mix(static_cast<uint64_t>(a) * 1000003 + static_cast<uint64_t>(b));
            const bool vast = mix(r) % 40 == 0;
            for (size_t d = 0; d < D; ++d) { const uint64_t most = vast && (r >> 50) % D == d ? (D == 1 ? 70000 : 700) : D == 1 ? 90 : D == 2 ? 12 : D == 3 ? 6 : D == 4 ? 4 : 3; n.size[d] = static_cast<V>(1 + (r >> (d * 8)) % most); count *= static_cast<size_t>(n.size[d]); }
            for (size_t i = 0; i < count; ++i) { n.cells.push_back(Cell<W>::make(static_cast<int64_t>(mix(r + i) >> 8))); } return n;
        };
        auto active = [](const Model& n, size_t i) { return n.cells[i] != std::numeric_limits<W>::max(); };
        auto at = [](const Model& n, const C& c) { size_t i = 0, k = 1; for (size_t d = 0; d < D; ++d) { i += static_cast<size_t>(c[d]) * k; k *= static_cast<size_t>(n.size[d]); } return i; };
        auto coord = [](const Model& n, size_t i) { C c{}; for (size_t d = 0; d < D; ++d) { c[d] = static_cast<V>(i % static_cast<size_t>(n.size[d])); i /= static_cast<size_t>(n.size[d]); } return c; };
        auto text = [](const C& c) { std::string t = "("; for (size_t d = 0; d < D; ++d) { t += (d ? "," : "") + std::to_string(c[d]); } return t + ")"; };
        // The neighbours, by a step of at most one in each direction; along the axes only, or any.
        auto around = [&](const Model& n, const C& c, bool diagonal) {
            std::vector<C> v; size_t total = 1; for (size_t d = 0; d < D; ++d) { total *= 3; }
            for (size_t k = 0; k < total; ++k) {
                C o = c; bool in = true; int moved = 0; size_t rest = k;
                for (size_t d = 0; d < D; ++d) { const int step = static_cast<int>(rest % 3) - 1; rest /= 3; if (!step) { continue; } ++moved; if ((step < 0 && c[d] == 0) || (step > 0 && c[d] + 1 >= n.size[d])) { in = false; break; } o[d] = static_cast<V>(step < 0 ? c[d] - 1 : c[d] + 1); }
                if (in && moved && (diagonal || moved == 1) && active(n, at(n, o))) { v.push_back(o); }
            }
            std::sort(v.begin(), v.end()); return v;
        };
        auto verify = [&](int k, uint64_t salt) {
            const Grid& g2 = *x[k]; const auto& n = m[k]; const size_t count = n.cells.size();
            auto fail = [&](const char* cls, const std::string& t) { violation(cls, t + " in a grid of " + text(n.size)); };
            if (g2.size() != n.size || g2.count() != count) { fail("wrong-size", "size() is " + text(g2.size()) + ", count() is " + std::to_string(g2.count())); }
            if (g2.nodes().size() != count || !std::equal(n.cells.begin(), n.cells.end(), g2.nodes().begin())) { fail("wrong-cells", "nodes() are not those given"); }
            if (!std::equal(n.cells.begin(), n.cells.end(), g2.begin(), g2.end()) || !std::equal(n.cells.rbegin(), n.cells.rend(), g2.rbegin(), g2.rend())) { fail("wrong-cells", "the iterators show other cells"); }
            if (g2.contains(count) || g2.contains(count + static_cast<size_t>(salt % 50)) || !g2.contains(static_cast<size_t>(salt % count))) { fail("wrong-bounds", "contains(index)"); }
            for (size_t d = 0; d < D; ++d) { C c = coord(n, salt % count); if (!g2.contains(c)) { fail("wrong-bounds", "contains" + text(c) + " denies it"); } c[d] = static_cast<V>(n.size[d] + static_cast<V>(salt % 3)); if (g2.contains(c)) { fail("wrong-bounds", "contains" + text(c) + " claims it"); } }
            for (size_t j = 0; j < std::min<size_t>(count, 12); ++j) {
                const size_t i = j < 2 ? (j ? count - 1 : 0) : mix(salt + j) % count; const C c = coord(n, i); const std::string where = " of " + text(c);
                if (g2[c].is_active() != active(n, i) || g2[i].is_active() != active(n, i) || g2[c].value() != n.cells[i] || g2[static_cast<V>(i)].value() != n.cells[i]) { fail("wrong-cell", "the cell" + where); }
                auto shown = [&](const auto& l, const char* what, bool diagonal) {
                    std::vector<C> v; for (const auto& [on, o] : l) { if (on) { v.push_back(o); } }
                    std::sort(v.begin(), v.end()); if (v != around(n, c, diagonal)) { std::string t; for (auto& o : v) { t += " " + text(o); } t += ", not"; for (auto& o : around(n, c, diagonal)) { t += " " + text(o); } fail("wrong-neighbours", std::string(what) + where + " are" + t); }
                };
                shown(g2.get_neighbours(c), "the neighbours along the axes", false); shown(g2.get_neighbours(static_cast<V>(i)), "the neighbours along the axes, by index,", false);
                shown(g2.template get_neighbours<true>(c), "all neighbours", true); shown(g2.template get_neighbours<true>(static_cast<V>(i)), "all neighbours, by index,", true);
                if (const bool two = around(n, c, false).size() == 2; g2.is_transitory(i) != two || [&] { typename Grid::neighbours_t l{}; size_t q = 0; for (const auto& e : g2.get_neighbours(c)) { l[q++] = e; } return g2.is_transitory(l); }() != two) { fail("wrong-transitory", "is_transitory()" + where); }
                C dir{}; size_t rest = mix(salt * 3 + j); int moved = 0; C o = c; bool in = true; for (size_t d = 0; d < D; ++d) { dir[d] = static_cast<V>(rest % 3); rest /= 3; moved += dir[d] != 1; if ((dir[d] == 0 && c[d] == 0) || (dir[d] == 2 && c[d] + 1 >= n.size[d])) { in = false; } o[d] = static_cast<V>(c[d] + dir[d] - 1); }
                const auto [on, to] = g2.check_neighbour(c, dir); if (on != (in && active(n, at(n, o))) || (on && to != o)) { fail("wrong-neighbours", "check_neighbour()" + where + " towards " + text(dir)); }
            }
            uint64_t h = 3; for (auto v : n.cells) { h = mix(h ^ static_cast<uint64_t>(v)); } state(h ^ D);
        };
        for (int k = 0; k < 2; ++k) { m[k] = made(s.get("first"), k); x[k] = std::make_unique<Grid>(m[k].size, static_cast<const std::vector<W>&>(m[k].cells)); }
        for (auto& op : s.ops) {
            const int k = op.arg(0) & 1; auto& n = m[k]; Result r = DONE;
            if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(1))), op.arg(2) & 1); continue; }
            if (op.kind == "make") {
                Model o = made(op.arg(1), op.arg(2)); std::vector<W> given = o.cells;
                if (op.arg(2) % 3 == 0) { o.cells.assign(o.cells.size(), W{}); }
                r = attempt("construct", [&] { std::unique_ptr<Grid> g2; switch (op.arg(2) % 3) { case 0: g2 = std::make_unique<Grid>(o.size); break; case 1: g2 = std::make_unique<Grid>(o.size, static_cast<const std::vector<W>&>(given)); break; default: g2 = std::make_unique<Grid>(o.size, std::move(given)); } x[k] = std::move(g2); });
                if (r == DONE) { n = o; ++did; }
            }
            else if (op.kind == "nodes") { auto o = n; for (size_t i = 0; i < o.cells.size(); ++i) { if (mix(static_cast<uint64_t>(op.arg(1)) + i) % 3 == 0) { o.cells[i] = Cell<W>::make(op.arg(2) + static_cast<int64_t>(i)); } } if (attempt("nodes", [&] { x[k]->nodes(o.cells); }) == DONE) { n = o; ++did; } }
            else if (op.kind == "write") {
                const auto i = static_cast<size_t>(op.arg(1)) % n.cells.size(); const W v = Cell<W>::make(op.arg(2)); n.cells[i] = v; ++did;
                attempt("write", [&] { if (op.arg(2) & 1) { *(x[k]->begin() + static_cast<long>(i)) = v; } else { *(x[k]->rend() - 1 - static_cast<long>(i)) = v; } });
            }
            else if (op.kind == "move") { alloc::plan_failure(0, false); attempt("move", [&] { x[k] = std::make_unique<Grid>(std::move(*x[!k])); }); n = m[!k]; auto o = made(op.arg(1), op.arg(2)); x[!k] = std::make_unique<Grid>(o.size, o.cells); m[!k] = o; }
            else if (op.kind == "moveassign") { attempt("move assignment", [&] { *x[k] = std::move(*x[!k]); }); n = m[!k]; auto o = made(op.arg(1), op.arg(2)); *x[!k] = Grid(o.size, o.cells); m[!k] = o; }
            event(n.cells.size(), static_cast<uint64_t>(r)); alloc::plan_failure(0, false); verify(0, static_cast<uint64_t>(op.arg(2))); verify(1, static_cast<uint64_t>(op.arg(1)));
        }
        if (did >= 2) { nontrivial(); }
        attempt("destroy", [&] { x[0].reset(); x[1].reset(); });
    }
    w.over("grid");
}

Scenario gen_grid(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = r.range(0, 8); s.cfg["fill"] = r.range(0, 255); s.cfg["first"] = r.range(0, 1000000); const int64_t n = 1 + r.skewed(thorough ? 60 : 25); const bool faults = r.chance(1, 2);
    for (int64_t i = 0; i < n; ++i) {
        if (faults && r.chance(1, 3)) { s.ops.push_back({ "fail", { r.range(0, 1), r.range(1, 3), r.range(0, 1) } }); }
        s.ops.push_back({ r.pick(std::vector<std::string>{ "make", "nodes", "write", "write", "write", "write", "move", "moveassign" }), { r.range(0, 1), r.range(0, 100000), r.range(0, 100000) } });
    }
    return s;
}
void exec_grid(const Scenario& s) {
    switch (s.get("flavour") % 9) {
        case 0: return grids<chdr::coord<uint32_t, 2>, bool>(s, "bool-2d"); case 1: return grids<chdr::coord<uint32_t, 2>, char>(s, "char-2d"); case 2: return grids<chdr::coord<size_t, 3>, bool>(s, "bool-3d-size_t");
        case 3: return grids<chdr::coord<uint32_t, 3>, uint8_t>(s, "uint8-3d"); case 4: return grids<chdr::coord<uint32_t, 1>, bool>(s, "bool-1d"); case 5: return grids<chdr::coord<size_t, 1>, int16_t>(s, "int16-1d-size_t");
        case 6: return grids<chdr::coord<uint32_t, 4>, uint32_t>(s, "uint32-4d"); case 7: return grids<chdr::coord<uint64_t, 5>, char>(s, "char-5d-uint64"); default: return grids<chdr::coord<uint32_t, 5>, bool>(s, "bool-5d");
    }
}

} // namespace

int main(int argc, char** argv) {
    const std::string real = "real: the grid and its nodes, the standard containers below them; simulated: operator new/delete; no stubs";
    const std::string rule = "one history of operations on two grids of one type, drawn from the seed: dimensions, sizes, cell type, contents, replacements, writes, moves, failing allocations; distinct by the hash of the event log; non-trivial if at least two operations changed something";
    return main_for({ { "P21", gen_grid, exec_grid, 25000, 400000, rule, real } }, argc, argv);
}
