// The three pool resources under histories of allocate/deallocate/reset/release/move with a failing upstream.
//   P01 blocks: disjoint, aligned, intact.   P02 failure and ownership.   P03 reuse after reset/deallocate.
#include "core.hpp"
#include "alloc.hpp"
#include "chdr.hpp"

using namespace sim;

namespace {

struct Box {                                            // a pool of some type, at a chosen address
    virtual ~Box() = default;
    virtual std::pmr::memory_resource& res() = 0;
    virtual void reset() = 0;
    virtual void release() = 0;
    virtual void move_from(Box& other) = 0;             // move assignment, same type
    virtual void remake_from(Box& other) = 0;           // destroy, then move construction
    virtual bool inside(const void* p) const = 0;
};

template <typename P> struct BoxOf final : Box {
    // The storage has the alignment the type asks for and no more.
    static constexpr size_t A = std::max<size_t>(alignof(P), 16);
    char* raw; void* at; P* p; size_t off;
    template <typename... Args> explicit BoxOf(size_t offset, Args&&... args) : off(offset) {
        { alloc::bypass_guard _; raw = static_cast<char*>(::operator new(sizeof(P) + 8192)); }
        auto base = (reinterpret_cast<uintptr_t>(raw) + 4095) / 4096 * 4096 + (off % 64) * A;
        at = reinterpret_cast<void*>(base);
        std::memset(at, alloc::fill, sizeof(P));
        p = new (at) P(std::forward<Args>(args)...);
    }
    ~BoxOf() override { p->~P(); alloc::bypass_guard _; ::operator delete(raw); }
    std::pmr::memory_resource& res() override { return *p; }
    void reset() override { p->reset(); }
    void release() override { p->release(); }
    void move_from(Box& o) override { *p = std::move(*static_cast<BoxOf&>(o).p); }
    void remake_from(Box& o) override { p->~P(); p = new (at) P(std::move(*static_cast<BoxOf&>(o).p)); }
    bool inside(const void* q) const override { return q >= at && q < static_cast<char*>(at) + sizeof(P); }
};

constexpr size_t kMax = std::numeric_limits<size_t>::max();
enum Kind { MONO, HOMO, HETERO };
struct Flavour { Kind kind; const char* name; size_t width_limit; };
const Flavour kFlavours[] = {
    { MONO,   "monotonic<4096>",            kMax }, { MONO,   "monotonic<64,32,1024>",        kMax }, { MONO,   "monotonic<1000>", kMax },
    { HOMO,   "homogeneous<4096>",          4096 }, { HOMO,   "homogeneous<100,kMax,512>",     512 }, { HOMO,   "homogeneous<512>", 256 }, { HOMO,   "homogeneous<64,kMax,65536>(200)", 200 },
    { HETERO, "heterogeneous<4096>",        kMax }, { HETERO, "heterogeneous<64,32,1024>",    kMax }, { HETERO, "heterogeneous<1000,kMax,65536,false>", kMax },
};
constexpr size_t kNumFlavours = sizeof kFlavours / sizeof *kFlavours;

std::unique_ptr<Box> make(size_t f, size_t off) {
    switch (f) {
        case 0:  return std::make_unique<BoxOf<chdr::monotonic_pool<>>>(off);
        case 1:  return std::make_unique<BoxOf<chdr::monotonic_pool<64, 32, 1024>>>(off, size_t(128));
        case 2:  return std::make_unique<BoxOf<chdr::monotonic_pool<1000>>>(off, size_t(700));
        case 3:  return std::make_unique<BoxOf<chdr::homogeneous_pool<>>>(off);
        case 4:  return std::make_unique<BoxOf<chdr::homogeneous_pool<100, kMax, 512>>>(off, size_t(4096), size_t(1));
        case 5:  return std::make_unique<BoxOf<chdr::homogeneous_pool<512>>>(off, size_t(256), size_t(2));
        case 6:  return std::make_unique<BoxOf<chdr::homogeneous_pool<64>>>(off, size_t(200), size_t(3));
        case 7:  return std::make_unique<BoxOf<chdr::heterogeneous_pool<>>>(off);
        case 8:  return std::make_unique<BoxOf<chdr::heterogeneous_pool<64, 32, 1024>>>(off, size_t(128), size_t(1));
        default: return std::make_unique<BoxOf<chdr::heterogeneous_pool<1000, kMax, 65536, false>>>(off, size_t(700), size_t(2));
    }
}

struct Block { char* p; size_t n, align; int pool; uint64_t upstream; uint32_t serial; };

struct World {
    const Scenario& s; const Flavour& fl; size_t flavour;
    std::unique_ptr<Box> box[2];
    std::vector<Block> live; uint32_t serial = 0;
    std::map<uint64_t, size_t> upstream[2];                   // upstream allocations that held handed-out blocks, per pool
    size_t homo_size, homo_align;
    bool faulted = false;

    World(const Scenario& sc) : s(sc), fl(kFlavours[static_cast<size_t>(sc.get("flavour")) % kNumFlavours]), flavour(static_cast<size_t>(sc.get("flavour")) % kNumFlavours) {
        homo_size = 1 + static_cast<size_t>(s.get("size", 32)) % fl.width_limit;
        homo_align = size_t(1) << (s.get("align", 3) % 8);
        if (fl.kind == HOMO) { while (homo_align > homo_size && homo_align > 1 && homo_align * 2 > fl.width_limit) { homo_align /= 2; } homo_size = std::min((homo_size), fl.width_limit); }
    }
    static char pat(uint32_t serial, size_t i) { return static_cast<char>(serial * 37 + i * 11 + 5); }

    void verify(const Block& b, const char* when) {
        for (size_t i = 0; i < b.n; ++i) {
            if (b.p[i] != pat(b.serial, i)) { violation("block-overwritten", std::string("byte ") + std::to_string(i) + " of live block #" + std::to_string(b.serial) + " (" + std::to_string(b.n) + " bytes, alignment " + std::to_string(b.align) + ") of " + fl.name + " changed, seen " + when); }
        }
    }
    void verify_all(const char* when) { for (auto& b : live) { verify(b, when); } }
    void drop(int pool) { live.erase(std::remove_if(live.begin(), live.end(), [&](const Block& b) { return b.pool == pool; }), live.end()); }

    std::unique_ptr<Box> construct(size_t off) {
        const auto failed_before = alloc::stats.failed;
        try { alloc::arm_guard _; return make(flavour, off); }
        catch (const std::bad_alloc&) { if (alloc::stats.failed == failed_before) { violation("spurious-failure", "constructing a pool threw although no allocation below it failed"); } count("construct_failed"); }
        return nullptr;
    }
    bool allocate(int pool, size_t n, size_t align) {
        if (fl.kind == HOMO) { n = homo_size; align = homo_align; }
        const auto failed_before = alloc::stats.failed; void* p = nullptr; bool threw = false;
        try { alloc::arm_guard _; p = box[pool]->res().allocate(n, align); }
        catch (const std::bad_alloc&) { threw = true; }
        catch (...) { violation("wrong-exception", "allocate threw something that is not std::bad_alloc"); }
        const bool fault = alloc::stats.failed != failed_before;
        event(threw ? 0xBAD : 0x600D, n);
        if (threw) {
            if (!fault) { violation("spurious-failure", "allocate(" + std::to_string(n) + ", " + std::to_string(align) + ") of " + fl.name + " threw although no allocation below it failed"); }
            count("allocate_failed"); verify_all("after a failed allocation"); return false;
        }
        if (fault) { count("survived_upstream_failure"); }
        if (!p) { violation("null-block", "allocate(" + std::to_string(n) + ") returned null"); }
        if (reinterpret_cast<uintptr_t>(p) % align) { violation("misaligned-block", "allocate(" + std::to_string(n) + ", " + std::to_string(align) + ") of " + fl.name + " returned an address that is " + std::to_string(reinterpret_cast<uintptr_t>(p) % align) + " past that alignment"); }
        auto* c = static_cast<char*>(p);
        for (auto& b : live) {
            if (c < b.p + b.n && b.p < c + n) { violation("overlapping-blocks", "allocate(" + std::to_string(n) + ", " + std::to_string(align) + ") of " + fl.name + " returned memory that overlaps live block #" + std::to_string(b.serial) + " (" + std::to_string(b.n) + " bytes)"); }
        }
        uint64_t up = 0;
        if (box[pool]->inside(c)) {
            if (!box[pool]->inside(c + n - 1)) { violation("block-outside-pool", "a block starts inside the pool's own buffer and ends outside the pool"); }
            count("from_own_buffer");
        }
        else {
            auto w = alloc::find(c);
            if (!w.id) { violation("block-outside-pool", "allocate(" + std::to_string(n) + ") of " + fl.name + " returned memory that is neither in the pool nor in anything it has allocated"); }
            if (c + n > static_cast<const char*>(w.base) + w.size) { violation("block-outside-pool", "allocate(" + std::to_string(n) + ", " + std::to_string(align) + ") of " + fl.name + " returned memory that ends beyond the upstream block of " + std::to_string(w.size) + " bytes it is in"); }
            up = w.id; upstream[pool][up] = w.size; count("from_upstream");
        }
        ++serial; for (size_t i = 0; i < n; ++i) { c[i] = pat(serial, i); }
        live.push_back({ c, n, align, pool, up, serial });
        return true;
    }
    // Far more than there is: bad_alloc, and nothing else happens.
    void huge(int pool, size_t n, size_t align) {
        if (fl.kind == HOMO) { return; }                // its block width is a documented bound
        bool threw = false;
        try { alloc::arm_guard _; alloc::plan_limit(1 << 24); (void)box[pool]->res().allocate(n, align); }
        catch (const std::bad_alloc&) { threw = true; }
        catch (...) { violation("wrong-exception", "allocate threw something that is not std::bad_alloc"); }
        alloc::plan_limit(0);
        if (!threw) { violation("impossible-allocation", "allocate(" + std::to_string(n) + ", " + std::to_string(align) + ") of " + fl.name + " succeeded"); }
        count("fault.huge_request");
    }
    void deallocate(size_t i) {
        Block b = live[i]; verify(b, "at its deallocation"); live.erase(live.begin() + static_cast<long>(i));
        try { alloc::arm_guard _; box[b.pool]->res().deallocate(b.p, b.n, b.align); }
        catch (...) { violation("deallocate-threw", std::string("deallocate of ") + fl.name + " threw"); }
        event(0xDEA1, b.n);
    }
    // What has just been given back is enough for the same request again.
    void swap(size_t i) {
        if (fl.kind == MONO) { return; }
        const Block b = live[i]; deallocate(i);
        const auto before = upstream[b.pool]; const auto bytes = alloc::stats.live_bytes;
        if (!allocate(b.pool, b.n, b.align)) { return; }
        const auto up = live.back().upstream;
        if (up && !before.count(up) && alloc::stats.live_bytes > bytes) { violation("no-reuse", std::string(fl.name) + ": a block of " + std::to_string(b.n) + " bytes was given back, and the next request for as much took new memory from upstream"); }
        count("swaps");
    }
    void release(int pool) {
        drop(pool);
        try { alloc::arm_guard _; box[pool]->release(); } catch (...) { violation("release-threw", "release() threw"); }
        for (auto [id, size] : upstream[pool]) { if (alloc::is_live(id)) { violation("release-keeps-memory", std::string("release() of ") + fl.name + " did not return an upstream block that blocks had been handed out from"); } }
        upstream[pool].clear();
    }
    size_t footprint(int pool) {
        size_t n = 0;
        for (auto it = upstream[pool].begin(); it != upstream[pool].end();) { if (alloc::is_live(it->first)) { n += it->second; ++it; } else { it = upstream[pool].erase(it); } }
        return n;
    }
    void reset(int pool) {
        drop(pool);
        try { alloc::arm_guard _; box[pool]->reset(); } catch (...) { violation("reset-threw", "reset() threw"); }
    }
    // Blocks in the moved-from pool's own buffer cannot survive; those upstream stay valid and change hands.
    void moved(int dst, int src) {
        drop(dst);
        live.erase(std::remove_if(live.begin(), live.end(), [&](const Block& b) { return b.pool == src && !b.upstream; }), live.end());
        for (auto& b : live) { if (b.pool == src) { b.pool = dst; } }
        upstream[dst] = upstream[src]; upstream[src].clear();
    }
    void signature() {
        uint64_t h = mix(flavour + 1); std::vector<std::pair<size_t, size_t>> v;
        for (auto& b : live) { h = mix(h ^ (b.n * 131 + b.align + (b.upstream ? 7 : 0))); }
        state(h);
    }
};

int64_t pick_align(Rng& r) { return r.chance(3, 4) ? r.range(0, 4) : r.range(0, 8); }
int64_t pick_size(Rng& r, bool) { switch (r.below(6)) { case 0: return r.range(1, 8); case 1: return r.range(1, 64); case 2: return r.range(1, 300); case 3: return r.range(900, 1200); case 4: return r.range(1, 5000); default: return 1 << r.range(0, 13); } }

Scenario gen(Rng& r, bool thorough, int prop) {
    Scenario s; const bool faults = prop == 2 || (prop == 1 && r.chance(1, 3));
    s.cfg["flavour"] = static_cast<int64_t>(r.below(kNumFlavours)); s.cfg["fill"] = r.chance(1, 3) ? 0 : r.range(0, 255); s.cfg["offset"] = r.range(0, 63);
    s.cfg["size"] = r.chance(1, 2) ? r.range(15, 64) : r.range(0, 255); s.cfg["align"] = r.chance(4, 5) ? r.range(0, 4) : r.range(0, 6);
    const int64_t n = 1 + r.skewed(thorough ? 300 : 140); const bool over = r.chance(1, 4); const int big = r.chance(1, 6);
    const bool many = r.chance(1, 50);
    const unsigned frees = static_cast<unsigned>(r.below(60)), resets = static_cast<unsigned>(r.below(6)), moves = r.chance(1, 3) ? 5 : 0;
    for (int64_t i = 0; i < (many ? n / 8 + 1 : n); ++i) {
        const auto d = r.below(100); const int64_t pool = r.chance(1, 4);
        if (faults && r.chance(1, 6)) { s.ops.push_back({ "fail", { r.chance(2, 3) ? 1 : r.range(1, 6), r.chance(1, 3) } }); }
        if (many && r.chance(1, 2)) { if (r.chance(1, 3)) { s.ops.push_back({ "thin", { r.range(0, 1000) } }); } else { s.ops.push_back({ "burst", { pool, r.range(1, 64), r.range(0, 4), r.range(50, 1500) } }); } continue; }
        if (d < frees) { s.ops.push_back({ "free", { r.chance(1, 3) ? 1000000 : r.range(0, 1000) } }); }
        else if (d < frees + resets) { s.ops.push_back({ r.chance(2, 3) ? "reset" : "release", { pool } }); }
        else if (prop <= 2 && r.chance(1, 60)) { s.ops.push_back({ "huge", { pool, r.chance(1, 2) ? r.range(0, 300) : r.range(0, 1LL << 40), r.range(0, 8) } }); }
        else if (prop <= 2 && r.chance(1, 60)) { s.ops.push_back({ "make", { pool, r.range(0, 63) } }); }
        else if (d < frees + resets + moves) { s.ops.push_back({ r.chance(1, 2) ? "move" : "remake", { pool } }); }
        else { s.ops.push_back({ "alloc", { pool, big ? r.range(1, 70000) : pick_size(r, false), over ? r.range(0, 8) : pick_align(r) } }); }
    }
    return s;
}

void exec(const Scenario& s) {
    World w(s); scope(w.fl.name); alloc::fill = static_cast<uint8_t>(s.get("fill")); g_step_budget = 2000000; g_step_what = "pool operations";
    const auto base = alloc::stats.live;
    { alloc::arm_guard _; for (int i = 0; i < 2; ++i) { alloc::plan_failure(0, false); auto off = static_cast<size_t>(s.get("offset") + i * 5); { w.box[i] = make(w.flavour, off); } } }
    int did = 0;
    for (auto& op : s.ops) {
        step();
        const int pool = op.arg(0) & 1;
        if (op.kind == "alloc") { did += w.allocate(pool, std::max<size_t>(1, static_cast<size_t>(op.arg(1))), size_t(1) << (op.arg(2) % 9)); alloc::plan_failure(0, false); }
        else if (op.kind == "burst") { for (int64_t k = 0; k < op.arg(3) && w.allocate(pool, std::max<size_t>(1, static_cast<size_t>(op.arg(1))), size_t(1) << (op.arg(2) % 9)); ++k) { ++did; } alloc::plan_failure(0, false); }
        else if (op.kind == "thin") { for (size_t i = w.live.size(); i-- > 0;) { if (mix(static_cast<uint64_t>(op.arg(0)) + i) % 3) { w.deallocate(i); } } alloc::plan_failure(0, false); }
        else if (op.kind == "free") { if (!w.live.empty()) { ++did; w.deallocate(std::min<size_t>(w.live.size() - 1, op.arg(0) >= 1000000 ? w.live.size() - 1 : static_cast<size_t>(op.arg(0)) % w.live.size())); count("frees"); } alloc::plan_failure(0, false); }
        else if (op.kind == "reset") { w.reset(pool); count("resets"); alloc::plan_failure(0, false); }
        else if (op.kind == "release") { w.release(pool); count("releases"); alloc::plan_failure(0, false); }
        else if (op.kind == "move") { alloc::plan_failure(0, false); { alloc::arm_guard _; w.box[pool]->move_from(*w.box[!pool]); } w.moved(pool, !pool); count("moves"); }
        else if (op.kind == "remake") { alloc::plan_failure(0, false); { alloc::arm_guard _; w.box[pool]->remake_from(*w.box[!pool]); } w.moved(pool, !pool); count("moves"); }
        else if (op.kind == "huge") { alloc::plan_failure(0, false); w.huge(pool, std::numeric_limits<size_t>::max() - static_cast<size_t>(std::max<int64_t>(0, op.arg(1))), size_t(1) << (op.arg(2) % 9)); }
        else if (op.kind == "make") {                   // replaced by a new pool, which may fail to construct
            auto fresh = w.construct(static_cast<size_t>(op.arg(1)));
            if (fresh) { w.drop(pool); { alloc::arm_guard _; w.box[pool] = std::move(fresh); } w.upstream[pool].clear(); count("constructed"); }
            alloc::plan_failure(0, false);
        }
        else if (op.kind == "fail") { alloc::plan_failure(static_cast<uint64_t>(std::max<int64_t>(1, op.arg(0))), op.arg(1) & 1); }
        event(std::hash<std::string>{}(op.kind)); w.verify_all("after an operation"); w.signature();
    }
    alloc::plan_failure(0, false);
    w.verify_all("at the end");
    for (int i = 0; i < 2; ++i) { w.allocate(i, 24, 8); }                           // still usable
    w.verify_all("at the end");
    { alloc::arm_guard _; w.box[0].reset(); w.box[1].reset(); }
    if (alloc::stats.live != base) { violation("leak", std::string("destroying two ") + w.fl.name + " left upstream memory: " + alloc::describe_live(8)); }
    if (did >= 2) { nontrivial(); }
}

// P03: the same workload again and again, with reset() (or individual deallocation) in between, must settle: once warm,
// it takes no more memory from upstream.
Scenario gen_reuse(Rng& r, bool thorough) {
    Scenario s; s.cfg["flavour"] = static_cast<int64_t>(r.below(kNumFlavours)); s.cfg["fill"] = r.range(0, 255); s.cfg["offset"] = r.range(0, 63);
    s.cfg["size"] = r.range(7, 90); s.cfg["align"] = r.range(0, 4);
    s.cfg["mode"] = r.range(0, 2);                      // 0 reset, 1 free each in order, 2 free in reverse
    const int64_t n = r.chance(1, 4) ? r.range(1, 400) : r.range(1, thorough ? 120 : 60); const bool big = r.chance(1, 3);
    for (int64_t i = 0; i < n; ++i) {
        if (r.chance(1, 5)) { s.ops.push_back({ r.chance(1, 2) ? "free" : "swap", { r.range(0, 1000) } }); }
        else { s.ops.push_back({ "alloc", { 0, big ? r.range(1, 9000) : r.range(1, 300), r.range(0, 4) } }); }
    }
    return s;
}

void exec_reuse(const Scenario& s) {
    World w(s); const auto mode = s.get("mode") % 3;
    scope(std::string(w.fl.name) + (mode ? "/deallocate" : "/reset")); alloc::fill = static_cast<uint8_t>(s.get("fill")); g_step_budget = 20000000;
    const auto base = alloc::stats.live;
    { alloc::arm_guard _; w.box[0] = make(w.flavour, static_cast<size_t>(s.get("offset"))); }
    if (w.fl.kind == MONO && mode) { alloc::arm_guard _; w.box[0].reset(); return; }     // a monotonic pool recycles nothing, by definition
    const int kCycles = 40, kWarm = 20; uint64_t warm = 0, peak = 0, first = 0; int did = 0;
    for (int c = 0; c < kCycles; ++c) {
        for (auto& op : s.ops) {
            step();
            if (op.kind == "alloc") { ++did; w.allocate(0, std::max<size_t>(1, static_cast<size_t>(op.arg(1))), size_t(1) << (op.arg(2) % 9)); }
            else if (op.kind == "swap") { if (!w.live.empty()) { w.swap(static_cast<size_t>(op.arg(0)) % w.live.size()); } }
            else if (!w.live.empty()) { w.deallocate(static_cast<size_t>(op.arg(0)) % w.live.size()); }
        }
        peak = std::max<uint64_t>(peak, w.footprint(0));
        if (c == 0) { first = w.footprint(0); }
        if (mode == 0) { w.reset(0); }
        else { while (!w.live.empty()) { w.deallocate(mode == 1 ? 0 : w.live.size() - 1); } }
        event(w.footprint(0));
        if (c == kWarm) { warm = peak; }
    }
    // Which piece a heterogeneous pool splits depends on what was given back before: it may need some cycles more.
    if (peak > warm && !(w.fl.kind == HETERO && mode)) { violation("no-reuse", std::string(w.fl.name) + ": cycle 1 needed " + std::to_string(first) + " bytes of upstream blocks, after " + std::to_string(kWarm) + " identical cycles the pool held " + std::to_string(warm) + ", after " + std::to_string(kCycles) + " " + std::to_string(peak)); }
    if (first && peak > 4 * first + 131072) { violation("footprint-blowup", std::string(w.fl.name) + ": cycle 1 needed " + std::to_string(first) + " upstream bytes; repeating it took the pool to " + std::to_string(peak)); }
    state(mix(first) ^ peak);
    w.release(0);
    { alloc::arm_guard _; w.box[0].reset(); }
    if (alloc::stats.live != base) { violation("leak", "destroying the pool left upstream memory: " + alloc::describe_live(8)); }
    if (first) { nontrivial(); count("cycles_with_upstream_blocks"); }
}

} // namespace

int main(int argc, char** argv) {
    const std::string comp = "real: monotonic_pool, homogeneous_pool, heterogeneous_pool (nine instantiations). simulated: the upstream (global operator new/delete) and the address each pool lives at. no stubs.";
    return main_for({
        { "P01", [](Rng& r, bool t) { return gen(r, t, 1); }, exec, 40000, 3000000, "one run: a history of allocate/deallocate/reset/release/move on two pools of one type with seeded sizes, alignments, pool address and upstream failures; non-trivial: at least two blocks were handed out or given back; distinct by event-log hash", comp },
        { "P02", [](Rng& r, bool t) { return gen(r, t, 2); }, exec, 40000, 3000000, "one run: a history as for P01 in which upstream allocations fail at seeded points inside operations; non-trivial: at least two blocks were handed out or given back; distinct by event-log hash", comp },
        { "P03", gen_reuse, exec_reuse, 6000, 300000, "one run: one workload of allocations and deallocations repeated for 40 cycles on one pool, with reset() or individual deallocation in between; non-trivial: the workload needed upstream memory; distinct by event-log hash", comp },
    }, argc, argv);
}
