#include "alloc.hpp"
#include "core.hpp"

#include <cstdlib>
#include <cstring>
#include <new>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define NO_ASAN __attribute__((no_sanitize_address, noinline))
#else
#include "access.hpp"
#define ASAN_POISON_MEMORY_REGION(p, n) sim::access::poison(p, n)
#define ASAN_UNPOISON_MEMORY_REGION(p, n) sim::access::unpoison(p, n)
#define NO_ASAN __attribute__((noinline))
#endif

namespace sim::alloc {

Stats stats;
uint8_t fill = 0xA5;
void (*on_alloc)(size_t) = nullptr;

namespace {

constexpr uint32_t kLive = 0x51A17E55, kDead = 0xDEADF00D;

struct Header {
    void* raw; uint64_t size; uint64_t align; Header* prev; Header* next; uint32_t magic; uint32_t armed; uint64_t id; uint64_t pad;
};
static_assert(sizeof(Header) % 16 == 0);

Header head{ nullptr, 0, 0, &head, &head, 0, 0, 0, 0 };
thread_local int is_armed = 0; uint64_t next_id = 0;
uint64_t fail_at = 0, limit = 0; bool fail_sticky = false;
thread_local int bypass = 0;

// A short queue of freed blocks, kept poisoned and filled, so that use after free shows.
constexpr size_t kQuarantine = 512;
void* quarantine[kQuarantine]; size_t qpos = 0;

NO_ASAN void init_header(Header* h, void* raw, size_t size, size_t align, bool armed) {
    h->raw = raw; h->size = size; h->align = align; h->magic = kLive; h->armed = armed; h->id = armed ? ++next_id : 0;
    h->prev = h->next = nullptr;
    if (armed) { h->next = head.next; h->prev = &head; head.next->prev = h; head.next = h; }
}
NO_ASAN bool retire_header(Header* h, size_t& size, size_t& align, bool& armed, void*& raw) {
    if (h->magic != kLive) { return false; }
    size = h->size; align = h->align; armed = h->armed; raw = h->raw; h->magic = kDead;
    if (h->armed) { h->prev->next = h->next; h->next->prev = h->prev; }
    return true;
}
NO_ASAN uint32_t magic_of(Header* h) { return h->magic; }

void* get(size_t size, size_t align, bool nothrow) {
    const bool mine = is_armed > 0 && bypass == 0;
    if (mine) {
        if (on_alloc) { on_alloc(size); }
        ++stats.allocs; sim::step();
        bool fail = false;
        if (fail_at && (stats.allocs == fail_at || (fail_sticky && stats.allocs > fail_at))) { fail = true; sim::count("fault.global_allocation_failed"); }
        else if (limit && stats.live_bytes + size > limit) { fail = true; sim::count("fault.memory_limit_reached"); }
        else if (size > (size_t(1) << 30)) { fail = true; sim::count("oversized_request"); }
        if (fail) { ++stats.failed; sim::event(0xFA11, stats.allocs); if (nothrow) { return nullptr; } throw std::bad_alloc(); }
    }
    if (align < 16) { align = 16; }
    if (size > SIZE_MAX - 4096 - 4 * align) { if (nothrow) { return nullptr; } throw std::bad_alloc(); }
    const size_t total = size + 3 * align + sizeof(Header) + 32;
    auto* raw = static_cast<char*>(std::malloc(total));
    if (!raw) { if (nothrow) { return nullptr; } throw std::bad_alloc(); }
    auto at = reinterpret_cast<uintptr_t>(raw) + sizeof(Header);
    at = (at + 2 * align - 1) / (2 * align) * (2 * align) + align;          // aligned to `align` and to no more
    if (at - 2 * align >= reinterpret_cast<uintptr_t>(raw) + sizeof(Header)) { at -= 2 * align; }
    auto* p = reinterpret_cast<char*>(at);
    auto* h = reinterpret_cast<Header*>(p - sizeof(Header));
    init_header(h, raw, size, align, mine);
    if (mine) {
        std::memset(p, fill, size);
        ++stats.live; stats.live_bytes += size; stats.peak_bytes = std::max(stats.peak_bytes, stats.live_bytes);
        sim::event(0xA110C, size);
    }
    ASAN_POISON_MEMORY_REGION(raw, static_cast<size_t>(p - raw));
    ASAN_POISON_MEMORY_REGION(p + size, static_cast<size_t>(raw + total - (p + size)));
    return p;
}

void put(void* p, size_t size, size_t align) {
    if (!p) { return; }
    auto* h = reinterpret_cast<Header*>(static_cast<char*>(p) - sizeof(Header));
    size_t hsize, halign; bool harmed; void* raw;
    if (!retire_header(h, hsize, halign, harmed, raw)) {
        bypass_guard _;
        if (sim::g && sim::g->in_run) { sim::violation(magic_of(h) == kDead ? "double-free" : "bad-free", "memory given back to the system allocator that is not live there"); }
        std::abort();
    }
    if (sim::g && sim::g->in_run && harmed) {
        if (align < 16) { align = 16; }
        if ((size != SIZE_MAX && size != hsize) || align != halign) {
            bypass_guard _;
            sim::violation("mismatched-free", "allocated with size " + std::to_string(hsize) + " alignment " + std::to_string(halign) + ", given back with size " + (size == SIZE_MAX ? std::string("(unsized)") : std::to_string(size)) + " alignment " + std::to_string(align));
        }
        sim::event(0xF4EE, hsize);
    }
    if (harmed) {
        --stats.live; stats.live_bytes -= hsize;
        std::memset(p, 0xDD, hsize);
        ASAN_POISON_MEMORY_REGION(p, hsize);
        void* old = quarantine[qpos]; quarantine[qpos] = raw; qpos = (qpos + 1) % kQuarantine;
        std::free(old);
    }
    else { std::free(raw); }
}

} // namespace

void plan_failure(uint64_t nth, bool sticky) { fail_at = nth ? stats.allocs + nth : 0; fail_sticky = sticky; }
void plan_limit(uint64_t bytes) { limit = bytes; }
void arm() { ++is_armed; }
void disarm() { --is_armed; }
bool armed() { return is_armed > 0 && bypass == 0; }
bypass_guard::bypass_guard() { ++bypass; }
bypass_guard::~bypass_guard() { --bypass; }

NO_ASAN static Header* next_of(Header* h) { return h->next; }
NO_ASAN static size_t size_of(Header* h) { return h->size; }
NO_ASAN static uint64_t id_of(Header* h) { return h->id; }
NO_ASAN static void drop(Header* h) { h->armed = 0; }

std::string describe_live(size_t max) {
    bypass_guard _; std::string s; size_t n = 0;
    for (Header* h = head.next; h != &head; h = next_of(h)) { if (n++ < max) { s += std::to_string(size_of(h)) + " "; } }
    return std::to_string(n) + " live: sizes " + s;
}
Where find(const void* p) {
    for (Header* h = head.next; h != &head; h = next_of(h)) {
        auto* b = reinterpret_cast<const char*>(h) + sizeof(Header);
        if (p >= b && p < b + size_of(h)) { return { id_of(h), b, size_of(h) }; }
    }
    return {};
}
bool is_live(uint64_t id) {
    for (Header* h = head.next; h != &head; h = next_of(h)) { if (id_of(h) == id) { return true; } }
    return false;
}
void forget_live() {
    for (Header* h = head.next; h != &head;) { Header* n = next_of(h); drop(h); h = n; }
    head.next = head.prev = &head; stats.live = 0; stats.live_bytes = 0;
}

} // namespace sim::alloc

using sim::alloc::get; using sim::alloc::put;
void* operator new(size_t n) { return get(n, 16, false); }
void* operator new[](size_t n) { return get(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return get(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, static_cast<size_t>(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, static_cast<size_t>(a), true); }
void operator delete(void* p) noexcept { put(p, SIZE_MAX, 16); }
void operator delete[](void* p) noexcept { put(p, SIZE_MAX, 16); }
void operator delete(void* p, size_t n) noexcept { put(p, n, 16); }
void operator delete[](void* p, size_t n) noexcept { put(p, n, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, SIZE_MAX, static_cast<size_t>(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { put(p, SIZE_MAX, static_cast<size_t>(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { put(p, n, static_cast<size_t>(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { put(p, n, static_cast<size_t>(a)); }
