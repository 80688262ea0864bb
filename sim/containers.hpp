// What the simulators of the containers and the graph share: elements, memory resources, operations that may fail.
#pragma once

#include "core.hpp"
#include "alloc.hpp"
#include "chdr.hpp"

using namespace sim;

namespace {

// -------------------------------------------------------------------------------------------------------- Elements --

// A value with an identity, which knows where it is and whether it was moved away.
struct Elem {
    static int64_t alive;
    int64_t key = 0; uint32_t serial = 0; const Elem* self = this;
    Elem() { ++alive; }
    Elem(int64_t k, uint32_t s) : key(k), serial(s) { ++alive; }
    Elem(const Elem& o) : key(o.key), serial(o.serial) { o.check(); ++alive; }
    Elem(Elem&& o) noexcept : key(o.key), serial(o.serial) { o.check(); ++alive; o.key = -7777; o.serial = 0; }
    Elem& operator=(const Elem& o) { check(); o.check(); key = o.key; serial = o.serial; return *this; }
    Elem& operator=(Elem&& o) noexcept { check(); o.check(); auto k = o.key; auto s = o.serial; o.key = -7777; o.serial = 0; if (&o != this) { key = k; serial = s; } return *this; }
    ~Elem() { check(); self = nullptr; --alive; }
    void check() const { if (self != this) { violation("not-an-object", "an element is used that is not alive at its address"); } }
    bool operator==(const Elem& o) const { return key == o.key && serial == o.serial; }
};
int64_t Elem::alive = 0;
struct alignas(64) Wide { int64_t key; uint32_t serial; bool operator==(const Wide& o) const { return key == o.key && serial == o.serial; } };

struct Id { int64_t key; uint32_t serial; bool operator==(const Id& o) const { return key == o.key && serial == o.serial; } bool operator<(const Id& o) const { return std::tie(key, serial) < std::tie(o.key, o.serial); } };
std::string str(const Id& i) { return std::to_string(i.key) + "#" + std::to_string(i.serial); }

template <typename T> struct As;
template <> struct As<Elem> { static Elem make(Id i) { return { i.key, i.serial }; } static Id read(const Elem& e) { e.check(); return { e.key, e.serial }; } static constexpr const char* name = "tracked"; };
template <> struct As<Wide> { static Wide make(Id i) { return { i.key, i.serial }; } static Id read(const Wide& e) { return { e.key, e.serial }; } static constexpr const char* name = "aligned"; };
template <> struct As<int64_t> { static int64_t make(Id i) { return i.key * 1000000 + i.serial; } static Id read(int64_t e) { return { e / 1000000, static_cast<uint32_t>(e % 1000000) }; } static constexpr const char* name = "integer"; };
template <> struct As<std::string> {
    static std::string make(Id i) { return std::to_string(i.key) + ":" + std::to_string(i.serial) + std::string(40, 'x'); }
    static Id read(const std::string& e) { char* p = nullptr; auto k = std::strtoll(e.c_str(), &p, 10); return { k, e.empty() ? 0 : static_cast<uint32_t>(std::strtoul(p + 1, nullptr, 10)) }; }
    static constexpr const char* name = "string";
};
template <> struct As<const Id*> {
    static const Id* make(Id i) { alloc::bypass_guard _; static std::deque<Id> arena; arena.push_back(i); return &arena.back(); }
    static Id read(const Id* const& e) { return *e; } static constexpr const char* name = "pointer";
};
template <typename T> struct Less    { bool operator()(const T& a, const T& b) const { return As<T>::read(a).key < As<T>::read(b).key; } static constexpr const char* name = "less"; static constexpr bool up = true; };
template <typename T> struct Greater { bool operator()(const T& a, const T& b) const { return As<T>::read(a).key > As<T>::read(b).key; } static constexpr const char* name = "greater"; static constexpr bool up = false; };

// A memory resource of the session: its blocks are its own.
struct Res final : std::pmr::memory_resource {
    std::map<void*, std::pair<size_t, size_t>> live; uint64_t asked = 0;
    void* do_allocate(size_t n, size_t a) override { ++asked; void* p = ::operator new(n, std::align_val_t(a)); alloc::bypass_guard _; live[p] = { n, a }; return p; }
    void do_deallocate(void* p, size_t n, size_t a) override {
        {
            alloc::bypass_guard _; auto it = live.find(p);
            if (it == live.end()) { violation("foreign-block", "memory was given back to a resource that it does not come from"); }
            if (it->second != std::make_pair(n, a)) { violation("mismatched-free", "memory was given back with a size or alignment it was not allocated with"); }
            live.erase(it);
        }
        ::operator delete(p, n, std::align_val_t(a));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};

struct Session {                                                 // two resources, and the default one
    Res res[3]; std::pmr::memory_resource* old; uint64_t live0; int64_t elems0;
    explicit Session(const Scenario& s) : old(std::pmr::set_default_resource(&res[2])), live0(alloc::stats.live), elems0(Elem::alive) { alloc::fill = static_cast<uint8_t>(s.get("fill")); g_step_budget = 3000000; g_step_what = "container operations"; }
    void over(const char* what) {                                // after the containers are gone
        std::pmr::set_default_resource(old); alloc::plan_failure(0, false);
        if (Elem::alive != elems0) { violation("leaked-elements", std::string(what) + ": " + std::to_string(Elem::alive - elems0) + " elements more were constructed than destroyed"); }
        if (alloc::stats.live != live0) { violation("leak", std::string(what) + " left memory behind: " + alloc::describe_live(6)); }
    }
};
enum Result { DONE, THREW };
// One operation of the code under test. Only bad_alloc may come out of it, and only if an allocation failed.
template <typename F> Result attempt(const char* what, F&& f, bool may_exceed = false) {
    const auto failed = alloc::stats.failed; Result r = DONE; event(std::hash<std::string_view>{}(what)); step();
    try { alloc::arm_guard _; f(); }
    catch (const std::bad_alloc&) { r = THREW; }
    catch (const std::length_error&) { if (!may_exceed) { violation("wrong-exception", std::string(what) + " threw length_error"); } return THREW; }
    catch (const std::exception& e) { alloc::bypass_guard _; violation("wrong-exception", std::string(what) + " threw " + e.what()); }
    if (r == THREW && alloc::stats.failed == failed) { violation("spurious-failure", std::string(what) + " threw bad_alloc although no allocation failed"); }
    if (r == THREW) { count("operations_that_threw"); }
    alloc::plan_failure(0, false); return r;
}
uint64_t digest(const std::vector<Id>& v) { uint64_t h = 7; for (auto& i : v) { h = mix(h ^ (static_cast<uint64_t>(i.key) << 20) ^ i.serial); } return h; }
std::string show(const std::vector<Id>& v) { std::string t; for (size_t i = 0; i < v.size() && i < 30; ++i) { t += " " + str(v[i]); } return t.empty() ? " nothing" : t; }
std::vector<Id> sorted(std::vector<Id> v) { std::sort(v.begin(), v.end()); return v; }

template <typename C> std::vector<Id> contents(C& c) { std::vector<Id> v; using T = std::decay_t<decltype(*c.begin())>; for (auto it = c.begin(); it != c.end(); ++it) { v.push_back(As<T>::read(*it)); } return v; }

} // namespace
