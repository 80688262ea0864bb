#include "access.hpp"
#include "core.hpp"
#include "alloc.hpp"
#include "tasks.hpp"

#ifndef ACCESSES

namespace sim::access {
void begin() {} void end() {} void started(int, int) {} void joined(int, int) {} void acquire(const void*) {} void release(const void*) {}
void fresh(const void*, size_t) {} void poison(const void*, size_t) {} void unpoison(const void*, size_t) {} }

#else

#include <cxxabi.h>
#include <dlfcn.h>
#include <future>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <thread>
#include <time.h>

namespace sim::access {

namespace {

constexpr int kTasks = 64;
// Per eight bytes: up to four accesses (who, at which of its times, which bytes), and the bytes that are no memory.
struct Slot { uint32_t time; uint8_t task, mask, write, used; const void* pc; };
struct Cell { Slot s[4]; uint8_t bad, next; };
struct Page { Cell c[512]; };

bool on = false, checking = false;
struct Checking { bool was = checking; Checking() { checking = true; } ~Checking() { checking = was; } };
uint32_t now[kTasks][kTasks];                                    // what each task knows of each other's time
struct Sync { uint32_t t[kTasks]; };
std::map<uintptr_t, Sync>* syncs = nullptr;

constexpr size_t kTable = 1 << 17, kPages = 60000;
struct Ref { uintptr_t key; Page* page; };
Ref table[kTable]; uint32_t filled[kPages]; size_t nfilled = 0; Page* pages = nullptr; Ref last{ 0, nullptr };

Page* page_of(uintptr_t key, bool make) {
    if (last.key == key && last.page) { return last.page; }
    for (size_t i = mix(key) & (kTable - 1);; i = (i + 1) & (kTable - 1)) {
        if (table[i].page && table[i].key == key) { last = table[i]; return table[i].page; }
        if (table[i].page) { continue; }
        if (!make || nfilled == kPages) { return nullptr; }
        auto* p = &pages[nfilled]; std::memset(static_cast<void*>(p), 0, sizeof *p);
        table[i] = { key, p }; filled[nfilled++] = static_cast<uint32_t>(i); last = table[i]; return p;
    }
}
template <typename F> void cells(uintptr_t a, size_t n, bool make, F&& f) {
    Checking _;
    const auto e = a + n;
    while (a < e) {
        const auto stop = std::min(e, (a | 4095) + 1); auto* p = page_of(a >> 12, make);
        if (!p) { a = stop; continue; }
        while (a < stop) {
            const auto upto = std::min(stop, (a | 7) + 1); const auto mask = static_cast<uint8_t>(((1u << (upto - a)) - 1) << (a & 7));
            f(p->c[(a & 4095) >> 3], mask); a = upto;
        }
    }
}
std::string where(const void* pc) {
    Dl_info d; if (!pc || !dladdr(pc, &d) || !d.dli_sname) { return "?"; }
    int st = 0; char* n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = n ? n : d.dli_sname; std::free(n);
    return s.size() > 300 ? s.substr(0, 300) + "..." : s;
}
[[noreturn]] void race(const Slot& o, int me, bool write, const void* pc, size_t n) {
    alloc::bypass_guard _;
    violation("data-race", "task " + std::to_string(me) + (write ? " writes" : " reads") + " (" + std::to_string(n) + " bytes) what task " + std::to_string(o.task) + (o.write ? " wrote" : " read") + ", and nothing orders the two; now in " + where(pc) + "; before in " + where(o.pc));
}
void check(uintptr_t a, size_t n, bool write, const void* pc) {
    const auto* shm = reinterpret_cast<const char*>(g); const auto* p = reinterpret_cast<const char*>(a);
    if (p >= shm && p < shm + sizeof(Shm)) { return; }
    const int me = tasks::current_task(); const auto* know = now[me];
    cells(a, n, true, [&](Cell& c, uint8_t mask) {
        if (c.bad & mask) { alloc::bypass_guard _; violation("invalid-access", std::string(write ? "a write" : "a read") + " of " + std::to_string(n) + " bytes outside of live memory, in " + where(pc)); }
        Slot* to = nullptr;
        for (auto& s : c.s) {
            if (!s.used) { if (!to) { to = &s; } continue; }
            const bool before = s.task == me || s.time <= know[s.task];
            if (!before && (s.mask & mask) && (write || s.write)) { race(s, me, write, pc, n); }
            if (before && !(s.mask & ~mask) && (write || !s.write)) { if (to && to->used) { s.used = 0; } else { to = &s; } }
        }
        if (!to) { to = &c.s[c.next++ & 3]; }
        *to = { know[me], static_cast<uint8_t>(me), mask, write, 1, pc };
    });
}

} // namespace

bool busy() { return on && !checking && alloc::armed() && !tasks::in_scheduler(); }
void touch(const void* p, size_t n, bool write, const void* pc) { if (!busy() || !n) { return; } tasks::point(tasks::ACCESS); check(reinterpret_cast<uintptr_t>(p), n, write, pc); }
void wrote(const void* p, size_t n) { if (on && n && !tasks::in_scheduler()) { check(reinterpret_cast<uintptr_t>(p), n, true, nullptr); } }

void begin() {
    alloc::bypass_guard _;
    if (!pages) { pages = static_cast<Page*>(mmap(nullptr, sizeof(Page) * kPages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (pages == MAP_FAILED) { std::abort(); } }
    for (size_t i = 0; i < nfilled; ++i) { table[filled[i]] = { 0, nullptr }; }
    nfilled = 0; last = { 0, nullptr }; std::memset(now, 0, sizeof now); now[0][0] = 1; delete syncs; syncs = new std::map<uintptr_t, Sync>; on = true;
}
void end() { on = false; }
void started(int parent, int child) { if (!on) { return; } std::memcpy(now[child], now[parent], sizeof now[0]); now[child][child] = 1; ++now[parent][parent]; }
void joined(int me, int child) { if (!on) { return; } for (int i = 0; i < kTasks; ++i) { now[me][i] = std::max(now[me][i], now[child][i]); } }
void acquire(const void* w) {
    if (!on) { return; } alloc::bypass_guard _; auto it = syncs->find(reinterpret_cast<uintptr_t>(w)); if (it == syncs->end()) { return; }
    auto* k = now[tasks::current_task()]; for (int i = 0; i < kTasks; ++i) { k[i] = std::max(k[i], it->second.t[i]); }
}
void release(const void* w) {
    if (!on) { return; } alloc::bypass_guard _; auto& s = (*syncs)[reinterpret_cast<uintptr_t>(w)]; const int me = tasks::current_task();
    for (int i = 0; i < kTasks; ++i) { s.t[i] = std::max(s.t[i], now[me][i]); } ++now[me][me];
}
void fresh(const void* p, size_t n) {
    if (!on || !n) { return; } cells(reinterpret_cast<uintptr_t>(p), n, false, [](Cell& c, uint8_t mask) { if (mask == 255) { c = Cell{}; } else { c.bad &= static_cast<uint8_t>(~mask); for (auto& s : c.s) { s.mask &= static_cast<uint8_t>(~mask); if (!s.mask) { s.used = 0; } } } });
}
void poison(const void* p, size_t n) { if (on && n) { cells(reinterpret_cast<uintptr_t>(p), n, true, [](Cell& c, uint8_t m) { c.bad |= m; }); } }
void unpoison(const void* p, size_t n) { if (on && n) { cells(reinterpret_cast<uintptr_t>(p), n, true, [](Cell& c, uint8_t m) { c.bad &= static_cast<uint8_t>(~m); }); } }

// An atomic operation: a place to switch; ordered with every other one on the same object, whatever order it asks for.
struct Atomic {
    const void* p; bool live;
    explicit Atomic(const volatile void* q) : p(const_cast<const void*>(q)), live(busy()) { if (live) { tasks::point(tasks::SYNC); acquire(p); } }
    ~Atomic() { if (live) { release(p); } }
};

} // namespace sim::access

using namespace sim;
template <typename F> static F* real(const char* name) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name)); }

// ---- what -fsanitize=thread makes the compiler call ----
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define PLAIN(n) \
    void __tsan_read##n(void* p) { access::touch(p, n, false, PC); } void __tsan_write##n(void* p) { access::touch(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access::touch(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access::touch(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access::touch(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access::touch(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access::touch(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access::touch(p, n, true, PC); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void* p, size_t n) { access::touch(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access::touch(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { access::touch(p, 8, *p != v, PC); }
void __tsan_vptr_read(void** p) { access::touch(p, 8, false, PC); }
#define ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access::Atomic _(p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access::Atomic _(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access::Atomic _(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access::Atomic _(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access::Atomic _(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access::Atomic _(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void* m, unsigned, int) { if (access::busy()) { access::acquire(m); } }
int  __tsan_mutex_pre_unlock(void* m, unsigned) { if (access::busy()) { access::release(m); } return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void* p) { if (access::busy()) { access::acquire(p); } }
void __tsan_release(void* p) { if (access::busy()) { access::release(p); } }

// ---- the same for what is copied and compared elsewhere (linked with --wrap) ----
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access::touch(s, n, false, PC); access::touch(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access::touch(s, n, false, PC); access::touch(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access::touch(d, n, true, PC); return __real_memset(d, c, n); }
int   __wrap_memcmp(const void* a, const void* b, size_t n) { access::touch(a, n, false, PC); access::touch(b, n, false, PC); return __real_memcmp(a, b, n); }

// ---- memory that does not come from operator new ----
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) { access::fresh(p, n); } return p; }
void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); if (p) { access::fresh(p, n * m); } return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); if (p) { access::fresh(p, n); } return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) { access::fresh(p, n); } return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int   posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) { return ENOMEM; } *r = p; return 0; }
void  free(void* p) { __libc_free(p); }

// ---- waiting for one another: a parked task must not hold up the others for real ----
// Only one task runs at a time, so these need no atomics; outside of a simulation there is one thread, and no waiting.
static const auto held = [](auto* m) -> int& { return *reinterpret_cast<int*>(m); };
static bool again(pthread_mutex_t* m) { if (!held(m) || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE || m->__data.__owner != tasks::current_task() + 1) { return false; } ++m->__data.__count; return true; }
static void take(pthread_mutex_t* m) { held(m) = 1; m->__data.__owner = tasks::current_task() + 1; m->__data.__count = 1; access::acquire(m); }
int pthread_mutex_lock(pthread_mutex_t* m) { if (again(m)) { return 0; } tasks::point(tasks::SYNC); tasks::wait_until([m] { return !held(m); }); take(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (again(m)) { return 0; } tasks::point(tasks::SYNC); if (held(m)) { return EBUSY; } take(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (m->__data.__count && --m->__data.__count) { return 0; } access::release(m); held(m) = 0; m->__data.__owner = 0; tasks::point(tasks::SYNC); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { tasks::point(tasks::SYNC); tasks::wait_until([m] { return held(m) >= 0; }); ++held(m); access::acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { tasks::point(tasks::SYNC); tasks::wait_until([m] { return !held(m); }); held(m) = -1; access::acquire(m); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { tasks::point(tasks::SYNC); if (held(m) < 0) { return EBUSY; } ++held(m); access::acquire(m); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { tasks::point(tasks::SYNC); if (held(m)) { return EBUSY; } held(m) = -1; access::acquire(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { access::release(m); if (held(m) < 0) { held(m) = 0; } else { --held(m); } tasks::point(tasks::SYNC); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    tasks::point(tasks::SYNC); tasks::wait_until([o] { return *o != 1; });
    if (*o == 0) { struct Undo { pthread_once_t* o; ~Undo() { if (o) { *o = 0; } } } u{ o }; *o = 1; f(); u.o = nullptr; access::release(o); *o = 2; }
    access::acquire(o); return 0;
}
// ---- threads: the ones that the code under test starts, by whatever means of the standard library, are tasks ----
static bool ours() { return tasks::simulated() && !tasks::in_scheduler() && alloc::armed(); }
static pthread_t as_thread(int task) { return static_cast<pthread_t>(task + 1); }
static int as_task(pthread_t t) { return static_cast<int>(t) - 1; }

int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (!ours()) { static auto* r = real<int(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return r(t, a, f, x); }
    try { *t = as_thread(tasks::start([f, x] { (void)f(x); })); } catch (const std::system_error&) { return EAGAIN; }
    return 0;
}
int pthread_join(pthread_t t, void** result) {
    if (!ours()) { static auto* r = real<int(pthread_t, void**)>("pthread_join"); return r(t, result); }
    tasks::point(tasks::SYNC); tasks::join(as_task(t)); if (result) { *result = nullptr; } return 0;
}
int pthread_detach(pthread_t t) { if (!ours()) { static auto* r = real<int(pthread_t)>("pthread_detach"); return r(t); } return 0; }
pthread_t pthread_self() { if (!ours()) { static auto* r = real<pthread_t()>("pthread_self"); return r(); } return as_thread(tasks::current_task()); }
int sched_yield() { tasks::point(tasks::SYNC); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { tasks::point(tasks::SYNC); return 0; }       // any time may pass between any two steps
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { tasks::point(tasks::SYNC); return 0; }

// Who waits on a condition. One who waits may be let go for nothing, and which one a signal lets go is not said.
using Waiting = std::vector<int>;
static std::map<const void*, Waiting>& conditions() { static auto* m = new std::map<const void*, Waiting>; return *m; }
static bool waits(const void* c, int who) { alloc::bypass_guard _; auto& w = conditions()[c]; return std::find(w.begin(), w.end(), who) != w.end(); }
static void let_go(const void* c, bool all) {
    access::release(c);
    { alloc::bypass_guard _; auto& w = conditions()[c]; if (all) { w.clear(); } else if (!w.empty()) { size_t i = 0; while (i + 1 < w.size() && tasks::chance(1, 3)) { ++i; } w.erase(w.begin() + static_cast<long>(i)); } }
    tasks::point(tasks::SYNC);
}
static int wait_on(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    const int me = tasks::current_task(); { alloc::bypass_guard _; conditions()[c].push_back(me); }
    const auto depth = m->__data.__count; m->__data.__count = 1; pthread_mutex_unlock(m);
    if (tasks::chance(1, timed ? 4 : 16)) { alloc::bypass_guard _; count(timed ? "fault.timeout" : "fault.spurious_wakeup"); } else { tasks::wait_until([&] { return !waits(c, me); }, timed); }
    const bool let = !waits(c, me); if (!let) { alloc::bypass_guard _; auto& w = conditions()[c]; w.erase(std::find(w.begin(), w.end(), me)); }
    pthread_mutex_lock(m); m->__data.__count = depth; access::acquire(c); return timed && !let ? ETIMEDOUT : 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { alloc::bypass_guard _; conditions().erase(c); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return wait_on(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return wait_on(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return wait_on(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { let_go(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { let_go(c, true); return 0; }

}

// Statics of functions.
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(__cxxabiv1::__guard* o) {
    auto* b = reinterpret_cast<volatile uint8_t*>(o); tasks::point(tasks::SYNC); tasks::wait_until([b] { return b[0] || !b[1]; });
    access::acquire(o); if (b[0]) { return 0; } b[1] = 1; return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* o) noexcept { auto* b = reinterpret_cast<volatile uint8_t*>(o); access::release(o); b[0] = 1; b[1] = 0; tasks::point(tasks::SYNC); }
void __cxa_guard_abort(__cxxabiv1::__guard* o) noexcept { auto* b = reinterpret_cast<volatile uint8_t*>(o); access::release(o); b[1] = 0; }
} }

// What a future waits on, and the number of processors.
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds) {
    tasks::point(tasks::SYNC); if (timed && tasks::chance(1, 4)) { alloc::bypass_guard _; sim::count("fault.timeout"); return false; }
    tasks::wait_until([a, v] { return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }, timed); access::acquire(a); return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timed, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { access::release(a); tasks::point(tasks::SYNC); }
unsigned thread::hardware_concurrency() noexcept { return tasks::hardware(); }
}

#endif
