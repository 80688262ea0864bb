// Not instrumented: what decides who runs. One thread per task, parked except for the one whose turn it is.
#include "tasks.hpp"
#include "access.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/single_threaded.h>

namespace sim::tasks {

namespace {
struct Task { sem_t sem; bool done = false, reaped = false; const std::function<bool()>* ready = nullptr; std::function<void()> f; pthread_t thread{}; int id = 0; };
bool on = false; thread_local int inside = 0;
std::vector<std::unique_ptr<Task>> all; int current = 0, leaving = 0; Plan plan; Rng rng{ 0 }; uint64_t tick = 0, begun = 0; int busy = 0;
struct Inside { Inside() { ++inside; } ~Inside() { --inside; } };

// The thread of a task that is over may still have something to give back; nobody goes on before it has.
void reap() { if (leaving) { auto& t = *all[static_cast<size_t>(leaving)]; leaving = 0; pthread_join(t.thread, nullptr); t.reaped = true; } }
void wait(int i) { while (sem_wait(&all[static_cast<size_t>(i)]->sem)) {} reap(); }
void go(int next) {
    const int me = current; if (next == me) { return; }
    current = next; count("context_switches"); event(0x5C, static_cast<uint64_t>(next)); sem_post(&all[static_cast<size_t>(next)]->sem); wait(me);
}
bool can(int i) { if (i < 0 || i >= static_cast<int>(all.size())) { return false; } auto& t = *all[static_cast<size_t>(i)]; return !t.done && (!t.ready || (*t.ready)()); }
int next_of(int i) { for (size_t k = 0; k < all.size(); ++k) { int j = (i + static_cast<int>(k)) % static_cast<int>(all.size()); if (can(j)) { return j; } } violation("deadlock", "everything waits, and nothing is left that could end the waiting"); }
int any() { int c[64], n = 0; for (size_t i = 0; i < all.size(); ++i) { if (can(static_cast<int>(i))) { c[n++] = static_cast<int>(i); } } return n ? c[rng.below(static_cast<uint64_t>(n))] : -1; }
void note(int next) { if (g->nsched < Shm::kSched) { g->sched[g->nsched][0] = tick; g->sched[g->nsched][1] = static_cast<uint64_t>(next); ++g->nsched; } }
// The running task cannot go on, or need not.
int elsewhere(int from) {
    int next = next_of(from);
    if (plan.seed >= 0) { if (int r = any(); r >= 0 && r != next) { next = r; note(next); } }
    else if (auto it = plan.pre.find(tick); it != plan.pre.end() && can(it->second)) { next = it->second; }
    return next;
}

void* body(void* p) {
    auto* t = static_cast<Task*>(p); while (sem_wait(&t->sem)) {} reap();      // until then, the others really run
    pthread_attr_t a; void* stack = nullptr; size_t size = 0;
    if (Inside _; !pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &stack, &size); pthread_attr_destroy(&a); access::fresh(stack, size); }
    { alloc::arm_guard _; t->f(); }
    Inside _; alloc::bypass_guard __;
    t->f = nullptr; t->done = true; --busy; event(0xE7D, static_cast<uint64_t>(t->id)); ++tick;
    current = elsewhere(t->id); leaving = t->id; sem_post(&all[static_cast<size_t>(current)]->sem);
    return nullptr;
}
} // namespace

void point(Kind kind) {
    if (!on || inside || !alloc::armed()) { return; }
    Inside _; alloc::bypass_guard __; if (kind == SYNC) { step(); } ++tick; if (busy == 0) { return; }
    int next = current;
    if (plan.seed >= 0) {
        if (kind == ACCESS ? rng.chance(plan.access_rate, 100000) : kind == SYNC ? rng.chance(std::max(plan.rate, 250u), 1000) : rng.chance(plan.rate, 1000)) { next = any(); if (next != current) { note(next); } }
    }
    else if (auto it = plan.pre.find(tick); it != plan.pre.end() && can(it->second)) { next = it->second; }
    go(next);
}
void wait_until(const std::function<bool()>& ready, bool once) {
    if (!on || inside) { return; }
    Inside _; alloc::bypass_guard __;
    if (once) { if (!ready()) { step(); ++tick; go(elsewhere(current)); } return; }
    while (!ready()) { step(); ++tick; auto& t = *all[static_cast<size_t>(current)]; t.ready = &ready; const int next = elsewhere(current); go(next); t.ready = nullptr; }
}
bool chance(uint64_t n, uint64_t of) {
    if (!on || inside) { return false; }
    Inside _; alloc::bypass_guard __; ++tick;
    if (plan.seed < 0) { return plan.pre.count(tick); }
    const bool yes = rng.chance(static_cast<unsigned>(n), static_cast<unsigned>(of)); if (yes) { note(1); } return yes;
}
int start(std::function<void()> f) {
    point();
    Inside _; alloc::bypass_guard __;
    ++begun; event(0x57A, begun);
    if (plan.fail_start && static_cast<int64_t>(begun) >= plan.fail_start) { count("fault.thread_not_started"); throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); }
    if (all.size() >= 64) { throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); }
    auto t = std::make_unique<Task>(); auto* p = t.get(); p->id = static_cast<int>(all.size()); p->f = std::move(f); sem_init(&p->sem, 0, 0); all.push_back(std::move(t)); ++busy; count("tasks");
    access::started(current, p->id);
    if (pthread_create(&p->thread, nullptr, body, p)) { std::abort(); }
    return p->id;
}
bool over(int task) { return task <= 0 || all[static_cast<size_t>(task)]->done; }
void join(int task) { if (task <= 0) { return; } const std::function<bool()> ready = [task] { return over(task); }; wait_until(ready); access::joined(current, task); }
int running() { return busy; }
int current_task() { return current; }
bool simulated() { return on; }
bool in_scheduler() { return inside > 0; }
unsigned hardware() { return plan.hardware; }
uint64_t started() { return begun; }
void begin(const Plan& p) {
    Inside _; alloc::bypass_guard __;
    plan = p; rng = Rng(static_cast<uint64_t>(std::max<int64_t>(p.seed, 0))); __libc_single_threaded = 0; tick = begun = 0; busy = current = leaving = 0; all.clear();
    auto t = std::make_unique<Task>(); sem_init(&t->sem, 0, 0); all.push_back(std::move(t)); on = true;
    alloc::on_alloc = [](size_t) { point(); }; access::begin();
}
void end() {
    Inside _; alloc::bypass_guard __; on = false; alloc::on_alloc = nullptr; access::end(); reap();
    for (size_t i = 1; i < all.size(); ++i) { if (all[i]->done && !all[i]->reaped) { pthread_join(all[i]->thread, nullptr); } }
    for (auto& t : all) { sem_destroy(&t->sem); } all.clear();
}

} // namespace sim::tasks
