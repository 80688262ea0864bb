// Simulation core: one PRNG, scenarios, event log, shared-memory run records, batch runner, minimiser, replay gate.
//
// A run is a pure function of a Scenario (a list of integers and operations). A Scenario is a pure function of
// (VERIF_SEED, run index). Nothing else may influence a run: no clock, no address, no thread the simulator does not
// schedule. Every run is executed in a forked child, so that a crash, a hang or a sanitizer report is an outcome.
#pragma once

#include <bits/stdc++.h>

namespace sim {

// ---------------------------------------------------------------------------------------------------------- PRNG --

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix(seed ^ 0xc4d5a11ULL)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t  range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1))); }
    bool     chance(unsigned num, unsigned den) { return below(den) < num; }
    // Small numbers often, large ones sometimes.
    int64_t  skewed(int64_t hi) { auto bits = below(64); (void)bits; int64_t cap = hi; for (int i = 0; i < 3 && chance(1, 2); ++i) { cap = cap / 4 + 1; } return range(0, std::min(cap, hi)); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ------------------------------------------------------------------------------------------------------ Scenario --

struct Op {
    std::string kind;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t dflt = 0) const { return i < a.size() ? a[i] : dflt; }
};

struct Scenario {
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t get(const std::string& k, int64_t dflt = 0) const { auto it = cfg.find(k); return it == cfg.end() ? dflt : it->second; }

    std::string text() const {
        std::ostringstream o;
        for (auto& [k, v] : cfg) { o << "cfg " << k << ' ' << v << '\n'; }
        for (auto& op : ops) { o << "op " << op.kind; for (auto v : op.a) { o << ' ' << v; } o << '\n'; }
        return o.str();
    }
    static Scenario parse(std::istream& in) {
        Scenario s; std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line); std::string w; l >> w;
            if (w == "next") { return s; }                        // another scenario follows
            if (w == "cfg") { std::string k; int64_t v; l >> k >> v; s.cfg[k] = v; }
            else if (w == "op") { Op op; l >> op.kind; int64_t v; while (l >> v) { op.a.push_back(v); } s.ops.push_back(op); }
        }
        return s;
    }
};

// ------------------------------------------------------------------------------- Shared memory: survives a crash --

struct Shm {
    static constexpr size_t kCounters = 512;
    static constexpr size_t kRuns     = 1 << 20;
    static constexpr size_t kStates   = 1 << 20;
    static constexpr size_t kSched    = 1 << 16;

    volatile uint64_t current;         // index of the run in progress
    volatile uint64_t in_run;
    volatile uint64_t violated;
    char  cls[160];
    char  scope[160];
    char  msg[4096];
    uint64_t hash;                     // event-log hash so far
    uint64_t events;
    uint64_t steps;                    // simulated steps of the run in progress
    uint64_t total_steps, total_events, max_cpu_ms;
    uint64_t nruns, nfinished, nontrivial;
    struct { char name[56]; uint64_t n; } ctr[kCounters];
    struct { uint64_t hash; uint64_t nontrivial; } runs[kRuns];
    uint64_t nstates, states_dropped;
    uint64_t states[kStates];          // open addressing, 0 = empty
    uint64_t nsched;                   // recorded schedule of the run in progress: (step, choice)
    uint64_t sched[kSched][2];
};

extern Shm* g;                         // of this worker

inline void event(uint64_t v) { g->hash = mix(g->hash ^ v) + 0x51ed2701; ++g->events; }
inline void event(uint64_t a, uint64_t b) { event(a); event(b); }

void count(const char* name, uint64_t n = 1);
void state(uint64_t h);                                                    // a state reached, for the coverage count

// Ends the child: the property is broken. `cls` is the stable class the minimiser keeps, `msg` is free text.
[[noreturn]] void violation(const std::string& cls, const std::string& msg);
void scope(const std::string& s);                                          // what is under test now (part of the key)
inline void nontrivial() { g->nontrivial = 1; }

// Simulated steps: every seam calls this. Beyond the budget the run has made no progress: class "no-progress".
extern uint64_t g_step_budget;
extern const char* g_step_what;
void step_slow();
inline void step() { if (++g->steps > g_step_budget) { step_slow(); } }

// ------------------------------------------------------------------------------------------------------- Harness --

struct Harness {
    const char* property;
    // Makes the scenario of one run. Must be a pure function of the Rng.
    std::function<Scenario(Rng&, bool thorough)> gen;
    // Executes one scenario. Calls violation() or returns.
    std::function<void(const Scenario&)> exec;
    uint64_t runs_quick;
    uint64_t runs_thorough;
    std::string rule;                       // for the evidence
    std::string components;                 // real code and stubs
    std::vector<std::string> frozen{};      // cfg keys the minimiser leaves alone
    uint64_t cpu_seconds = 10;              // one run may use
};

int main_for(const std::vector<Harness>& hs, int argc, char** argv);

} // namespace sim
