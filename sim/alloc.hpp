// The allocation seam: the global operator new/delete of the simulated process.
//
// Everything the library allocates goes through here, directly (result vectors, graph adjacency) or through the blocks
// its pools take. While armed, every allocation is numbered, checked, filled with a pattern, given exactly the alignment
// it asked for and no more, and may be made to fail. Every deallocation is checked against the allocation it belongs to.
#pragma once

#include <cstddef>
#include <cstdint>
#include <string>

namespace sim::alloc {

struct Stats {
    uint64_t allocs = 0;        // armed allocations asked for since arm()
    uint64_t failed = 0;        // of those, made to fail
    uint64_t live = 0;          // allocations made armed and not yet freed (ever)
    uint64_t live_bytes = 0;
    uint64_t peak_bytes = 0;
};

extern Stats stats;
extern uint8_t fill;                                     // pattern of fresh memory
extern void (*on_alloc)(size_t bytes);                   // called before every armed allocation (yield point)

// Fails the nth armed allocation from now (1-based; 0: none), and, if `sticky`, every one after it.
void plan_failure(uint64_t nth, bool sticky);
// Fails any allocation that would take more than `bytes` of live memory (0: no limit).
void plan_limit(uint64_t bytes);
void arm();
void disarm();
bool armed();
std::string describe_live(size_t max);                   // sizes of the live armed allocations
// The live armed allocation that holds address p (id 0: none).
struct Where { uint64_t id = 0; const void* base = nullptr; size_t size = 0; };
Where find(const void* p);
bool  is_live(uint64_t id);
void forget_live();                                      // they are somebody else's now

// While one exists (per thread), allocations are the harness's own.
struct bypass_guard { bypass_guard(); ~bypass_guard(); };

struct arm_guard { arm_guard() { arm(); } ~arm_guard() { disarm(); } };

} // namespace sim::alloc
