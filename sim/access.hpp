// What the code under test reads and writes while several tasks are simulated. In a build with -DACCESSES (and the code
// under test compiled with -fsanitize=thread, whose calls end up here instead of in a race detector's own runtime) every
// access is a place where another task may go on, and is checked: it must lie within live memory, and what another task
// wrote, or reads, must be ordered with it by starting, ending, locking or atomics, not merely by the schedule at hand.
#pragma once

#include <cstddef>

namespace sim::access {

void begin();                                                    // task 0 is the calling one, and alone
void end();
void started(int parent, int child);                             // what the parent did before is ordered before the child
void joined(int me, int child);                                  // what the child did is ordered before what comes now
void acquire(const void* what);                                  // ordered after every release of it
void release(const void* what);
void fresh(const void* p, size_t n);                             // new memory: nothing known about it
void poison(const void* p, size_t n);
void unpoison(const void* p, size_t n);

} // namespace sim::access
