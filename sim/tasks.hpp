// Threads, tasks and locks of the code under test, which run one at a time: the simulator chooses who goes on, at every
// seam (start and end of a task, locking, waiting, atomics, allocating, crossings into the harness) and, where the code
// under test is instrumented, at every access to memory.
#pragma once

#include "core.hpp"
#include "alloc.hpp"

namespace sim::tasks {

enum Kind { SEAM, SYNC, ACCESS };                                // how often another one goes on differs
struct Plan { int64_t seed = -1; unsigned rate = 0, access_rate = 0; std::map<uint64_t, int> pre; unsigned hardware = 4; int64_t fail_start = 0; };

void begin(const Plan& p);                                       // the calling thread becomes task 0
void end();                                                      // back to ordinary life; all others are over
int  start(std::function<void()> f);                             // throws std::system_error if starting one fails
bool over(int task);
void join(int task);                                             // waits for it
int  running();                                                  // tasks begun and not over, without task 0
int  current_task();
bool in_scheduler();
bool simulated();                                                // between begin and end
void point(Kind kind = SEAM);                                    // somebody else may go on here
void wait_until(const std::function<bool()>& ready, bool once = false);   // somebody else has to, until it is so, or (once) for a while
bool chance(uint64_t n, uint64_t of);                            // decided by the schedule
unsigned hardware();
uint64_t started();

} // namespace sim::tasks
