// Simulated threads: every thread is a real one, but only the holder of the baton runs, and the seeded
// scheduler decides at instrumented memory accesses and synchronisation points who gets it next.
// Happens-before of all accesses is tracked with vector clocks (data-race detection).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace sched {
void setup();                                     // draws the scheduling strategy of this run
void set_window();                                // draws where a burst of preemptions goes
void callers(int n, const std::function<void(int)> &body);  // n caller threads to completion
void set_env_threads(int n);                      // what the simulated runtime reports as omp_get_max_threads
void draw_environment();       // HIF_NUM_THREADS and OMP_NUM_THREADS, also senseless ones (before any caller runs)
void set_limit(int max_team, bool varying);       // what it delivers: at most max_team (0 = as asked); varying: any smaller team
void set_nested(bool on);                         // nested regions get more than one thread
void block_freed(void *p, size_t n);              // called by the allocator
void block_allocated(void *p, size_t n);
void foreign_access(const void *p, size_t n, bool write);  // library code that is not instrumented (LAPACK)
void point();                                     // explicit scheduling point
uint64_t regions();                               // parallel regions with more than one thread so far
uint64_t regions_asked();                         // parallel regions entered
uint64_t switches();
uint64_t accesses();
struct Mute {                                     // harness bookkeeping: no scheduling, no race detection
  Mute();
  ~Mute();
};
}  // namespace sched
