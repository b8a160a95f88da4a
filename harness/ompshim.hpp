// Deterministic OpenMP runtime for conformance checking.
//
// Replaces libgomp at link time. Every parallel region runs its team on real
// threads, but only the holder of the baton executes; the baton changes hands
// at every call into the runtime (start/end of a region, chunk of a dynamic
// loop, atomic, critical, lock, barrier) and at explicit yield points. Which
// thread gets the baton next is decided by the schedule installed with
// shim_schedule(), so that an interleaving is a reproducible input.
#ifndef OMPSHIM_HPP
#define OMPSHIM_HPP
#include <stdint.h>
#include <vector>

enum ShimPolicy {
  SHIM_FORWARD = 0,   // thread 0 runs as long as it can, then 1, ...
  SHIM_REVERSE = 1,   // highest thread number first
  SHIM_RANDOM = 2,    // random choice at every scheduling point
  SHIM_ROUND_ROBIN = 3,
  SHIM_SCRIPT = 4,    // explicit list of choices (index among runnable threads)
  SHIM_PREFER_LAST = 5 // starve thread 0: run others first at every point
};

void shim_schedule(int policy, uint64_t seed);
void shim_script(const std::vector<int>& choices);
void shim_max_threads(int n);        // what omp_get_max_threads() reports
int  shim_regions();                 // parallel regions entered so far (team > 1)
int  shim_max_team();                // largest team so far
long shim_switches();
void shim_yield();                   // explicit scheduling point
int  shim_tid();                     // current team thread, -1 outside a region
bool shim_present();

enum ShimClock { CLOCK_REAL = 0, CLOCK_FROZEN = 1, CLOCK_TICK = 2, CLOCK_RANDOM = 3, CLOCK_MINUTES = 4, CLOCK_SKEW = 5, CLOCK_ALT = 6 };
void shim_clock(int mode, uint64_t seed);

// callbacks used by the race detector build
extern void (*shim_on_fork)(int parent, int nthreads);
extern void (*shim_on_begin)(int tid);
extern void (*shim_on_end)(int tid);
extern void (*shim_on_join)(int nthreads);
extern void (*shim_on_acquire)(const void* lock);
extern void (*shim_on_release)(const void* lock);
extern void (*shim_on_barrier)();
#endif
