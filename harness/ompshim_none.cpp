// Stand-in used when the deterministic runtime cannot be linked: the driver
// then runs on the system's OpenMP runtime and schedules are left to it.
#include "ompshim.hpp"
void (*shim_on_fork)(int, int) = nullptr;
void (*shim_on_begin)(int) = nullptr;
void (*shim_on_end)(int) = nullptr;
void (*shim_on_join)(int) = nullptr;
void (*shim_on_acquire)(const void*) = nullptr;
void (*shim_on_release)(const void*) = nullptr;
void (*shim_on_barrier)() = nullptr;
void shim_schedule(int, uint64_t) {}
void shim_script(const std::vector<int>&) {}
void shim_max_threads(int) {}
int shim_regions() { return 0; }
int shim_max_team() { return 1; }
long shim_switches() { return 0; }
void shim_yield() {}
int shim_tid() { return -1; }
bool shim_present() { return false; }
void shim_clock(int, uint64_t) {}
