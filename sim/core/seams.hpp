// Seams: pthread, clocks, sleeping, allocation and stdio as seen by the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
struct ClockCfg {
    int cpuMode = 0;        // 0: proportional to executed steps, 1: coarse (always equal), 2: arbitrary durations, 3: quantised 10ms, 4: equal non-zero steps
    int wallMode = 0;       // 0: steady, 1: wall clock (not monotonic) jumps
    int monoMode = 0;       // 0: proportional to steps, 1: arbitrary non-negative increments
};
extern ClockCfg g_clock;
// simulated heap of the generated code and the pool
void heapInit();
bool heapOwns(const void* p);
bool cppOwns(const void* p);
void* cppAlloc(size_t n);
void cppFree(void* p);
size_t cppLiveBlocks();
size_t cppMark();
enum Placement { PLACE_UP, PLACE_DOWN, PLACE_RANDOM, PLACE_RECYCLE };
void setPlacement(Placement p, uint64_t seed);
void leakReport(size_t from);
size_t cppLiveBytes();
void heapCheck(const void* p, size_t n, bool write, const char* what);
size_t heapLiveBlocks();
size_t heapLiveBytes();
uint64_t heapAllocs();
void* heapAlloc(size_t n);
void heapFree(void* p);
int liveThreadsIn(const void* lo, const void* hi); // simulated threads not finished whose start routine is in [lo,hi)
int livePthreads();
void pthreadReset();
extern bool g_newFaults;    // operator new may fail (counted on simulated threads only)
}
