// Simulated OpenMP runtime: the interface compiled code uses (libomp's __kmpc_* entry points) on the deterministic scheduler.
#pragma once
#include <functional>
namespace simomp {
struct Icv { int kind = 2, chunk = 1, nthreads = 4, dyn = 0, levels = 1; };
Icv& icv();                                          // of the calling (simulated) thread
void parallel(int n, const std::function<void(int)>& f); // a parallel region of the application
int regions();
}
