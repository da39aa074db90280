#include "sched.hpp"
#include "seams.hpp"
#include <cstdlib>
#include <new>

// the simulator's own objects (their references to operator new/delete are renamed to these)
extern "C" {
static void* own(size_t n) {
    void* p = ::malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void* own_Znwm(size_t n) { return own(n); }
void* own_Znam(size_t n) { return own(n); }
static void ownDel(void* p) { if (p && sim::cppOwns(p)) sim::cppFree(p); else ::free(p); }
void own_ZdlPv(void* p) { ownDel(p); }
void own_ZdaPv(void* p) { ownDel(p); }
void own_ZdlPvm(void* p, size_t) { ownDel(p); }
void own_ZdaPvm(void* p, size_t) { ownDel(p); }
}

// operator new seam (C++ part of the system)
using namespace sim;
bool (*sim_newFilter)() = nullptr;   // may restrict which allocations fail
static inline void del(void* p) {
    if (!p) return;
    if (cppOwns(p)) cppFree(p);
    else ::free(p);
}
static void* newImpl(size_t n, bool nothrow) {
    if (g_newFaults && t_own == 0 && active() && fault('n', C_BADALLOC, sim_newFilter)) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (t_own == 0 && active()) return cppAlloc(n);
    void* p = ::malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return newImpl(n, false); }
void* operator new[](size_t n) { return newImpl(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return newImpl(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return newImpl(n, true); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
