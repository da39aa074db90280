#include "omp_rt.hpp"
#include "omp.h"
#include "../core/sched.hpp"
#include "../core/seams.hpp"
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>

using namespace sim;
namespace simomp {
namespace {

typedef void (*micro)(int*, int*, ...);
struct Loop { int kind = 0; int64_t next = 0, ub = 0, st = 1, chunk = 1, trip = 0; int finished = 0; bool init = false; };
struct Team {
    int n = 1;
    std::map<int, Loop> loops;
    std::map<int, bool> singles;
    int barIn = 0; uint64_t barGen = 0;
    micro fn = nullptr; int argc = 0; void* args[32];
    std::function<void(int)> app;
    int remaining = 0;
};
struct St {
    Team* team = nullptr;
    int num = 0, loopSeq = 0, singleSeq = 0, pushed = 0, level = 0, active = 0;
    int64_t blockPos = 0;
    int curLoop = 0;
    Icv icv;
    // as an idle runtime thread
    Team* task = nullptr;
    int taskNum = 0;
};
St S[MAXT];
St& st() { return S[self()]; }
std::vector<int> idle;
int nRuntime = 0, nRegions = 0;

void invoke(Team* t, int num) {
    if (t->app) { t->app(num); return; }
    int gtid = self(), btid = num;
    void** a = t->args;
    switch (t->argc) {
        case 0: t->fn(&gtid, &btid); break;
        case 1: t->fn(&gtid, &btid, a[0]); break;
        case 2: t->fn(&gtid, &btid, a[0], a[1]); break;
        case 3: t->fn(&gtid, &btid, a[0], a[1], a[2]); break;
        case 4: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3]); break;
        case 5: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4]); break;
        case 6: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5]); break;
        case 7: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
        case 8: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
        case 9: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
        case 10: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
        case 11: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
        case 12: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
        case 13: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]); break;
        case 14: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13]); break;
        case 15: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]); break;
        case 16: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); break;
        case 17: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16]); break;
        case 18: t->fn(&gtid, &btid, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17]); break;
        default: infra("parallel region with %d captured variables", t->argc);
    }
}

void runtimeThread() {
    for (;;) {
        St& s = st();
        while (!s.task) blockOn(&s.task);
        Team* t = s.task;
        point();
        invoke(t, s.taskNum);
        point();
        s.task = nullptr;
        s.team = nullptr;
        idle.push_back(self());
        if (--t->remaining == 0) wakeAll(&t->remaining);
    }
}

void fork(Team* t, int want) {
    St& m = st();
    nRegions++;
    int n = want;
    if (m.active >= m.icv.levels) n = 1;                 // nested regions beyond the permitted number of levels have one thread
    if (n < 1) n = 1;
    if (n > 1 && fault('d', C_SMALLTEAM)) n = 1 + (int) choose('D', n); // fewer threads than requested (thread limit, dynamic adjustment)
    std::vector<int> mem;
    while ((int) mem.size() < n - 1) {
        if (idle.empty()) {
            if (nRuntime > 120) { n = (int) mem.size() + 1; break; }
            nRuntime++;
            int id = spawn([] { runtimeThread(); }, "omp");
            mem.push_back(id);
        } else {
            size_t k = (size_t) choose('i', (int64_t) idle.size());
            mem.push_back(idle[k]);
            idle.erase(idle.begin() + (long) k);
        }
    }
    t->n = n;
    t->remaining = n - 1;
    St saved = m;
    for (int i = 0; i < n - 1; ++i) {
        St& s = S[mem[(size_t) i]];
        s.team = t; s.num = i + 1; s.loopSeq = s.singleSeq = 0; s.pushed = 0;
        s.level = m.level + 1; s.active = m.active + (n > 1); s.icv = m.icv;
        s.taskNum = i + 1;
        s.task = t;
        wakeAll(&s.task);
    }
    m.team = t; m.num = 0; m.loopSeq = m.singleSeq = 0; m.pushed = 0; m.level++; m.active += n > 1;
    point();
    invoke(t, 0);
    point();
    while (t->remaining > 0) blockOn(&t->remaining);
    Icv now = m.icv; // the initial task of the region has its own copy in the specification
    (void) now;
    m = saved;
    m.pushed = 0;
}

Loop& loopOf(int seq) { return st().team->loops[seq]; }
Team g_serial[MAXT];

void barrier() {
    Team* t = st().team;
    point();
    if (!t || t->n == 1) return;
    uint64_t g = t->barGen;
    if (++t->barIn == t->n) { t->barIn = 0; t->barGen++; wakeAll(&t->barGen); }
    else while (t->barGen == g) blockOn(&t->barGen);
    point();
}

std::map<const void*, int> g_locks;
void lock(const void* p) { point(); while (g_locks[p]) blockOn(p); g_locks[p] = 1 + self(); }
void unlock(const void* p) { g_locks[p] = 0; wakeOne(p, 'w'); point(); }

} // namespace

Icv& icv() { return st().icv; }
int regions() { return nRegions; }
void parallel(int n, const std::function<void(int)>& f) {
    Team t;
    t.app = f;
    fork(&t, n);
}
} // namespace simomp

using namespace simomp;

extern "C" {
typedef struct ident ident_t;
int __kmpc_global_thread_num(ident_t*) { return active() ? self() : 0; }
void __kmpc_push_num_threads(ident_t*, int, int n) { st().pushed = n; }
void __kmpc_push_proc_bind(ident_t*, int, int) {}
static void forkv(int argc, micro fn, va_list ap) {
    if (argc > 31) infra("too many captured variables");
    Team t;
    t.fn = fn;
    t.argc = argc;
    for (int i = 0; i < argc; ++i) t.args[i] = va_arg(ap, void*);
    int n = st().pushed > 0 ? st().pushed : st().icv.nthreads;
    fork(&t, n);
}
void __kmpc_fork_call(ident_t*, int argc, micro fn, ...) {
    va_list ap;
    va_start(ap, fn);
    forkv(argc, fn, ap);
    va_end(ap);
}
void __kmpc_fork_call_if(ident_t*, int argc, micro fn, int cond, void* arg) {
    Team t;
    t.fn = fn; t.argc = argc ? 1 : 0; t.args[0] = arg;
    int n = st().pushed > 0 ? st().pushed : st().icv.nthreads;
    fork(&t, cond ? n : 1);
}
static std::vector<std::pair<int, St>>* g_stack = nullptr;
void __kmpc_serialized_parallel(ident_t*, int) {
    if (!g_stack) g_stack = new std::vector<std::pair<int, St>>();
    St& m = st();
    g_stack->push_back({self(), m});
    m.team = new Team();
    m.num = 0; m.loopSeq = m.singleSeq = 0; m.pushed = 0; m.level++;
}
void __kmpc_end_serialized_parallel(ident_t*, int) {
    for (size_t i = g_stack->size(); i-- > 0;)
        if ((*g_stack)[i].first == self()) {
            delete st().team;
            st() = (*g_stack)[i].second;
            st().pushed = 0;
            g_stack->erase(g_stack->begin() + (long) i);
            return;
        }
    violation("omp-misuse", "end of a serialised region that was not started");
}

// work sharing
static void dispatchInit(int sched, int64_t lb, int64_t ub, int64_t s, int64_t chunk) {
    point();
    St& m = st();
    if (!m.team) m.team = &g_serial[self()];
    m.curLoop = m.loopSeq++;
    m.blockPos = 0;
    Loop& l = loopOf(m.curLoop);
    if (l.init) return;
    l.init = true;
    int k = sched & 0x1fffffff; // without the monotonicity modifiers
    l.st = s;
    l.next = lb;
    l.ub = ub;
    l.trip = s > 0 ? (ub >= lb ? (ub - lb) / s + 1 : 0) : (lb >= ub ? (lb - ub) / -s + 1 : 0);
    if (k == 37 || k == 69) { // runtime
        int rk = m.icv.kind & 0xff;
        l.kind = rk;
        l.chunk = m.icv.chunk;
    } else {
        l.chunk = chunk;
        l.kind = k == 35 || k == 67 ? 2 : k == 36 || k == 39 || k == 68 || k == 42 ? 3 : 1;
        if (k == 34 || k == 66) l.chunk = 0;
    }
    if (l.kind == 4) l.kind = 1 + (int) choose('a', 3); // auto: any assignment is allowed
    if (l.kind != 1 && l.chunk < 1) l.chunk = 1;
    l.next = 0; // iteration numbers from here on
    l.ub = lb;  // first value
}
static int dispatchNext(int* last, int64_t* lb, int64_t* ub, int64_t* s) {
    point();
    St& m = st();
    Loop& l = loopOf(m.curLoop);
    int64_t from, to; // iteration numbers [from, to)
    int n = m.team->n;
    if (l.kind == 1) {
        if (l.chunk < 1) { // one block per thread
            if (m.blockPos > 0) from = to = l.trip;
            else {
                int64_t q = l.trip / n, r = l.trip % n;
                from = m.num * q + (m.num < r ? m.num : r);
                to = from + q + (m.num < r);
                m.blockPos = 1;
                if (from == to) from = to = l.trip;
            }
        } else {
            int64_t b = (int64_t) m.num + n * m.blockPos++;
            from = b * l.chunk;
            to = from + l.chunk;
        }
    } else {
        from = l.next;
        int64_t c = l.chunk;
        if (l.kind == 3) { int64_t g = (l.trip - l.next + 2 * n - 1) / (2 * n); if (g > c) c = g; }
        to = from + c;
        l.next = to < l.trip ? to : l.trip;
    }
    if (to > l.trip) to = l.trip;
    if (from >= to) {
        if (++l.finished >= n) m.team->loops.erase(m.curLoop);
        return 0;
    }
    event(0xD15B0000 + (uint64_t) m.num * 1000 + (uint64_t) from);
    if (last) *last = to == l.trip;
    *lb = l.ub + from * l.st;
    *ub = l.ub + (to - 1) * l.st;
    if (s) *s = l.st;
    return 1;
}
void __kmpc_dispatch_init_8(ident_t*, int, int sched, int64_t lb, int64_t ub, int64_t s, int64_t c) { dispatchInit(sched, lb, ub, s, c); }
void __kmpc_dispatch_init_8u(ident_t*, int, int sched, uint64_t lb, uint64_t ub, int64_t s, int64_t c) { dispatchInit(sched, (int64_t) lb, (int64_t) ub, s, c); }
void __kmpc_dispatch_init_4(ident_t*, int, int sched, int lb, int ub, int s, int c) { dispatchInit(sched, lb, ub, s, c); }
void __kmpc_dispatch_init_4u(ident_t*, int, int sched, unsigned lb, unsigned ub, int s, int c) { dispatchInit(sched, lb, ub, s, c); }
int __kmpc_dispatch_next_8(ident_t*, int, int* last, int64_t* lb, int64_t* ub, int64_t* s) { return dispatchNext(last, lb, ub, s); }
int __kmpc_dispatch_next_8u(ident_t*, int, int* last, uint64_t* lb, uint64_t* ub, int64_t* s) { return dispatchNext(last, (int64_t*) lb, (int64_t*) ub, s); }
int __kmpc_dispatch_next_4(ident_t*, int, int* last, int* lb, int* ub, int* s) {
    int64_t a, b, c;
    if (!dispatchNext(last, &a, &b, &c)) return 0;
    *lb = (int) a; *ub = (int) b; if (s) *s = (int) c;
    return 1;
}
int __kmpc_dispatch_next_4u(ident_t* i, int g, int* last, unsigned* lb, unsigned* ub, int* s) { return __kmpc_dispatch_next_4(i, g, last, (int*) lb, (int*) ub, s); }
void __kmpc_dispatch_fini_8(ident_t*, int) {}
void __kmpc_dispatch_fini_8u(ident_t*, int) {}
void __kmpc_dispatch_fini_4(ident_t*, int) {}
void __kmpc_dispatch_fini_4u(ident_t*, int) {}
void __kmpc_dispatch_deinit(ident_t*, int) {}

static void staticInit(int sched, int* last, int64_t& lo, int64_t& up, int64_t& stride, int64_t incr, int64_t chunk) {
    point();
    St& m = st();
    int n = m.team ? m.team->n : 1, num = m.team ? m.num : 0;
    int64_t trip = incr > 0 ? (up >= lo ? (up - lo) / incr + 1 : 0) : (lo >= up ? (lo - up) / -incr + 1 : 0);
    if (last) *last = 0;
    int k = sched & 0x1fffffff;
    if (k == 33 && chunk >= 1) {
        int64_t span = chunk * incr;
        stride = span * n;
        lo = lo + span * num;
        up = lo + span - incr;
        if (last) *last = trip > 0 && num == ((trip - 1) / chunk) % n;
        return;
    }
    int64_t q = trip / n, r = trip % n;
    int64_t from = num * q + (num < r ? num : r), to = from + q + (num < r);
    stride = trip * incr;
    if (from >= to) { up = lo + (incr > 0 ? -1 : 1); if (incr > 0) { lo = up + 1; } return; }
    if (last) *last = to == trip;
    up = lo + (to - 1) * incr;
    lo = lo + from * incr;
}
#define STATIC(sfx, T, ST)                                                                                                             \
    void __kmpc_for_static_init_##sfx(ident_t*, int, int sched, int* last, T* lo, T* up, ST* stride, ST incr, ST chunk) {              \
        int64_t a = (int64_t) *lo, b = (int64_t) *up, c = *stride;                                                                     \
        staticInit(sched, last, a, b, c, incr, chunk);                                                                                 \
        *lo = (T) a; *up = (T) b; *stride = (ST) c;                                                                                    \
    }
STATIC(4, int32_t, int32_t) STATIC(4u, uint32_t, int32_t) STATIC(8, int64_t, int64_t) STATIC(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(ident_t*, int) {}
void __kmpc_barrier(ident_t*, int) { barrier(); }
int __kmpc_cancel_barrier(ident_t*, int) { barrier(); return 0; }
int __kmpc_master(ident_t*, int) { return st().num == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int, int f) { return st().num == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int) {
    point();
    St& m = st();
    if (!m.team) return 1;
    bool& b = m.team->singles[m.singleSeq++];
    if (b) return 0;
    b = true;
    return 1;
}
void __kmpc_end_single(ident_t*, int) {}
void __kmpc_critical(ident_t*, int, void* n) { lock(n); }
void __kmpc_critical_with_hint(ident_t*, int, void* n, uint32_t) { lock(n); }
void __kmpc_end_critical(ident_t*, int, void* n) { unlock(n); }
void __kmpc_flush(ident_t*) { point(); }
int __kmpc_reduce(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* l) { lock(l); return 1; }
void __kmpc_end_reduce(ident_t*, int, void* l) { unlock(l); barrier(); }
int __kmpc_reduce_nowait(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* l) { lock(l); return 1; }
void __kmpc_end_reduce_nowait(ident_t*, int, void* l) { unlock(l); }
void* __kmpc_threadprivate_cached(ident_t*, int, void* data, size_t size, void***) {
    static std::map<std::pair<int, void*>, void*> m;
    void*& p = m[{self(), data}];
    if (!p) { p = malloc(size); memcpy(p, data, size); }
    return p;
}

// user routines
void omp_set_schedule(omp_sched_t k, int c) {
    point();
    Icv& i = icv();
    int kk = (int) k & 0xff;
    if (kk < 1 || kk > 4) violation("omp-misuse", "omp_set_schedule() with the invalid kind %d", (int) k);
    i.kind = (int) k;
    i.chunk = c < 1 ? (kk == 1 || kk == 4 ? 0 : 1) : c;
}
void omp_get_schedule(omp_sched_t* k, int* c) { point(); *k = (omp_sched_t) icv().kind; *c = icv().chunk; }
int omp_get_thread_num(void) { point(); return st().num; }
int omp_get_num_threads(void) { point(); return st().team ? st().team->n : 1; }
int omp_get_max_threads(void) { return icv().nthreads; }
void omp_set_num_threads(int n) { point(); icv().nthreads = n < 1 ? 1 : n; }
int omp_get_num_procs(void) { return 4; }
int omp_in_parallel(void) { return st().active > 0; }
int omp_get_dynamic(void) { return icv().dyn; }
void omp_set_dynamic(int d) { point(); icv().dyn = d != 0; }
int omp_get_nested(void) { return icv().levels > 1; }
void omp_set_nested(int n) { point(); icv().levels = n ? 8 : 1; }
int omp_get_max_active_levels(void) { return icv().levels; }
void omp_set_max_active_levels(int n) { point(); icv().levels = n; }
int omp_get_level(void) { return st().level; }
int omp_get_active_level(void) { return st().active; }
int omp_get_thread_limit(void) { return 128; }
double omp_get_wtime(void) { point(); return (double) now() * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(omp_lock_t* l) { point(); }
void omp_destroy_lock(omp_lock_t*) { point(); }
void omp_set_lock(omp_lock_t* l) { lock(l); }
void omp_unset_lock(omp_lock_t* l) { unlock(l); }
int omp_test_lock(omp_lock_t* l) { point(); if (g_locks[l]) { yield(); return 0; } lock(l); return 1; }
}
