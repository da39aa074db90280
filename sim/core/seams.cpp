#include "seams.hpp"
#include "sched.hpp"
#include "real.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <map>
#include <new>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <deque>
#include <string>

using namespace sim;

#define REAL(ret, name, args)                                                                \
    static ret(*real_##name) args = nullptr;                                                 \
    static inline void load_##name() {                                                       \
        if (!real_##name) real_##name = reinterpret_cast<ret(*) args>(dlsym(RTLD_NEXT, #name)); \
    }

namespace sim {
ClockCfg g_clock;
static const size_t g_allocBt = getenv("SIM_ALLOCBT") ? (size_t) atoll(getenv("SIM_ALLOCBT")) : 0;
bool g_newFaults = false;

// ---------------------------------------------------------------- heap
static char* H = nullptr;
static unsigned char* SH = nullptr;      // 0 never allocated / red zone, 1 live, 2 released
static const size_t HS = 64u << 20;
static const size_t HOFF = 64u << 20;    // C++ objects of the system follow (operator new): [H + HOFF, H + HTOT)
static const size_t HTOT = HOFF + (size_t(3) << 29);
static const size_t NBANK = 32, BANK = size_t(48) << 20, HPLACED = HTOT + NBANK * BANK;   // objects placed by other policies
static size_t Hpos = 0, Npos = HOFF;
struct Blk { size_t size; bool live; };
static std::unordered_map<size_t, Blk>* BL = nullptr;
static size_t liveN = 0, liveB = 0, cppN = 0, cppB = 0;
static uint64_t allocN = 0;

void heapInit() {
    H = (char*) mmap((void*) 0x200000000000, HPLACED, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    SH = (unsigned char*) mmap((void*) 0x210000000000, HPLACED, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (H == MAP_FAILED || SH == MAP_FAILED) { fprintf(stderr, "cannot map the simulated heap\n"); exit(3); }
    BL = new std::unordered_map<size_t, Blk>();
}
bool heapOwns(const void* p) { return H && (const char*) p >= H && (const char*) p < H + HPLACED; }
bool cppOwns(const void* p) { return H && (const char*) p >= H + HOFF && (const char*) p < H + HPLACED; }
// placement of C++ objects: increasing addresses (the default), decreasing ones, pseudo-random ones, or the most recently released blocks again
static Placement g_place = PLACE_UP;
static uint64_t g_placeState = 1;
static size_t bankUp[NBANK], downPos = HPLACED;
static const size_t RCLASS = 64;
static size_t recycled[RCLASS];
static uint32_t* nextFree = nullptr;
static uint64_t placeRandom() { g_placeState ^= g_placeState << 13; g_placeState ^= g_placeState >> 7; g_placeState ^= g_placeState << 17; return g_placeState; }
void setPlacement(Placement p, uint64_t seed) {
    g_place = p;
    g_placeState = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    if (!g_placeState) g_placeState = 1;
    for (size_t& r : recycled) r = 0;
    if (p == PLACE_RECYCLE && !nextFree) nextFree = (uint32_t*) mmap(nullptr, HPLACED / 16 * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static size_t place(size_t need) {
    size_t c = need / 16;
    if (g_place == PLACE_RECYCLE && c < RCLASS && recycled[c] && placeRandom() % 8 != 0) {
        size_t off = recycled[c];
        recycled[c] = (size_t) nextFree[off / 16] * 16;
        return off - 16;
    }
    if (g_place == PLACE_DOWN) {
        if (downPos - need < HTOT + NBANK / 2 * BANK) infra("simulated C++ heap exhausted");
        return downPos -= need;
    }
    if (g_place == PLACE_RANDOM) {
        for (size_t i = 0, b = placeRandom() % (NBANK / 2); i < NBANK / 2; ++i, b = (b + 1) % (NBANK / 2))
            if (bankUp[b] + need <= BANK) { size_t p = HTOT + b * BANK + bankUp[b]; bankUp[b] += need; return p; }
        infra("simulated C++ heap exhausted");
    }
    if (Npos + need > HTOT) infra("simulated C++ heap exhausted");
    size_t p = Npos;
    Npos += need;
    return p;
}
// operator new of the system under test: addresses depend on the run only and are never used twice
void* cppAlloc(size_t n) {
    size_t need = ((n + 15) & ~size_t(15)) + 32;
    size_t off = place(need) + 16;
    memcpy(H + off - 16, &n, sizeof n);
    memset(SH + off, 1, n ? n : 1);
    memset(H + off, 0xA5, n);
    cppN++; cppB += n;
    if (g_allocBt && off == g_allocBt) { void* a[40]; backtrace_symbols_fd(a, backtrace(a, 40), 2); }
    return H + off;
}
// debugging aid: blocks allocated since a point which are still live (SIM_ALLOCBT=offset shows where one was allocated)
size_t cppMark() { return Npos; }
void leakReport(size_t from) {
    if (!getenv("SIM_LEAKS")) return;
    int shown = 0;
    for (size_t p = from; p < Npos && shown < 20;) {
        size_t n;
        memcpy(&n, H + p, sizeof n);
        if (SH[p + 16] == 1) { fprintf(stderr, "live block of %zu bytes at offset %zu\n", n, p + 16); shown++; }
        p += ((n + 15) & ~size_t(15)) + 32;
    }
}
void cppFree(void* p) {
    size_t off = (char*) p - H;
    if (SH[off] == 2) { if (active()) violation("double-free", "C++ object released twice by thread %s", threadName(self())); return; }
    if (SH[off] != 1 || (off > 0 && SH[off - 1] == 1)) { if (active()) violation("bad-free", "delete of an address inside or outside any block"); return; }
    size_t n;
    memcpy(&n, H + off - 16, sizeof n);
    memset(SH + off, 2, n ? n : 1);
    memset(H + off, 0xDD, n);
    cppN--; cppB -= n;
    if (g_place == PLACE_RECYCLE) {
        size_t c = (((n + 15) & ~size_t(15)) + 32) / 16;
        if (c < RCLASS) { nextFree[off / 16] = (uint32_t) (recycled[c] / 16); recycled[c] = off; }
    }
}
size_t cppLiveBlocks() { return cppN; }
size_t cppLiveBytes() { return cppB; }
size_t heapLiveBlocks() { return liveN; }
size_t heapLiveBytes() { return liveB; }
uint64_t heapAllocs() { return allocN; }

void* heapAlloc(size_t n) {
    size_t need = ((n + 15) & ~size_t(15)) + 32;
    if (Hpos + need > HS) infra("simulated heap exhausted");
    size_t off = Hpos + 16;
    Hpos += need;
    memset(SH + off, 1, n);
    memset(H + off, 0xA5, n);
    (*BL)[off] = Blk{n, true};
    liveN++; liveB += n; allocN++;
    return H + off;
}
void heapFree(void* p) {
    if (!p) return;
    if (!heapOwns(p)) {
        if (active()) violation("bad-free", "free() of memory not obtained from malloc()");
        ::free(p);
        return;
    }
    if (cppOwns(p)) violation("bad-free", "free() of memory obtained from operator new");
    size_t off = (char*) p - H;
    auto it = BL->find(off);
    if (it == BL->end()) violation("bad-free", "free() of an address inside or outside any block");
    if (!it->second.live) violation("double-free", "block of %zu bytes released twice by %s", it->second.size, threadName(self()));
    it->second.live = false;
    liveN--; liveB -= it->second.size;
    memset(SH + off, 2, it->second.size);
    memset(p, 0xDD, it->second.size);
}
void heapCheck(const void* p, size_t n, bool write, const char* what) {
    size_t off = (const char*) p - H;
    for (size_t i = 0; i < n; ++i) {
        unsigned char s = SH[off + i];
        if (s == 1) continue;
        violation(s == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes %s by thread %s", what, n,
                  s == 2 ? "in released memory" : "outside any live block", threadName(self()));
    }
}
static inline void objCheck(const void* p, const char* what) {
    if (p == nullptr || (uintptr_t) p < 4096) violation("bad-sync-object", "%s on a null object", what);
    if (heapOwns(p)) heapCheck(p, 8, true, what);
}

// ---------------------------------------------------------------- synchronisation objects
struct Mtx { int owner = -1; int count = 0; int kind = 0; };
static std::unordered_map<const void*, Mtx>* MX = nullptr;
static Mtx& mtx(pthread_mutex_t* m) {
    if (!MX) MX = new std::unordered_map<const void*, Mtx>();
    auto it = MX->find(m);
    if (it == MX->end()) {
        it = MX->emplace(m, Mtx()).first;
        it->second.kind = m->__data.__kind & 3;
    }
    return it->second;
}
struct PT { int tid; bool joined, detached; };
static std::vector<PT>* PTS = nullptr;
static const uint64_t PBASE = 0x5151000000ull;

int livePthreads() {
    int n = 0;
    if (PTS) for (auto& p : *PTS) if (!threadDone(p.tid)) n++;
    return n;
}
int liveThreadsIn(const void* lo, const void* hi) {
    int n = 0;
    if (PTS) for (auto& p : *PTS) if (!threadDone(p.tid) && threadStart(p.tid) >= lo && threadStart(p.tid) < hi) n++;
    return n;
}
void pthreadReset() { if (PTS) PTS->clear(); }

static void lockMutex(pthread_mutex_t* m) {
    for (;;) {
        Mtx& x = mtx(m);
        if (x.owner < 0) { x.owner = self(); x.count = 1; return; }
        if (x.owner == self()) {
            if (x.kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return; }
        }
        blockOn(m);
        if (heapOwns(m)) objCheck(m, "pthread_mutex_lock");
    }
}
static void unlockMutex(pthread_mutex_t* m) {
    Mtx& x = mtx(m);
    if (x.owner != self()) violation("mutex-misuse", "mutex released by thread %s which does not hold it", threadName(self()));
    if (--x.count > 0) return;
    x.owner = -1;
    wakeOne(m, 'w');
}
} // namespace sim

// ---------------------------------------------------------------- pthread interposition
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) )
REAL(int, pthread_join, (pthread_t, void**) )
REAL(int, pthread_detach, (pthread_t) )
REAL(pthread_t, pthread_self, (void) )
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*) )
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*) )
REAL(int, pthread_mutex_lock, (pthread_mutex_t*) )
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*) )
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const struct timespec*) )
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*) )
REAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*) )
REAL(int, pthread_cond_destroy, (pthread_cond_t*) )
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*) )
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*) )
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) )
REAL(int, pthread_cond_signal, (pthread_cond_t*) )
REAL(int, pthread_cond_broadcast, (pthread_cond_t*) )
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)) )
REAL(void, pthread_exit, (void*) )
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*) )
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*) )
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*) )
REAL(int, pthread_spin_lock, (pthread_spinlock_t*) )
REAL(int, pthread_spin_unlock, (pthread_spinlock_t*) )
REAL(int, pthread_barrier_wait, (pthread_barrier_t*) )
REAL(int, sem_init, (sem_t*, int, unsigned) )
REAL(int, sem_wait, (sem_t*) )
REAL(int, sem_trywait, (sem_t*) )
REAL(int, sem_post, (sem_t*) )
REAL(int, sem_destroy, (sem_t*) )
REAL(int, clock_gettime, (clockid_t, struct timespec*) )
REAL(int, nanosleep, (const struct timespec*, struct timespec*) )
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*) )
REAL(int, usleep, (useconds_t) )
REAL(unsigned, sleep, (unsigned) )
REAL(int, sched_yield, (void) )
REAL(time_t, time, (time_t*) )
REAL(int, gettimeofday, (struct timeval*, void*) )

int sim_native_thread_create(pthread_t* a, const pthread_attr_t* b, void* (*c)(void*), void* d) {
    load_pthread_create();
    return (*::real_pthread_create)(a, b, c, d);
}

static void toTs(uint64_t ns, struct timespec* ts) { ts->tv_sec = (time_t) (ns / 1000000000ull); ts->tv_nsec = (long) (ns % 1000000000ull); }
static uint64_t fromTs(const struct timespec* ts) { return (uint64_t) ts->tv_sec * 1000000000ull + (uint64_t) ts->tv_nsec; }
static uint64_t g_cpuExtra[MAXT];
static uint64_t g_wallOff = 1600000000ull * 1000000000ull;

static uint64_t logUniform(double u, double lo, double hi) { // in ns
    return (uint64_t) (lo * __builtin_exp(u * __builtin_log(hi / lo)));
}

struct StartArg { void* (*fn)(void*); void* arg; void* ret; };
static std::map<int, StartArg*>* g_start = nullptr;

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
    objCheck(c, "pthread_cond_wait");
    objCheck(m, "pthread_cond_wait");
    point();
    unlockMutex(m);
    bool ok = true;
    if (fault('s', C_SPURIOUS)) { yield(); }
    else if (until) ok = blockOnUntil(c, until);
    else blockOn(c);
    point();
    if (heapOwns(m)) objCheck(m, "pthread_cond_wait (return)");
    lockMutex(m);
    return ok ? 0 : ETIMEDOUT;
}

extern "C" {

int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!active()) { load_pthread_create(); return (*::real_pthread_create)(t, at, fn, arg); }
    point();
    if (fault('t', C_THREAD_FAIL)) return EAGAIN;
    if (!PTS) PTS = new std::vector<PT>();
    if (!g_start) g_start = new std::map<int, StartArg*>();
    StartArg* sa = new StartArg{fn, arg, nullptr};
    bool detached = false;
    if (at) { int ds = 0; pthread_attr_getdetachstate(at, &ds); detached = ds == PTHREAD_CREATE_DETACHED; }
    int tid = spawn([sa] { sa->ret = sa->fn(sa->arg); }, "worker");
    (*g_start)[tid] = sa;
    setThreadStart(tid, (const void*) fn);
    PTS->push_back(PT{tid, false, detached});
    pthread_t id = (pthread_t) (PBASE + (uint64_t) tid);
    *t = id;
    if (heapOwns(t)) heapCheck(t, sizeof *t, true, "pthread_create");
    point();
    return 0;
}
static PT* findPt(pthread_t t) {
    uint64_t v = (uint64_t) t;
    if (PTS && v >= PBASE && v < PBASE + MAXT)
        for (auto& p : *PTS) if (p.tid == (int) (v - PBASE)) return &p;
    return nullptr;
}
int pthread_join(pthread_t t, void** ret) {
    if (!active()) { load_pthread_join(); return (*::real_pthread_join)(t, ret); }
    PT* p = findPt(t);
    if (!p) violation("thread-misuse", "pthread_join() of an invalid thread identifier");
    if (p->detached || p->joined) violation("thread-misuse", "pthread_join() of a detached or already joined thread");
    int tid = p->tid;
    p->joined = true;
    sim::join(tid);
    if (ret) *ret = (*g_start)[tid]->ret;
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!active()) { load_pthread_detach(); return (*::real_pthread_detach)(t); }
    point();
    PT* p = findPt(t);
    if (!p) violation("thread-misuse", "pthread_detach() of an invalid thread identifier");
    p->detached = true;
    return 0;
}
pthread_t pthread_self(void) {
    load_pthread_self();
    if (!active()) return (*::real_pthread_self)();
    return (pthread_t) (PBASE + (uint64_t) self());
}
void pthread_exit(void* r) {
    if (!active()) { load_pthread_exit(); (*::real_pthread_exit)(r); }
    auto it = g_start ? g_start->find(self()) : std::map<int, StartArg*>::iterator();
    if (g_start && it != g_start->end()) it->second->ret = r;
    exitThread();
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    load_pthread_mutex_init();
    if (active()) { objCheck(m, "pthread_mutex_init"); point(); if (MX) MX->erase(m); }
    return (*::real_pthread_mutex_init)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    load_pthread_mutex_destroy();
    if (active()) {
        objCheck(m, "pthread_mutex_destroy");
        point();
        if (MX) { auto it = MX->find(m); if (it != MX->end()) { if (it->second.owner >= 0) violation("mutex-misuse", "locked mutex destroyed"); MX->erase(it); } }
        return 0;
    }
    return (*::real_pthread_mutex_destroy)(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) { load_pthread_mutex_lock(); return (*::real_pthread_mutex_lock)(m); }
    objCheck(m, "pthread_mutex_lock");
    point();
    lockMutex(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) { load_pthread_mutex_trylock(); return (*::real_pthread_mutex_trylock)(m); }
    objCheck(m, "pthread_mutex_trylock");
    point();
    Mtx& x = mtx(m);
    if (x.owner < 0) { x.owner = self(); x.count = 1; return 0; }
    if (x.owner == self() && x.kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
    yield();
    return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!active()) { load_pthread_mutex_timedlock(); return (*::real_pthread_mutex_timedlock)(m, ts); }
    objCheck(m, "pthread_mutex_timedlock");
    point();
    uint64_t until = fromTs(ts) > g_wallOff ? fromTs(ts) - g_wallOff : 1;
    while (mtx(m).owner >= 0) { if (!blockOnUntil(m, until)) return ETIMEDOUT; }
    mtx(m).owner = self(); mtx(m).count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) { load_pthread_mutex_unlock(); return (*::real_pthread_mutex_unlock)(m); }
    objCheck(m, "pthread_mutex_unlock");
    unlockMutex(m);
    point();     // another thread may run before the caller executes its next instruction
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    load_pthread_cond_init();
    if (active()) { objCheck(c, "pthread_cond_init"); point(); }
    return (*::real_pthread_cond_init)(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!active()) { load_pthread_cond_destroy(); return (*::real_pthread_cond_destroy)(c); }
    objCheck(c, "pthread_cond_destroy");
    point();
    while (waiters(c) > 0) blockOn((const char*) c + 1); // glibc blocks until all waiters have left
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!active()) { load_pthread_cond_wait(); return (*::real_pthread_cond_wait)(c, m); }
    return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!active()) { load_pthread_cond_timedwait(); return (*::real_pthread_cond_timedwait)(c, m, ts); }
    uint64_t t = fromTs(ts);
    return condWait(c, m, t > g_wallOff ? t - g_wallOff : 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
    if (!active()) { load_pthread_cond_clockwait(); return (*::real_pthread_cond_clockwait)(c, m, clk, ts); }
    uint64_t t = fromTs(ts);
    if (clk == CLOCK_REALTIME) t = t > g_wallOff ? t - g_wallOff : 1;
    return condWait(c, m, t ? t : 1);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) { load_pthread_cond_signal(); return (*::real_pthread_cond_signal)(c); }
    objCheck(c, "pthread_cond_signal");
    point();
    wakeOne(c, 'w');
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) { load_pthread_cond_broadcast(); return (*::real_pthread_cond_broadcast)(c); }
    objCheck(c, "pthread_cond_broadcast");
    point();
    wakeAll(c);
    point();
    return 0;
}
static std::unordered_map<const void*, int>* g_once = nullptr;
int pthread_once(pthread_once_t* o, void (*f)(void)) {
    load_pthread_once();
    if (!active()) return (*::real_pthread_once)(o, f);
    point();
    if (*o == 2) return 0;           // completed natively
    if (!g_once) g_once = new std::unordered_map<const void*, int>();
    for (;;) {
        int& st = (*g_once)[o];
        if (st == 2) return 0;
        if (st == 0) { st = 1; f(); (*g_once)[o] = 2; wakeAll(o); return 0; }
        blockOn(o);
    }
}
// readers/writer locks, spin locks, barriers, semaphores
struct Rw { int w = -1; int r = 0; };
static std::unordered_map<const void*, Rw>* g_rw = nullptr;
static Rw& rw(const void* p) { if (!g_rw) g_rw = new std::unordered_map<const void*, Rw>(); return (*g_rw)[p]; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if (!active()) { load_pthread_rwlock_rdlock(); return (*::real_pthread_rwlock_rdlock)(l); }
    objCheck(l, "pthread_rwlock_rdlock"); point();
    while (rw(l).w >= 0) blockOn(l);
    rw(l).r++;
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if (!active()) { load_pthread_rwlock_wrlock(); return (*::real_pthread_rwlock_wrlock)(l); }
    objCheck(l, "pthread_rwlock_wrlock"); point();
    while (rw(l).w >= 0 || rw(l).r > 0) blockOn(l);
    rw(l).w = self();
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!active()) { load_pthread_rwlock_unlock(); return (*::real_pthread_rwlock_unlock)(l); }
    objCheck(l, "pthread_rwlock_unlock");
    Rw& x = rw(l);
    if (x.w == self()) x.w = -1; else if (x.r > 0) x.r--; else violation("mutex-misuse", "rwlock released while not held");
    wakeAll(l); point();
    return 0;
}
static std::unordered_map<const void*, int>* g_spin = nullptr;
int pthread_spin_lock(pthread_spinlock_t* l) {
    if (!active()) { load_pthread_spin_lock(); return (*::real_pthread_spin_lock)(l); }
    if (!g_spin) g_spin = new std::unordered_map<const void*, int>();
    point();
    while ((*g_spin)[(const void*) l]) blockOn((const void*) l);
    (*g_spin)[(const void*) l] = 1;
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
    if (!active()) { load_pthread_spin_unlock(); return (*::real_pthread_spin_unlock)(l); }
    if (!g_spin) g_spin = new std::unordered_map<const void*, int>();
    (*g_spin)[(const void*) l] = 0;
    wakeOne((const void*) l, 'w'); point();
    return 0;
}
struct Bar { unsigned n = 0; uint64_t gen = 0; };
static std::unordered_map<const void*, std::pair<unsigned, Bar>>* g_bar = nullptr;
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) {
    if (!g_bar) g_bar = new std::unordered_map<const void*, std::pair<unsigned, Bar>>();
    (*g_bar)[b] = {n, Bar()};
    return 0;
}
int pthread_barrier_destroy(pthread_barrier_t* b) { if (g_bar) g_bar->erase(b); return 0; }
int pthread_barrier_wait(pthread_barrier_t* b) {
    if (!active() || !g_bar || !g_bar->count(b)) infra("barrier used outside the simulation");
    objCheck(b, "pthread_barrier_wait"); point();
    auto& x = (*g_bar)[b];
    if (++x.second.n == x.first) { x.second.n = 0; x.second.gen++; wakeAll(b); point(); return PTHREAD_BARRIER_SERIAL_THREAD; }
    uint64_t g = x.second.gen;
    while ((*g_bar)[b].second.gen == g) blockOn(b);
    return 0;
}
static std::unordered_map<const void*, int>* g_sem = nullptr;
int sem_init(sem_t* s, int p, unsigned v) {
    if (!active()) { load_sem_init(); return (*::real_sem_init)(s, p, v); }
    if (!g_sem) g_sem = new std::unordered_map<const void*, int>();
    objCheck(s, "sem_init"); (*g_sem)[s] = (int) v;
    return 0;
}
int sem_destroy(sem_t* s) {
    if (!active()) { load_sem_destroy(); return (*::real_sem_destroy)(s); }
    return 0;
}
int sem_wait(sem_t* s) {
    if (!active()) { load_sem_wait(); return (*::real_sem_wait)(s); }
    if (!g_sem) g_sem = new std::unordered_map<const void*, int>();
    objCheck(s, "sem_wait"); point();
    while ((*g_sem)[s] <= 0) blockOn(s);
    (*g_sem)[s]--;
    return 0;
}
int sem_trywait(sem_t* s) {
    if (!active()) { load_sem_trywait(); return (*::real_sem_trywait)(s); }
    if (!g_sem) g_sem = new std::unordered_map<const void*, int>();
    objCheck(s, "sem_trywait"); point();
    if ((*g_sem)[s] <= 0) { yield(); errno = EAGAIN; return -1; }
    (*g_sem)[s]--;
    return 0;
}
int sem_post(sem_t* s) {
    if (!active()) { load_sem_post(); return (*::real_sem_post)(s); }
    if (!g_sem) g_sem = new std::unordered_map<const void*, int>();
    objCheck(s, "sem_post");
    (*g_sem)[s]++;
    wakeOne(s, 'w'); point();
    return 0;
}

// ---------------------------------------------------------------- time
static void wallJump();
int clock_gettime(clockid_t id, struct timespec* ts) {
    if (!active()) { load_clock_gettime(); return (*::real_clock_gettime)(id, ts); }
    point();
    if (fault('c', C_CLOCK_FAIL)) { errno = EINVAL; return -1; }
    if (id == CLOCK_THREAD_CPUTIME_ID || id == CLOCK_PROCESS_CPUTIME_ID) {
        uint64_t& x = g_cpuExtra[self()];
        switch (g_clock.cpuMode) {
            case 1: toTs(1000000, ts); return 0;
            case 2: x += choose('U', 8) == 1 ? 0 : logUniform(drawUnit('u'), 1, 1e12); probe(C_CPUODD); toTs(x, ts); return 0;
            case 3: x += logUniform(drawUnit('u'), 1, 5e7); toTs(x / 10000000 * 10000000, ts); return 0;
            case 4: x += 1000000; toTs(x, ts); return 0;
            default: toTs(cpuTime(), ts); return 0;
        }
    }
    if (g_clock.monoMode == 1) advance(logUniform(drawUnit('u'), 1, 1e11));
    uint64_t t = now();
    if (active()) wallJump();   // the wall clock may be adjusted at any time
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += g_wallOff;
    toTs(t, ts);
    return 0;
}
static void wallJump() {
    if (g_clock.wallMode == 1 && fault('j', C_CLOCK_JUMP)) {
        int64_t d = ((int64_t) choose('J', 2001) - 1000) * 1000000000ll;
        g_wallOff = (uint64_t) ((int64_t) g_wallOff + d);
    }
}
time_t time(time_t* p) {
    if (!active()) { load_time(); return (*::real_time)(p); }
    point();
    wallJump();
    advance(40000000);
    time_t t = (time_t) ((now() + g_wallOff) / 1000000000ull);
    if (p) *p = t;
    return t;
}
int gettimeofday(struct timeval* tv, void* tz) {
    if (!active()) { load_gettimeofday(); return (*::real_gettimeofday)(tv, tz); }
    point();
    wallJump();
    uint64_t t = now() + g_wallOff;
    tv->tv_sec = (time_t) (t / 1000000000ull); tv->tv_usec = (long) (t % 1000000000ull / 1000);
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!active()) { load_nanosleep(); return (*::real_nanosleep)(a, b); }
    sleepNs(fromTs(a));
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
    if (!active()) { load_clock_nanosleep(); return (*::real_clock_nanosleep)(c, fl, a, b); }
    uint64_t t = fromTs(a);
    if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) t = t > g_wallOff ? t - g_wallOff : 1; t = t > now() ? t - now() : 1; }
    sleepNs(t);
    return 0;
}
int usleep(useconds_t us) {
    if (!active()) { load_usleep(); return (*::real_usleep)(us); }
    sleepNs((uint64_t) us * 1000);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!active()) { load_sleep(); return (*::real_sleep)(s); }
    sleepNs((uint64_t) s * 1000000000ull);
    return 0;
}
int sched_yield(void) {
    if (!active()) { load_sched_yield(); return (*::real_sched_yield)(); }
    yield();
    return 0;
}

// ---------------------------------------------------------------- static initialisation guards (C++)
int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*) g;
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
        if (!active()) return 1; // outside a run everything is single threaded
        if (b[1] == 0) { b[1] = 1; return 1; }
        blockOn(g);
    }
}
void __cxa_guard_release(uint64_t* g) {
    unsigned char* b = (unsigned char*) g;
    b[1] = 0;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    if (active()) wakeAll(g);
}
void __cxa_guard_abort(uint64_t* g) {
    unsigned char* b = (unsigned char*) g;
    b[1] = 0;
    if (active()) wakeAll(g);
}

// ---------------------------------------------------------------- allocation and stdio of the generated code (renamed at link time)
void* sim_malloc(size_t n) {
    if (!active()) return heapAlloc(n);
    point();
    if (fault('m', C_MALLOC_FAIL)) { errno = ENOMEM; return nullptr; }
    if (n > (16u << 20)) { errno = ENOMEM; return nullptr; }
    return heapAlloc(n);
}
void sim_free(void* p) {
    if (active()) point();
    heapFree(p);
}
void* sim_calloc(size_t a, size_t b) {
    void* p = sim_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void* sim_realloc(void* p, size_t n) {
    void* q = sim_malloc(n);
    if (q && p) {
        size_t off = (char*) p - H, old = (*BL)[off].size;
        memcpy(q, p, old < n ? old : n);
        heapFree(p);
    }
    return q;
}
int sim_posix_memalign(void** p, size_t, size_t n) { *p = sim_malloc(n); return *p ? 0 : ENOMEM; }
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
char* sim_strdup(const char* s) { char* p = (char*) sim_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int sim_fprintf(FILE*, const char*, ...) { point(); return 1; }
int sim_printf(const char*, ...) { point(); return 1; }
int sim_fprintf_chk(FILE*, int, const char*, ...) { point(); return 1; }
int sim_printf_chk(int, const char*, ...) { point(); return 1; }
int sim_vfprintf(FILE*, const char*, va_list) { point(); return 1; }
int sim_puts(const char*) { point(); return 1; }
int sim_putchar(int c) { point(); return c; }
int sim_fputs(const char*, FILE*) { point(); return 1; }
int sim_fputc(int c, FILE*) { point(); return c; }
size_t sim_fwrite(const void*, size_t, size_t n, FILE*) { point(); return n; }
int sim_fflush(FILE*) { point(); return 0; }
void sim_perror(const char*) { point(); }
int sim_prctl(int, ...) { point(); return 0; }
int sim_pthread_setname_np(pthread_t, const char*) { return 0; }
void sim_exit(int c) {
    if (active()) violation("process-exit", "the library called exit(%d)", c);
    exit(c);
}
void sim_abort(void) {
    if (active()) violation("process-abort", "the library called abort()");
    abort();
}
void sim___assert_fail(const char* e, const char*, unsigned, const char*) {
    if (active()) violation("process-abort", "assertion '%s' failed in the library", e);
    abort();
}

// ---------------------------------------------------------------- memory access instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
static inline void acc(const void* p, size_t n, bool w) {
    if (t_self < 0 || !running()) return;
    if (heapOwns(p)) heapCheck(p, n, w, w ? "write" : "read");
    access(p, n, w);
    if (heapOwns(p)) heapCheck(p, n, w, w ? "write" : "read"); // the block may have been released meanwhile
}
#define RW(n)                                                          \
    void __tsan_read##n(void* p) { acc(p, n, false); }                 \
    void __tsan_write##n(void* p) { acc(p, n, true); }                 \
    void __tsan_unaligned_read##n(void* p) { acc(p, n, false); }       \
    void __tsan_unaligned_write##n(void* p) { acc(p, n, true); }       \
    void __tsan_volatile_read##n(void* p) { acc(p, n, false); }        \
    void __tsan_volatile_write##n(void* p) { acc(p, n, true); }        \
    void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); }  \
    void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); }  \
    void __tsan_read_write##n(void* p) { acc(p, n, true); }            \
    void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void* p, void*) { acc(p, 1, false); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void __tsan_read_range(void* p, size_t n) { if (n) acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) acc(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { acc(s, n, false); acc(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) acc(d, n, true); return memset(d, c, n); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

static inline void apt(const volatile void* p, size_t n) {
    if (t_self < 0 || !running()) return;
    if (heapOwns((const void*) p)) heapCheck((const void*) p, n, true, "atomic access");
    point();
}
#define ATOMICS(bits, T)                                                                                               \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { apt(p, sizeof(T)); return *p; }                           \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { apt(p, sizeof(T)); *p = v; apt(p, sizeof(T)); }        \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = v; return o; }       \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) (o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) (o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) (o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) (o | v); return o; }  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) (o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { apt(p, sizeof(T)); T o = *p; *p = (T) ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                            \
        apt(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                    \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                              \
        apt(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                    \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                  \
        apt(p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (t_self >= 0 && running()) point(); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
