#include "sched.hpp"
#include "real.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <algorithm>
#include <unordered_map>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {

Shared* g_sh = nullptr;
thread_local int t_self = -1;
thread_local int t_own = 0;

namespace {

enum State { READY, BLOCKED, DONE };

struct Thr {
    int id = 0;
    State st = READY;
    std::atomic<int> go{0};
    std::atomic<int> parked{0};
    const void* obj = nullptr;
    uint64_t wakeAt = 0;         // 0 = none
    bool timedOut = false;
    uint64_t blockSeq = 0;
    std::string name;
    const void* start = nullptr;
    std::function<void()> fn;
    uint64_t acc = 0, nextPre = ~0ull;
    uint64_t cpu = 0;
    int64_t prio = 0;
    uint64_t cnt[128];
    std::vector<Decision> pre;   // replay: preemptions of this thread
    size_t prePos = 0;
    Thr() { memset(cnt, 0, sizeof cnt); }
};

Thr* T[MAXT];
int nT = 0;
int cur = -1;
bool g_run = false;
Config C;
Rng R;
uint64_t g_now = 0, g_slice = 0, g_seq = 0;
bool g_faults = true;
bool g_draw = true; // draw from PRNG (not replay)
std::map<char, int> g_injected;
std::map<std::pair<char, int>, std::unordered_map<uint64_t, int64_t>> g_replay;
std::vector<uint64_t> g_pctPoints;
int64_t g_lowPrio = -1;

// who touched an address last (exact, so that it does not depend on where the loader put things)
struct Ent { uintptr_t a; int tid; };
enum { TAB = 1 << 16 };
Ent g_tab[TAB];
int g_tabN = 0;

// threads run on stacks at fixed addresses
const size_t STACK = 2 << 20;
void* stackOf(int tid) {
    void* p = mmap((void*) (0x230000000000ull + (uint64_t) tid * 2 * STACK), STACK, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) infra("cannot map a stack");
    return p;
}

void fwait(std::atomic<int>& f) {
    while (f.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0, std::memory_order_release);
}
void fpost(std::atomic<int>& f) {
    f.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void mix(uint64_t& h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x100000001b3ull; }

enum { SOFTDEC = MAXDEC - 10000 };  // a long run becomes a sequential one instead of losing decisions

void record(char kind, int tid, uint64_t n, int64_t v) {
    if (g_sh->nDec < MAXDEC) g_sh->dec[g_sh->nDec++] = Decision{kind, tid, n, v};
    else if (g_draw) infra("too many decisions in one run");
}

uint64_t gap() {
    if (C.mode == 2) return ~0ull >> 1;
    double u = R.unit();
    double g = -C.meanGap * __builtin_log(1.0 - u);
    return 1 + (uint64_t) g;
}

void armPreempt(Thr* t) {
    if (g_draw) {
        if (C.mode == 0) t->nextPre = t->acc + gap();
        else t->nextPre = ~0ull;
    } else {
        while (t->prePos < t->pre.size() && t->pre[t->prePos].n <= t->acc) t->prePos++;
        t->nextPre = t->prePos < t->pre.size() ? t->pre[t->prePos].n : ~0ull;
    }
}

void timers() {
    for (int i = 0; i < nT; ++i)
        if (T[i]->st == BLOCKED && T[i]->wakeAt && T[i]->wakeAt <= g_now) {
            T[i]->st = READY; T[i]->wakeAt = 0; T[i]->timedOut = true; T[i]->obj = nullptr;
        }
}

int readyList(int* out, int except) {
    int n = 0;
    for (int k = 1; k <= nT; ++k) { // cyclic from the current thread
        int i = (std::max(cur, 0) + k) % nT;
        if (T[i]->st == READY && i != except) out[n++] = i;
    }
    return n;
}

void switchTo(int t) {
    int me = cur;
    g_sh->switches++;
    mix(g_sh->evHash, 0x5000 + t);
    mix(g_sh->evHash, T[me]->acc);
    mix(g_sh->ileHash, (uint64_t(me) << 40) ^ (uint64_t(t) << 32) ^ T[me]->acc);
    cur = t;
    g_slice = 0;
    Thr* m = T[me];
    bool done = m->st == DONE;
    fpost(T[t]->go);
    if (done) { // parked for ever: addresses of later threads must not depend on native exit timing
        for (;;) { struct timespec ts{1000, 0}; syscall(SYS_nanosleep, &ts, nullptr); }
    }
    fwait(m->go);
}

// current thread cannot go on
void reschedule() {
    Thr* m = T[cur];
    timers();
    int rl[MAXT];
    int n = readyList(rl, m->st == READY ? -1 : cur);
    if (n == 0) {
        uint64_t best = ~0ull;
        for (int i = 0; i < nT; ++i)
            if (T[i]->st == BLOCKED && T[i]->wakeAt) best = std::min(best, T[i]->wakeAt);
        if (best == ~0ull) {
            g_faults = false;
            std::string who;
            for (int i = 0; i < nT; ++i)
                if (T[i]->st == BLOCKED) who += (who.empty() ? "" : ", ") + T[i]->name + "#" + std::to_string(i);
            violation("deadlock", "no thread can run; blocked: %s", who.c_str());
        }
        g_now = std::max(g_now, best);
        g_sh->counters[C_TIMEJUMP]++;
        timers();
        n = readyList(rl, -1);
    }
    int next = rl[0];
    uint64_t k = m->cnt[(int) 'b']++;
    if (g_draw && g_sh->nDec < SOFTDEC) {
        if (C.mode == 1) {
            for (int i = 0; i < n; ++i) if (T[rl[i]]->prio > T[next]->prio) next = rl[i];
        } else next = rl[R.below(n)];
        if (next != rl[0]) record('b', m->id, k, next);
    } else if (!g_draw) {
        auto it = g_replay.find({'b', m->id});
        if (it != g_replay.end()) {
            auto j = it->second.find(k);
            if (j != it->second.end())
                for (int i = 0; i < n; ++i) if (rl[i] == j->second) { next = rl[i]; record('b', m->id, k, next); }
        }
    }
    if (next == cur) { g_slice = 0; return; }
    switchTo(next);
}

void preemptTo(int target) {
    Thr* m = T[cur];
    if (g_draw && g_sh->nDec >= SOFTDEC) { armPreempt(m); return; }
    g_sh->counters[C_PREEMPT]++;
    record('p', m->id, m->acc, target);
    switchTo(target);
    armPreempt(m);
}

void pick() { // random preemption of the current thread
    timers();
    int rl[MAXT];
    int n = readyList(rl, cur);
    Thr* m = T[cur];
    if (n == 0) { armPreempt(m); return; }
    int t = rl[R.below(n)];
    if (C.mode == 1) {
        t = rl[0];
        for (int i = 0; i < n; ++i) if (T[rl[i]]->prio > T[t]->prio) t = rl[i];
        if (T[t]->prio < m->prio) { return; }
    }
    preemptTo(t);
}

void checkLimits() {
    if (g_sh->steps > C.maxSteps)
        violation("no-progress", "no completion within %llu steps (thread %s running)", (unsigned long long) C.maxSteps, T[cur]->name.c_str());
    if (++g_slice > C.fairness) {
        timers();
        int rl[MAXT];
        int n = readyList(rl, cur);
        if (n) {
            g_sh->counters[C_FORCED]++;
            if (C.mode == 1) T[cur]->prio = g_lowPrio--;
            Thr* m = T[cur];
            switchTo(rl[0]);
            armPreempt(m);
        } else g_slice = 0;
    }
}

inline bool step(Thr* m, bool sync, bool conflict) {
    m->acc++;
    g_sh->steps++;
    g_now += C.stepNs;
    m->cpu += C.stepNs;
    if (m->acc >= m->nextPre) {
        if (g_draw) pick();
        else {
            int target = (int) m->pre[m->prePos].v;
            m->prePos++;
            timers();
            if (target >= 0 && target < nT && T[target]->st == READY && target != cur) preemptTo(target);
            else armPreempt(m);
        }
        checkLimits();
        return true;
    }
    if (g_draw) {
        if (C.mode == 1) {
            if (!g_pctPoints.empty() && g_sh->steps >= g_pctPoints.back()) {
                g_pctPoints.pop_back();
                m->prio = g_lowPrio--;
            }
            if (sync || (g_sh->steps & 7) == 0) {
                bool higher = false;
                for (int i = 0; i < nT; ++i) if (T[i]->st == READY && T[i]->prio > m->prio) higher = true;
                if (higher) pick();
            }
        } else if (sync ? (C.syncP > 0 && R.chance(C.syncP)) : (conflict && C.conflictP > 0 && R.chance(C.conflictP))) {
            pick();
        }
    }
    checkLimits();
    return true;
}

void* threadMain(void* p) {
    Thr* t = static_cast<Thr*>(p);
    t_self = t->id;
    fpost(t->parked);
    fwait(t->go);
    t->fn();
    exitThread();
}

void* bodyMain(void* p) {
    t_self = 0;
    static_cast<Thr*>(p)->fn();
    g_run = false;
    t_self = -1;
    return nullptr;
}

} // namespace

bool running() { return g_run; }
bool active() { return g_run && t_self >= 0; }
int self() { return t_self; }
void enterChild() { g_run = false; t_self = -1; }
uint64_t now() { return g_now; }
void advance(uint64_t ns) { g_now += ns; }
uint64_t cpuTime() { return T[cur]->cpu; }
void setFaults(bool on) { g_faults = on; }
bool faultsOn() { return g_faults; }
void event(uint64_t code) { mix(g_sh->evHash, code); }
void probe(int c, uint64_t n) { if (g_sh) g_sh->counters[c] += n; }
bool threadDone(int tid) { return T[tid]->st == DONE; }
int threadCount() { return nT; }
const char* threadName(int tid) { return T[tid]->name.c_str(); }
void setThreadStart(int tid, const void* fn) { T[tid]->start = fn; }
const void* threadStart(int tid) { return T[tid]->start; }

int64_t choose(char kind, int64_t n) {
    if (n <= 1) return 0;
    Thr* m = T[cur];
    uint64_t k = m->cnt[(int) kind]++;
    int64_t v = 0;
    if (g_draw) v = (int64_t) R.below((uint64_t) n);
    else {
        auto it = g_replay.find({kind, m->id});
        if (it != g_replay.end()) {
            auto j = it->second.find(k);
            if (j != it->second.end()) v = std::min(j->second, n - 1);
        }
    }
    if (v != 0) record(kind, m->id, k, v);
    mix(g_sh->evHash, ((uint64_t) kind << 32) + (uint64_t) v);
    return v;
}

bool fault(char kind, int counterIdx, bool (*allowed)()) {
    if (!g_run) return false;
    Thr* m = T[cur];
    uint64_t k = m->cnt[(int) kind]++;
    if (!g_faults) return false;
    bool v = false;
    if (g_draw) {
        auto p = C.faultP.find(kind);
        if (p != C.faultP.end() && p->second > 0) {
            v = R.chance(p->second);
            auto b = C.faultBurst.find(kind);
            if (v && b != C.faultBurst.end() && b->second > 0 && g_injected[kind] >= b->second) v = false;
        }
    } else {
        auto it = g_replay.find({kind, m->id});
        v = it != g_replay.end() && it->second.count(k);
    }
    if (v && allowed) {   // looks at the stack outside the simulation: a refused fault leaves no trace for a replay
        int me = t_self;
        t_self = -1;
        v = allowed();
        t_self = me;
    }
    if (v) {
        g_injected[kind]++;
        record(kind, m->id, k, 1);
        mix(g_sh->evHash, 0xFA0000 + kind);
        if (counterIdx >= 0) g_sh->counters[counterIdx]++;
    }
    return v;
}

double drawUnit(char kind) { return choose(kind, 1 << 20) / double(1 << 20); }

void point() {
    if (!active()) return;
    g_sh->syncOps++;
    step(T[cur], true, false);
}

void access(const void* addr, size_t, bool write) {
    uintptr_t a = reinterpret_cast<uintptr_t>(addr) >> 2;
    bool conflict = false;
    if (C.conflictP > 0 && g_draw) {
        size_t i = (a * 0x9E3779B97F4A7C15ull) >> 48;
        while (g_tab[i].a && g_tab[i].a != a) i = (i + 1) & (TAB - 1);
        Ent& e = g_tab[i];
        if (e.a) { conflict = e.tid != t_self; e.tid = t_self; }
        else if (g_tabN < TAB / 2) { e.a = a; e.tid = t_self; g_tabN++; }
    }
    step(T[cur], false, conflict);
}

void blockOn(const void* obj) {
    Thr* m = T[cur];
    m->st = BLOCKED; m->obj = obj; m->wakeAt = 0; m->timedOut = false; m->blockSeq = ++g_seq;
    reschedule();
    armPreempt(m);
}

bool blockOnUntil(const void* obj, uint64_t t) {
    Thr* m = T[cur];
    m->st = BLOCKED; m->obj = obj; m->wakeAt = std::max<uint64_t>(t, 1); m->timedOut = false; m->blockSeq = ++g_seq;
    reschedule();
    armPreempt(m);
    return !m->timedOut;
}

int waiters(const void* obj) {
    int n = 0;
    for (int i = 0; i < nT; ++i) if (T[i]->st == BLOCKED && T[i]->obj == obj) n++;
    return n;
}

int wakeOne(const void* obj, char kind) {
    std::vector<int> w;
    for (int i = 0; i < nT; ++i) if (T[i]->st == BLOCKED && T[i]->obj == obj) w.push_back(i);
    if (w.empty()) return 0;
    std::sort(w.begin(), w.end(), [](int a, int b) { return T[a]->blockSeq < T[b]->blockSeq; });
    int i = w[choose(kind, (int64_t) w.size())];
    T[i]->st = READY; T[i]->obj = nullptr; T[i]->wakeAt = 0;
    return 1;
}

int wakeAll(const void* obj) {
    int n = 0;
    for (int i = 0; i < nT; ++i)
        if (T[i]->st == BLOCKED && T[i]->obj == obj) { T[i]->st = READY; T[i]->obj = nullptr; T[i]->wakeAt = 0; n++; }
    return n;
}

void sleepNs(uint64_t ns) {
    static char sleeper;
    blockOnUntil(&sleeper, g_now + std::max<uint64_t>(ns, 1));
}

void yield() {
    Thr* m = T[cur];
    m->acc++; g_sh->steps++; g_now += C.stepNs;
    checkLimits();
    timers();
    int rl[MAXT];
    int n = readyList(rl, cur);
    if (n) { // an explicit yield always lets somebody else run (fairness)
        if (C.mode == 1) m->prio = g_lowPrio--;
        reschedule();
        armPreempt(m);
    } else {
        // only this thread is runnable: time passes (a spinning thread waits for a sleeper)
        uint64_t best = ~0ull;
        for (int i = 0; i < nT; ++i)
            if (T[i]->st == BLOCKED && T[i]->wakeAt) best = std::min(best, T[i]->wakeAt);
        if (best != ~0ull) g_now = std::max(g_now, std::min(best, g_now + 1000000));
    }
}

int spawn(const std::function<void()>& fn, const char* name) {
    if (nT >= MAXT) infra("too many simulated threads");
    Own own;   // what a replay needs in addition must not move the objects of the system
    Thr* t = new Thr();
    t->name = name;
    t->fn = fn; // (can run instrumented code, that is, other simulated threads)
    t->id = nT;
    T[nT++] = t;
    if (g_draw) t->prio = C.mode == 1 ? (int64_t) R.below(1000000) : 0;
    else {
        auto it = g_replay.find({'p', t->id});
        if (it != g_replay.end()) {
            for (auto& kv : it->second) t->pre.push_back(Decision{'p', t->id, kv.first, kv.second});
            std::sort(t->pre.begin(), t->pre.end(), [](const Decision& a, const Decision& b) { return a.n < b.n; });
        }
    }
    armPreempt(t);
    g_sh->threads++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stackOf(t->id), STACK);
    pthread_t pt;
    int rc = sim_native_thread_create(&pt, &at, threadMain, t);
    pthread_attr_destroy(&at);
    if (rc != 0) infra("cannot create a real thread");
    fwait(t->parked);
    mix(g_sh->evHash, 0x7000 + t->id);
    return t->id;
}

void join(int tid) {
    point();
    while (T[tid]->st != DONE) blockOn(T[tid]);
}

void exitThread() {
    Thr* m = T[cur];
    m->st = DONE;
    wakeAll(m);
    mix(g_sh->evHash, 0x8000 + m->id);
    reschedule();
    abort(); // not reached
}

void violation(const char* cls, const char* fmt, ...) {
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
    va_end(ap);
    g_sh->simNs = g_now;
    g_sh->verdict = 2;
    if (getenv("SIM_HANG")) { fprintf(stderr, "pid %d: %s\n", (int) getpid(), g_sh->msg); for (;;) pause(); } // to attach a debugger
    _exit(0);
}

void infra(const char* fmt, ...) {
    snprintf(g_sh->cls, sizeof g_sh->cls, "infrastructure");
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
    va_end(ap);
    g_sh->verdict = 3;
    _exit(0);
}

void finishOk() {
    g_sh->simNs = g_now;
    g_sh->verdict = 1;
    _exit(0);
}

void run(const Config& cfg, const std::vector<Decision>& dec, const std::function<void()>& body) {
    C = cfg;
    R = Rng(cfg.seed);
    g_draw = !cfg.replay;
    for (const Decision& d : dec) g_replay[{d.kind, d.tid}][d.n] = d.v;
    if (C.mode == 1 && g_draw) {
        for (int i = 0; i < C.pctDepth; ++i) g_pctPoints.push_back(1 + R.below(C.pctLen));
        std::sort(g_pctPoints.rbegin(), g_pctPoints.rend());
    }
    Thr* t = new Thr();
    t->name = "main";
    t->id = 0;
    T[0] = t;
    nT = 1;
    if (g_draw) t->prio = C.mode == 1 ? (int64_t) R.below(1000000) : 0;
    else {
        auto it = g_replay.find({'p', 0});
        if (it != g_replay.end()) {
            for (auto& kv : it->second) t->pre.push_back(Decision{'p', 0, kv.first, kv.second});
            std::sort(t->pre.begin(), t->pre.end(), [](const Decision& a, const Decision& b) { return a.n < b.n; });
        }
    }
    cur = 0;
    g_now = 1000000000ull;
    g_run = true;
    armPreempt(t);
    t->fn = body;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, stackOf(0), STACK);
    pthread_t pt;
    if (sim_native_thread_create(&pt, &at, bodyMain, t) != 0) infra("cannot create a real thread");
    pthread_attr_destroy(&at);
    pthread_join(pt, nullptr);
}

} // namespace sim
