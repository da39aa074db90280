// Deterministic scheduler: real threads, parked and released one at a time.
// Exactly one thread (the baton holder) runs at any time; every decision is drawn from one PRNG
// or, in replay, taken from a recorded list of decisions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace sim {

struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) {
        for (auto& v : s) {
            seed += 0x9E3779B97F4A7C15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            v = z ^ (z >> 31);
        }
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

// One non-default decision: kind 'p' = preempt thread tid at its n-th step in favour of thread v;
// 'b' = when tid gives up the processor for the n-th time, v runs next; other kinds are fault or value choices.
struct Decision { char kind; int tid; uint64_t n; int64_t v; };

enum { MAXT = 256, MAXDEC = 60000 };

// Lives in memory shared with the parent process, so that it survives a crash of the run.
struct Shared {
    volatile int verdict;            // 0 = running, 1 = ok, 2 = violation, 3 = infrastructure error
    char cls[64];
    char msg[1200];
    uint64_t steps, switches, syncOps, evHash, ileHash, simNs;
    uint64_t threads, ops;
    uint64_t counters[64];
    int nDec;
    Decision dec[MAXDEC];
};

struct Config {
    uint64_t seed = 1;
    bool replay = false;
    // schedule
    int mode = 0;                // 0 random gaps, 1 priorities with change points, 2 only at synchronisation operations
    double meanGap = 50;         // mean number of accesses between preemptions
    double conflictP = 0.0;      // extra preemption probability at an access to data another thread touched
    double syncP = 0.1;          // preemption probability at a synchronisation operation
    int pctDepth = 3;
    uint64_t pctLen = 3000;
    uint64_t fairness = 4000;    // forced rotation after that many consecutive steps
    uint64_t maxSteps = 4000000; // progress bound
    uint64_t stepNs = 20;
    // faults (probabilities per occurrence)
    std::map<char, double> faultP;
    std::map<char, int> faultBurst; // max number of injections per run (0 = unlimited)
};

extern Shared* g_sh;

bool active();                   // in a run, on a simulated thread
bool running();                  // a run is in progress
void enterChild();               // in a forked child: the scheduler is not available any more
extern thread_local int t_own;   // > 0: the simulator's own code (its allocations are not the system's)
struct Own { Own() { t_own++; } ~Own() { t_own--; } };
int self();
void run(const Config& cfg, const std::vector<Decision>& replayDec, const std::function<void()>& body); // body = thread 0
int spawn(const std::function<void()>& fn, const char* name);
void join(int tid);
// decisions
int64_t choose(char kind, int64_t n);            // 0 <= result < n, default 0
bool fault(char kind, int counterIdx, bool (*allowed)() = nullptr);           // injected fault?
void setFaults(bool on);
bool faultsOn();
double drawUnit(char kind);                      // recorded value in [0,1) with 2^-20 resolution, default 0
// scheduling primitives
void point();                                    // synchronisation operation: possible preemption
void access(const void* addr, size_t size, bool write);
void blockOn(const void* obj);                   // gives up the processor until wake(obj)
bool blockOnUntil(const void* obj, uint64_t absNs); // false = timed out
int  wakeOne(const void* obj, char decisionKind); // returns number woken
int  wakeAll(const void* obj);
int  waiters(const void* obj);
void sleepNs(uint64_t ns);
void yield();
uint64_t now();
void advance(uint64_t ns);
uint64_t cpuTime();
void event(uint64_t code);
void probe(int counter, uint64_t n = 1);
[[noreturn]] void violation(const char* cls, const char* fmt, ...);
[[noreturn]] void infra(const char* fmt, ...);
[[noreturn]] void finishOk();
bool threadDone(int tid);
int  threadCount();
const char* threadName(int tid);
void setThreadStart(int tid, const void* fn);
const void* threadStart(int tid);
void setDaemonDone();            // current thread is done: never returns
[[noreturn]] void exitThread();

extern thread_local int t_self;

// counters
enum Counter { C_MALLOC_FAIL, C_THREAD_FAIL, C_CLOCK_FAIL, C_CLOCK_JUMP, C_SPURIOUS, C_STALL, C_BADALLOC, C_EXTFAIL, C_EXTTHROW,
    C_PREEMPT, C_FORCED, C_EVAL, C_JOBS, C_SHUTDOWN, C_RECONF, C_RELOAD, C_CONCURRENT, C_GUIDED_MULTI, C_STATIC_GROUPS, C_TIMEJUMP,
    C_EXC, C_SMALLTEAM, C_CPUODD, C_NEST, C_USER0 = 40 };

} // namespace sim
