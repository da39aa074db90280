// S1: simulator of multithreaded (pthread pool) evaluation.
// This translation unit is instrumented: every memory access of the real evaluation classes is a scheduling point.
#include "evals.hpp"
#ifdef SIM_OPENMP
#include "../openmp/omp_rt.hpp"
#endif
#include <dlfcn.h>

// ------------------------------------------------------------------ the simulated system
enum Kind { EVAL, JOBS, SHUTDOWN, SET, REOPEN, PREPARE };
enum Setting { S_STRATEGY, S_THREADS, S_DISABLED, S_VERBOSE, S_NMEAS, S_GUIDED, S_TIMEREF };
static const char* SN[] = {"strategy", "threads", "disabled", "verbose", "time measurements", "guided max work", "time reference"};
static const float GUIDED[] = {0.75f, 0.0f, 0.1f, 0.5f, 1.0f, 1.5f, 3.0f, 10.0f, 1e30f, -1.0f};
static const unsigned NMEAS[] = {10, 0, 1, 2, 3, 5, 100};

static std::string g_so;
#ifdef SIM_OPENMP
static const bool g_openmp = true;
#else
static const bool g_openmp = false;
#endif

typedef void (*jobfn)(void*);
struct PoolApi {
    void (*addJobs)(jobfn*, void**, const float*, float*, const int*, int*, int, int) = nullptr;
    void (*addJob)(jobfn, void*, const float*, float*) = nullptr;
    void (*wait)() = nullptr;
    void (*prepare)() = nullptr;
    void (*shutdown)() = nullptr;
    void (*setRef)(int) = nullptr;
    int (*getRef)() = nullptr;
    void* h = nullptr;
    void load() {
        h = dlopen(g_so.c_str(), RTLD_NOW | RTLD_NOLOAD);
        if (!h) sim::infra("library not loaded");
        auto get = [&](const char* n) { return dlsym(h, n); };
        *(void**) &addJobs = get("cppadcg_thpool_add_jobs");
        *(void**) &addJob = get("cppadcg_thpool_add_job");
        *(void**) &wait = get("cppadcg_thpool_wait");
        *(void**) &prepare = get("cppadcg_thpool_prepare");
        *(void**) &shutdown = get("cppadcg_thpool_shutdown");
        *(void**) &setRef = get("cppadcg_thpool_set_time_meas_ref");
        *(void**) &getRef = get("cppadcg_thpool_get_time_meas_ref");
        dlclose(h);
    }
};

struct JobArg { int magic; int id; int count; int work; int client; double out; int started; };
static void jobBody(void* p) {
    JobArg* a = static_cast<JobArg*>(p);
    if (a == nullptr || a->magic != 0x1234567) sim::violation("wrong-job", "a job ran with an argument that was not submitted");
    a->started++;
    for (int i = 0; i < a->work; ++i) { sim::point(); a->out += 1; }
    sim::point();
    a->count++;
    sim::probe(sim::C_JOBS);
}

struct World {
    std::unique_ptr<LinuxDynamicLib<double>> lib;
    PoolApi api;
    void* codeLo = nullptr;
    void* codeHi = nullptr;
};

struct Client {
    int id = 0;
    World* w = nullptr;
    bool tolerant = false;   // resource faults may be reported by exceptions
    std::unique_ptr<FunctorGenericModel<double>> models[NM];
    InnerAtomic* inner = nullptr;
    bool extAsModel = false;

    FunctorGenericModel<double>& model(int k) {
        if (!models[k]) {
            std::unique_ptr<FunctorGenericModel<double>> mo = w->lib->modelFunctor(MODELS[k].name);
            if (!mo) sim::violation("missing-model", "model %s is not in the library", MODELS[k].name);
            if (MODELS[k].ext) {
                bool ok = extAsModel ? mo->addExternalModel(model(5)) : mo->addAtomicFunction(*inner);
                if (!ok) sim::violation("missing-external", "the external function is not known to the model");
            }
            models[k] = std::move(mo);
        }
        return *models[k];
    }
};

static void evalOnce(Client& c, int k, int ek, int xi) { evalModel(c.model(k), k, ek, xi); }

static void doJobs(Client& c, const sim::Op& o) {
    PoolApi& api = c.w->api;
    int n = (int) o.a;
    int style = (int) o.b;        // bit 0: single submissions, bit 1: no times, bit 2: no order, bit 3: no measurement
    sim::Rng r((uint64_t) o.c);
    std::vector<JobArg> args((size_t) n + 1);
    std::vector<jobfn> fn((size_t) n + 1, jobBody);
    std::vector<void*> ap((size_t) n + 1);
    std::vector<float> avg((size_t) n + 1, 0.f), el((size_t) n + 1, 0.f);
    std::vector<int> order((size_t) n + 1), j2t((size_t) n + 1, -1);
    int pat = (int) r.below(7);
    for (int i = 0; i < n; ++i) {
        args[(size_t) i] = JobArg{0x1234567, i, 0, (int) r.below(4), c.id, 0, 0};
        ap[(size_t) i] = &args[(size_t) i];
        float v = 0;
        switch (pat) {
            case 0: v = 0.001f; break;
            case 1: v = 1.0f + (float) r.unit(); break;
            case 2: v = std::pow(10.f, (float) (r.unit() * 12 - 9)); break;
            case 3: v = i == 0 ? 1000.f : 1e-6f; break;
            case 4: v = r.below(2) ? 0.f : 1e-3f; break;
            case 5: v = 1e-30f; break;
            case 6: v = i == n - 1 ? 1e5f : 1e-4f * (float) (i + 1); break;
        }
        avg[(size_t) i] = v;
        order[(size_t) i] = i;
    }
    for (int i = n - 1; i > 0; --i) std::swap(order[(size_t) i], order[r.below((uint64_t) i + 1)]);
    int rounds = 1 + (int) ((o.c >> 8) & 1);
    for (int k = 0; k < rounds; ++k) {
        if (style & 1) {
            for (int i = 0; i < n; ++i)
                api.addJob(fn[(size_t) i], ap[(size_t) i], style & 2 ? nullptr : &avg[(size_t) i], style & 8 ? nullptr : &el[(size_t) i]);
        } else {
            api.addJobs(fn.data(), ap.data(), style & 2 ? nullptr : avg.data(), style & 8 ? nullptr : el.data(), style & 4 ? nullptr : order.data(), j2t.data(), n, k == 0);
        }
        api.wait();
        for (int i = 0; i < n; ++i) {
            if (args[(size_t) i].count != k + 1 || args[(size_t) i].started != k + 1)
                sim::violation(args[(size_t) i].count > k + 1 ? "job-repeated" : "job-missing",
                               "job %d of %d was started %d and completed %d times when wait returned (expected %d)", i, n, args[(size_t) i].started, args[(size_t) i].count, k + 1);
        }
    }
}

// the OpenMP settings of the calling thread belong to it
struct CallerSettings {
#ifdef SIM_OPENMP
    simomp::Icv before;
    CallerSettings() : before(simomp::icv()) {}
    NOSAN void check(int k, int ek) {
        simomp::Icv& a = simomp::icv();
        if (a.kind != before.kind || a.chunk != before.chunk || a.nthreads != before.nthreads || a.dyn != before.dyn || a.levels != before.levels)
            sim::violation("caller-settings", "%s of model %s changed the caller's OpenMP settings: schedule %d,%d -> %d,%d, threads %d -> %d", EK[ek], MODELS[k].name,
                           before.kind, before.chunk, a.kind, a.chunk, before.nthreads, a.nthreads);
    }
#else
    void check(int, int) {}
#endif
};

class PoolSystem : public sim::System {
public:
    std::string describe(const sim::Op& o) override {
        std::ostringstream s;
        switch (o.kind) {
            case EVAL: s << EK[o.b] << " of " << MODELS[o.a].name << " at point " << o.c; break;
            case JOBS: s << o.a << " jobs, style " << o.b << ", then wait"; break;
            case SHUTDOWN: s << "shut the pool down"; break;
            case SET: s << "set " << SN[o.a] << " to " << o.b; break;
            case REOPEN: s << "close the library and open it again"; break;
            case PREPARE: s << "create the pool"; break;
        }
        return s.str();
    }
    std::vector<const char*> counterNames() override {
        std::vector<const char*> n(64, "");
        n[sim::C_MALLOC_FAIL] = "fault: failed malloc"; n[sim::C_THREAD_FAIL] = "fault: failed thread creation"; n[sim::C_CLOCK_FAIL] = "fault: failed clock reading";
        n[sim::C_CLOCK_JUMP] = "fault: wall clock jump"; n[sim::C_SPURIOUS] = "fault: spurious wake-up"; n[sim::C_BADALLOC] = "fault: failed operator new";
        n[sim::C_EXTFAIL] = "fault: external function reports failure"; n[sim::C_EXTTHROW] = "fault: external function throws";
        n[sim::C_CPUODD] = "fault: arbitrary CPU time reading"; n[sim::C_PREEMPT] = "preemptions"; n[sim::C_FORCED] = "fair rotations";
        n[sim::C_EVAL] = "evaluations"; n[sim::C_JOBS] = "pool API jobs executed"; n[sim::C_SHUTDOWN] = "pool shutdowns"; n[sim::C_RECONF] = "setting changes";
        n[sim::C_RELOAD] = "library reopenings"; n[sim::C_CONCURRENT] = "runs with several caller threads"; n[sim::C_TIMEJUMP] = "idle time jumps";
        n[sim::C_EXC] = "evaluations reported as failed"; n[sim::C_NEST] = "library worker threads created";
        n[sim::C_SMALLTEAM] = "fault: OpenMP team smaller than requested"; n[sim::C_STALL] = "OpenMP parallel regions";
        return n;
    }
    void prepare(const std::string& prop) override {
        sim::heapInit();
        buildRefs();
    }
    sim::Config simConfig(const sim::Scenario& s) override { return sim::configFrom(s); }

    static sim::Op evalOp(sim::Rng& r, int client, const std::string& prop, bool allowExt) {
        static const int weights[] = {3, 3, 0, 0, 0, 0, 0, 0, 2, 2};
        static const int weightsAll[] = {4, 4, 2, 1, 1, 1, 1, 1, 2, 2};
        const int* w = prop == "C02" || prop == "C14" ? weightsAll : weights;
        for (;;) {
            int k = (int) r.below(12);
            static const int pick[] = {0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 6};
            int mo = pick[k];
            if (prop == "C14") mo = 4;
            if (mo == 4 && !allowExt) continue;
            if (mo == 5 && prop != "C02") continue;
            int tot = 0;
            for (int i = 0; i < 10; ++i) tot += w[i];
            int x = (int) r.below((uint64_t) tot), e = 0;
            while (x >= w[e]) { x -= w[e]; e++; }
            if (mo == 4 && (e == E_DJ || e == E_DH)) continue;
            if (mo == 1 && e == E_F1) continue;
            if (mo == 0 && e == E_R1) continue;
            return sim::Op{client, EVAL, mo, e, (long) r.below(NX), 0};
        }
    }
    static sim::Op setOp(sim::Rng& r, int client, bool concurrent) {
        int s = concurrent ? (r.below(2) ? S_STRATEGY : S_GUIDED) : (int) r.below(7);
        long v = 0;
        switch (s) {
            case S_STRATEGY: v = 1 + (long) r.below(3); break;
            case S_THREADS: { static const long t[] = {0, 1, 2, 3, 4, 6, 8, 20}; v = t[r.below(8)]; break; }
            case S_DISABLED: v = r.below(3) == 0; break;
            case S_VERBOSE: v = (long) r.below(2); break;
            case S_NMEAS: v = (long) r.below(7); break;
            case S_GUIDED: v = (long) r.below(10); break;
            case S_TIMEREF: v = (long) r.below(2); break;
        }
        return sim::Op{client, SET, s, v, 0, 0};
    }
    static sim::Op jobsOp(sim::Rng& r, int client) {
        static const long n[] = {0, 1, 2, 3, 4, 5, 7, 10, 16};
        return sim::Op{client, JOBS, n[r.below(9)], (long) r.below(16), (long) r.below(1 << 20), 0};
    }

    sim::Scenario generate(const std::string& prop, uint64_t seed) override {
        sim::Rng r(seed * 7919 + 17);
        sim::Scenario s;
        s.prop = prop;
        s.seed = seed;
        sim::drawSchedule(s, r);
        s.cfg["cpuMode"] = (double) r.below(5);
        s.cfg["monoMode"] = (double) r.below(2);
        s.cfg["threads"] = 1 + (double) r.below(5);
        s.cfg["strategy"] = 1 + (double) r.below(3);
        static const double gm[] = {0.75, 0.75, 0.1, 0.5, 1.0, 2.0, 5.0};
        s.cfg["guided"] = gm[r.below(7)];
        s.cfg["nmeas"] = (double) NMEAS[r.below(7)];
        s.cfg["timeref"] = (double) r.below(2);
        s.cfg["verbose"] = r.below(8) == 0;
        s.cfg["extAsModel"] = (double) r.below(2);
        if (r.below(3) == 0) s.cfg["f.s"] = 0.05;       // spurious wake-ups
        int n = 1 + (int) r.below(6);
        if (prop == "C01") {
            if (r.below(12) == 0) s.cfg["nopool"] = 1;
            for (int i = 0; i < n; ++i) s.ops.push_back(evalOp(r, 0, prop, true));
            if (r.below(2)) for (auto& o : s.ops) o.a = s.ops[0].a, o.b = s.ops[0].b; // the same function: uses its measured times
        } else if (prop == "C02") {
            int cl = 2 + (int) (r.below(4) == 0);
            s.cfg["clients"] = cl;
            if (r.below(3) == 0) s.cfg["nopool"] = 1;
            bool sameFn = r.below(2);
            for (int c = 0; c < cl; ++c) {
                int k = 1 + (int) r.below(4);
                for (int i = 0; i < k; ++i) {
                    s.ops.push_back(evalOp(r, c, prop, false));
                    if (sameFn) { s.ops.back().a = s.ops[0].a; s.ops.back().b = s.ops[0].b; }
                }
            }
        } else if (prop == "C03") {
            int cl = 1 + (int) r.below(3);
            s.cfg["clients"] = cl;
            for (int c = 0; c < cl; ++c) {
                int k = 1 + (int) r.below(4);
                for (int i = 0; i < k; ++i) s.ops.push_back(jobsOp(r, c));
            }
        } else if (prop == "C04") {
            for (int i = 0; i < n; ++i) {
                switch (r.below(6)) {
                    case 0: s.ops.push_back(sim::Op{0, SHUTDOWN, 0, 0, 0, 0}); break;
                    case 1: s.ops.push_back(sim::Op{0, REOPEN, 0, 0, 0, 0}); break;
                    case 2: s.ops.push_back(sim::Op{0, PREPARE, 0, 0, 0, 0}); break;
                    case 3: s.ops.push_back(jobsOp(r, 0)); break;
                    default: s.ops.push_back(evalOp(r, 0, prop, true));
                }
            }
            s.ops.push_back(sim::Op{0, r.below(2) ? SHUTDOWN : REOPEN, 0, 0, 0, 0});
            if (r.below(4) == 0) { s.cfg["wallMode"] = 1; s.cfg["f.j"] = 0.2; }
        } else if (prop == "C05") {
            static const double p[] = {0.01, 0.05, 0.2, 1.0};
            if (r.below(2)) { s.cfg["f.m"] = p[r.below(4)]; s.cfg["b.m"] = (double) (r.below(4) == 0 ? 0 : 1 + r.below(3)); }
            if (r.below(2)) { s.cfg["f.t"] = p[1 + r.below(3)]; s.cfg["b.t"] = (double) (r.below(3) == 0 ? 0 : 1 + r.below(3)); }
            if (r.below(3) == 0) { s.cfg["f.c"] = p[r.below(4)]; s.cfg["b.c"] = (double) r.below(4); }
            if (r.below(4) == 0) { s.cfg["f.n"] = p[r.below(2)]; s.cfg["b.n"] = 2; }
            for (int i = 0; i < n; ++i) {
                if (r.below(7) == 0) s.ops.push_back(sim::Op{0, SHUTDOWN, 0, 0, 0, 0});
                else s.ops.push_back(evalOp(r, 0, prop, r.below(4) == 0));
            }
            if (r.below(2)) for (auto& o : s.ops) if (o.kind == EVAL) { o.a = 0; o.b = s.ops[0].b; }
        } else if (prop == "C06") {
            int cl = r.below(4) == 0 ? 2 : 1;
            s.cfg["clients"] = cl;
            n = 2 + (int) r.below(9);
            for (int i = 0; i < n; ++i) {
                switch (r.below(9)) {
                    case 0: case 1: case 2: case 3: s.ops.push_back(setOp(r, 0, cl > 1)); break;
                    case 4: if (cl == 1) { s.ops.push_back(sim::Op{0, SHUTDOWN, 0, 0, 0, 0}); break; }
                    // fallthrough
                    case 5: if (r.below(2)) { s.ops.push_back(jobsOp(r, cl > 1 ? 1 : 0)); break; }
                    // fallthrough
                    default: s.ops.push_back(evalOp(r, cl > 1 ? 1 : 0, prop, cl == 1));
                }
            }
            if (r.below(2)) { sim::Op* f = nullptr; for (auto& o : s.ops) if (o.kind == EVAL) { if (!f) f = &o; o.a = f->a; o.b = f->b; } }
        } else if (prop == "C07") {
            int cl = r.below(3) == 0 ? 2 + (int) r.below(2) : 1;
            s.cfg["clients"] = cl;
            s.cfg["icvKind"] = 1 + (double) r.below(4);
            s.cfg["icvMono"] = r.below(6) == 0;
            s.cfg["icvChunk"] = (double) r.below(6);
            s.cfg["icvThreads"] = 1 + (double) r.below(6);
            s.cfg["icvLevels"] = 1 + (double) r.below(3);
            if (cl > 1) s.cfg["inRegion"] = r.below(2);
            if (r.below(3) == 0) s.cfg["f.d"] = 0.3;        // teams smaller than requested
            if (r.below(6) == 0) s.cfg["f.c"] = 0.1;        // clock failures (verbose output)
            if (r.below(8) == 0) s.cfg["nopool"] = 1;
            s.cfg["threads"] = 1 + (double) r.below(r.below(3) ? 4 : 14);
            bool same = r.below(2);
            for (int c = 0; c < cl; ++c) {
                int k = 1 + (int) r.below(cl > 1 ? 3 : 6);
                for (int i = 0; i < k; ++i) {
                    if (cl == 1 && r.below(4) == 0) {
                        static const int st[] = {S_STRATEGY, S_STRATEGY, S_THREADS, S_DISABLED, S_VERBOSE};
                        sim::Op o;
                        do o = setOp(r, 0, false); while (o.a != st[r.below(5)]);
                        s.ops.push_back(o);
                        continue;
                    }
                    s.ops.push_back(evalOp(r, c, prop, cl == 1));
                    if (same) for (auto& o : s.ops) if (o.kind == EVAL) { s.ops.back().a = o.a; s.ops.back().b = o.b; break; }
                }
            }
        } else if (prop == "C14") {
            static const double p[] = {0.02, 0.1, 0.3};
            if (r.below(3)) s.cfg["f.x"] = p[r.below(3)];
            if (r.below(2)) s.cfg["f.y"] = p[r.below(3)];
            s.cfg["extAsModel"] = 0;
            if (r.below(4) == 0) s.cfg["nopool"] = 1;
            for (int i = 0; i < n; ++i) s.ops.push_back(evalOp(r, 0, prop, true));
        }
        return s;
    }

    // --------------------------------------------------------------- one run
    static bool inPar() { return g_par; }
    static size_t thrNum() { return g_par && sim::t_self >= 0 ? (size_t) sim::t_self : 0; }
    static bool g_par;

    static void setting(World& w, int s, long v, bool check) {
        LinuxDynamicLib<double>& l = *w.lib;
        sim::probe(sim::C_RECONF);
        switch (s) {
            case S_STRATEGY:
                l.setThreadPoolSchedulerStrategy((ThreadPoolScheduleStrategy) v);
                if (check && l.getThreadPoolSchedulerStrategy() != (ThreadPoolScheduleStrategy) v) sim::violation("getter", "strategy %ld is not reported back", v);
                break;
            case S_THREADS:
                l.setThreadNumber((unsigned) v);
                if (check && l.getThreadNumber() != (unsigned) (g_openmp && v == 0 ? 1 : v)) sim::violation("getter", "thread number %ld is not reported back", v);
                break;
            case S_DISABLED:
                l.setThreadPoolDisabled(v != 0);
                if (check && l.isThreadPoolDisabled() != (v != 0)) sim::violation("getter", "disabled %ld is not reported back", v);
                break;
            case S_VERBOSE:
                l.setThreadPoolVerbose(v != 0);
                if (check && l.isThreadPoolVerbose() != (v != 0)) sim::violation("getter", "verbose %ld is not reported back", v);
                break;
            case S_NMEAS:
                l.setThreadPoolNumberOfTimeMeas(NMEAS[v]);
                if (check && l.getThreadPoolNumberOfTimeMeas() != NMEAS[v]) sim::violation("getter", "number of measurements %u is not reported back", NMEAS[v]);
                break;
            case S_GUIDED:
                l.setThreadPoolGuidedMaxWork(GUIDED[v]);
                if (check && l.getThreadPoolGuidedMaxWork() != GUIDED[v]) sim::violation("getter", "guided limit %g is not reported back", (double) GUIDED[v]);
                break;
            case S_TIMEREF:
                if (w.api.setRef) {
                    w.api.setRef((int) v);
                    if (check && w.api.getRef() != (int) v) sim::violation("getter", "time reference %ld is not reported back", v);
                }
                break;
        }
    }

    static void open(World& w, const sim::Scenario& s) {
        w.lib.reset(new LinuxDynamicLib<double>(g_so));
        if (!g_openmp) w.api.load();
        LinuxDynamicLib<double>& l = *w.lib;
        l.setThreadNumber((unsigned) s.get("threads", 2));
        l.setThreadPoolSchedulerStrategy((ThreadPoolScheduleStrategy) (int) s.get("strategy", 2));
        l.setThreadPoolGuidedMaxWork((float) s.get("guided", 0.75));
        l.setThreadPoolNumberOfTimeMeas((unsigned) s.get("nmeas", 10));
        l.setThreadPoolVerbose(s.get("verbose") != 0);
        l.setThreadPoolDisabled(s.get("nopool") != 0);
        if (w.api.setRef) w.api.setRef((int) s.get("timeref"));
    }
    static void checkQuiet(const char* when) {
        if (sim::livePthreads() > 0) sim::violation("thread-alive", "%d worker threads still exist after %s", sim::livePthreads(), when);
        if (sim::heapLiveBlocks() > 0)
            sim::violation("leak", "%zu blocks (%zu bytes) are still allocated after %s", sim::heapLiveBlocks(), sim::heapLiveBytes(), when);
    }
    static void close(World& w) {
        size_t alive;
        (void) alive;
        // threads must be gone before the code is unloaded
        w.lib.reset();
        checkQuiet("closing the library");
    }

    // failing C++ allocations: only while an evaluation runs (not in the code of this simulator)
    struct NewFaults {
        bool want;
        explicit NewFaults(const sim::Scenario& s) : want(s.prop == "C05" && s.cfg.count("f.n")) {}
        void on() { if (want) sim::g_newFaults = true; }
        void off() { if (want) sim::g_newFaults = false; }
    };
    static void clientRun(Client& c, const sim::Scenario& s, bool multi) {
        bool tolerant = s.prop == "C05";
        bool ext = s.prop == "C14";
        for (const sim::Op& o : s.ops) {
            if (o.client != c.id) continue;
            switch (o.kind) {
                case EVAL: {
                    if (ext) g_extBefore = extFailures();
                    NewFaults nf(s);
                    CallerSettings cs;
                    try {
                        nf.on();
                        evalOnce(c, (int) o.a, (int) o.b, (int) o.c);
                        nf.off();
                        cs.check((int) o.a, (int) o.b);
                    } catch (const std::exception& e) {
                        nf.off();
                        uint64_t injected = 0;
                        for (int k : {sim::C_MALLOC_FAIL, sim::C_THREAD_FAIL, sim::C_CLOCK_FAIL, sim::C_BADALLOC}) injected += sim::g_sh->counters[k];
                        if (ext ? extFailures() == g_extBefore : !(tolerant && injected > 0))
                            sim::violation("unexpected-exception", "%s of model %s failed without cause: %s", EK[o.b], MODELS[o.a].name, e.what());
                        sim::probe(sim::C_EXC);
                    }
                    break;
                }
                case JOBS: doJobs(c, o); break;
                case SHUTDOWN:
                    c.w->api.shutdown();
                    sim::probe(sim::C_SHUTDOWN);
                    checkQuiet("pool shutdown");
                    break;
                case SET: setting(*c.w, (int) o.a, o.b, true); break;
                case REOPEN:
                    for (auto& m : c.models) m.reset();
                    close(*c.w);
                    sim::probe(sim::C_RELOAD);
                    open(*c.w, s);
                    break;
                case PREPARE: c.w->api.prepare(); break;
            }
        }
    }
    void execute(const sim::Scenario& s) override {
        sim::g_clock.cpuMode = (int) s.get("cpuMode");
        sim::g_clock.monoMode = (int) s.get("monoMode");
        sim::g_clock.wallMode = (int) s.get("wallMode");
        int clients = (int) s.get("clients", 1);
        bool multi = clients > 1;
#ifdef SIM_OPENMP
        auto callerIcv = [&s](int c) {
            simomp::Icv& v = simomp::icv();
            v.kind = 1 + ((int) s.get("icvKind", 2) - 1 + c) % 4;
            v.chunk = (int) s.get("icvChunk", 1) + c;
            if (v.kind != 1 && v.kind != 4 && v.chunk < 1) v.chunk = 1;
            if (s.get("icvMono") != 0) v.kind |= (int) 0x80000000u;
            v.nthreads = (int) s.get("icvThreads", 4);
            v.levels = (int) s.get("icvLevels", 1);
        };
        callerIcv(0);
#endif
        InnerAtomic inner;
        g_extFaults = s.prop == "C14";
        sim::setFaults(false);
        World w;
        open(w, s);
        if (multi) {
            CppAD::thread_alloc::parallel_setup(CPPAD_MAX_NUM_THREADS, inPar, thrNum);
            CppAD::parallel_ad<double>();
            sim::probe(sim::C_CONCURRENT);
        }
        sim::setFaults(true);
        std::vector<std::unique_ptr<Client>> cs;
        for (int i = 0; i < clients; ++i) {
            cs.emplace_back(new Client());
            cs.back()->id = i;
            cs.back()->w = &w;
            cs.back()->inner = &inner;
            cs.back()->extAsModel = s.get("extAsModel") != 0;
        }
        if (!multi) {
            clientRun(*cs[0], s, false);
        } else {
            g_par = true;
            // models are obtained before the threads start (creating them concurrently is not promised)
            std::vector<int> tids;
            for (int i = 0; i < clients; ++i) {
                for (const sim::Op& o : s.ops) if (o.kind == EVAL && o.client == i) cs[(size_t) i]->model((int) o.a);
            }
#ifdef SIM_OPENMP
            if (s.get("inRegion") != 0) {   // the callers are threads of a parallel region of the application
                sim::setFaults(false);
                simomp::parallel(clients, [&](int i) {
                    sim::setFaults(true);
                    if (i < clients) { callerIcv(i); clientRun(*cs[(size_t) i], s, true); }
                });
            } else
#endif
            for (int i = 0; i < clients; ++i) {
                Client* c = cs[(size_t) i].get();
                #ifdef SIM_OPENMP
                tids.push_back(sim::spawn([c, &s, i, &callerIcv] { callerIcv(i); clientRun(*c, s, true); }, "caller"));
#else
                tids.push_back(sim::spawn([c, &s] { clientRun(*c, s, true); }, "caller"));
#endif
            }
            for (int t : tids) sim::join(t);
            g_par = false;
        }
        // faults stop: everything must work again
        sim::setFaults(false);
        sim::g_newFaults = false;
        if (s.prop == "C05" || s.prop == "C14") {
            for (int i = 0; i < 2; ++i)
                for (const sim::Op& o : s.ops)
                    if (o.kind == EVAL) { g_extBefore = extFailures(); evalOnce(*cs[0], (int) o.a, (int) o.b, (int) o.c); }
        }
        if (s.prop == "C06") { // the last configuration still works
            evalOnce(*cs[0], 0, E_SJ, 1);
            evalOnce(*cs[0], 0, E_SH, 2);
        }
        for (auto& c : cs) for (auto& m : c->models) m.reset();
#ifdef SIM_OPENMP
        sim::probe(sim::C_STALL, (uint64_t) simomp::regions());
#endif
        close(w);
    }
};
bool PoolSystem::g_par = false;

int main(int argc, char** argv) {
    const char* so = getenv("SIM_SO");
    if (!so) { fprintf(stderr, "SIM_SO not set\n"); return 3; }
    g_so = so;
    PoolSystem p;
    return sim::runnerMain(argc, argv, p);
}
