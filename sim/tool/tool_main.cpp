// S3: simulator of library creation: real compilers/archiver/processors/timer against a simulated operating system with scripted tools.
// This translation unit is instrumented (accesses are scheduling points) and its system calls are renamed to the simulated ones.
#include <cppad/cg.hpp>
#include "kernel.hpp"
#include "../core/sched.hpp"
#include "../core/seams.hpp"
#include "../core/runner.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <signal.h>
#include <sstream>

using namespace CppAD;
using namespace CppAD::cg;
typedef CG<double> CGD;
typedef AD<CGD> ADCG;

#define NOSAN __attribute__((no_sanitize("thread")))

extern "C" const char* sim_loadedPath(void* h);
extern "C" int sim_openLibs();

typedef std::map<std::string, std::string> Sources;

struct Gen : public ModelCSourceGen<double> {
    Gen(ADFun<CGD>& f, const std::string& n) : ModelCSourceGen<double>(f, n) {}
    const Sources& all(MultiThreadingType mt) { return this->getSources(mt, nullptr); }
};
struct Loaded : public LinuxDynamicLib<double> {
    void* handle() const { return this->_dynLibHandle; }
};

enum { NC = 3, NM = 2 };
static std::unique_ptr<ADFun<CGD>> FUN[NC][NM];
static std::unique_ptr<Gen> GEN[NC][NM];

static void throwingHandler(bool, int, const char*, const char* exp, const char* msg) { throw CGException(msg, " [", exp, "]"); }

extern "C" unsigned long sim_apiVersion;

static void makeModels() {
    static CppAD::ErrorHandler handler(throwingHandler);   // CppAD's default handler ends the process
    sim_apiVersion = ModelLibraryCSourceGen<double>::API_VERSION;
    for (int c = 0; c < NC; ++c)
        for (int k = 0; k < NM; ++k) {
            std::vector<ADCG> x(2), y((size_t) k + 1);
            for (auto& v : x) v = ADCG(CGD(1.0));
            CppAD::Independent(x);
            for (size_t i = 0; i < y.size(); ++i) y[i] = x[0] * x[1] + sin(x[0]) * ADCG(CGD(double(i + 1)));
            FUN[c][k].reset(new ADFun<CGD>(x, y));
            GEN[c][k].reset(new Gen(*FUN[c][k], "m" + std::to_string(c) + std::to_string(k)));
            GEN[c][k]->setCreateForwardZero(true);
            GEN[c][k]->setCreateJacobian(k == 1);
            GEN[c][k]->setCreateHessian(false);
            GEN[c][k]->setCreateSparseJacobian(false);
            GEN[c][k]->setCreateSparseHessian(false);
            GEN[c][k]->setCreateForwardOne(false);
            GEN[c][k]->setCreateReverseOne(false);
            GEN[c][k]->setCreateReverseTwo(false);
            GEN[c][k]->all(MultiThreadingType::NONE);
        }
}

enum Kind { DYN, STAT, SAVE, COMPILE, BITCODE, VERSION, CALL, TOGGLE, GENLIB, NKIND };
static const char* KN[] = {"create dynamic library", "create static library", "save sources", "compile sources", "generate bitcode", "ask compiler version",
    "run tool", "change setting", "generate and create library"};
static const size_t SIZES[] = {0, 1, 300, 4096, 65535, 65536, 65537, 100000, 200000};
static const int NSIZES = sizeof SIZES / sizeof SIZES[0];

static std::string textOf(size_t n, int salt) {
    std::string s(n, 'a');
    for (size_t i = 0; i < n; ++i) s[i] = (i + (size_t) salt) % 71 == 0 ? '\n' : (char) ('a' + (i * 7 + i / 71 + (size_t) salt) % 26);
    return s;
}

struct ListenerError : public std::runtime_error { ListenerError() : std::runtime_error("listener failed") {} };

struct Listener : public JobListener {
    std::vector<std::string> stack;
    std::vector<uint64_t> began;
    std::string broken;
    bool throws = false;
    long started = 0, ended = 0;
    void jobStarted(const std::vector<Job>& j) override {
        sim::Own own;
        sim::point();
        if (throws && sim::fault('T', osim::K_LISTENER)) throw ListenerError();
        if (j.empty()) { broken = "start reported without a job"; return; }
        if (j.size() != stack.size() + 1 && broken.empty()) broken = "a start is reported at depth " + std::to_string(j.size()) + " while " + std::to_string(stack.size()) + " jobs are open";
        stack.push_back(j.back().getType().getActionName() + " " + j.back().name());
        began.push_back(sim::now());
        started++;
    }
    void jobEndended(const std::vector<Job>& j, duration d) override {
        sim::Own own;
        sim::point();
        ended++;
        if (stack.empty() || j.empty()) { if (broken.empty()) broken = "an end is reported while no job is open"; }
        else {
            std::string n = j.back().getType().getActionName() + " " + j.back().name();
            if ((n != stack.back() || j.size() != stack.size()) && broken.empty()) broken = "the end of '" + n + "' is reported while '" + stack.back() + "' is the innermost open job";
            long long ns = (long long) std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
            if (ns < 0 && broken.empty()) broken = "negative duration of '" + n + "'";
            if (ns > (long long) (sim::now() - began.back()) + 1000000 && broken.empty()) broken = "duration of '" + n + "' longer than the time which passed";
            stack.pop_back();
            began.pop_back();
        }
        if (throws && sim::fault('T', osim::K_LISTENER)) throw ListenerError();
    }
};

struct Client {
    int id = 0;
    std::unique_ptr<AbstractCCompiler<double>> cc[2];
    ClangCompiler<double>* clang = nullptr;
    ArArchiver ar;
    std::unique_ptr<ModelLibraryCSourceGen<double>> lib[2];
    Sources expect[2];
    size_t requested[2] = {0, 0};
    bool inherentError[2] = {false, false};
    std::vector<std::string> flags[2];
    Listener lis[2];
    bool attached[2][2] = {{false, false}, {false, false}};   // [lib][listener]
    int calls = 0;

    Client(int i, const sim::Scenario& s) : id(i) {
        cc[0].reset(new GccCompiler<double>());
        clang = new ClangCompiler<double>();
        cc[1].reset(clang);
        for (int k = 0; k < 2; ++k) {
            cc[k]->setTemporaryFolder("tmp" + std::to_string(i) + (k ? "c" : "g"));
            cc[k]->setSourcesFolder("src" + std::to_string(i) + (k ? "c" : "g"));
            flags[k] = cc[k]->getCompileFlags();
        }
        lib[0].reset(new ModelLibraryCSourceGen<double>(*GEN[i][0]));
        lib[1].reset(new ModelLibraryCSourceGen<double>(*GEN[i][0], *GEN[i][1]));
        int nc = (int) s.get("customs");
        for (int k = 0; k < nc; ++k) {
            std::string t = textOf(SIZES[(int) s.get("size" + std::to_string(k))], k + 7 * i);
            if (k == 0 && s.get("err") != 0) { t += "\n#error\n"; inherentError[1] = true; }
            lib[1]->addCustomFunctionSource("custom" + std::to_string(k) + ".c", t);
            requested[1]++;
        }
        if (s.get("clash") != 0) {
            lib[1]->addCustomFunctionSource(GEN[i][0]->getName() + "_forward_zero.c", "/* other */\n");
            inherentError[1] = true;
            requested[1]++;
        }
        for (int l = 0; l < 2; ++l) {
            for (int k = 0; k <= l; ++k) { const Sources& m = GEN[i][k]->all(MultiThreadingType::NONE); expect[l].insert(m.begin(), m.end()); requested[l] += m.size(); }
            const Sources& ls = lib[l]->getLibrarySources();
            expect[l].insert(ls.begin(), ls.end());
            requested[l] += ls.size();
            for (auto& p : lib[l]->getCustomSources()) expect[l].insert(p);
        }
        lis[1].throws = s.get("throwing") != 0;
    }
};

// which properties a finding belongs to
static std::string g_prop;
static bool judged(const char* props) { return strstr(props, g_prop.c_str()) != nullptr; }
#define JUDGE(props, ...) do { if (judged(props)) sim::violation(__VA_ARGS__); } while (0)

struct ToolSystem : public sim::System {
    std::vector<const char*> counterNames() override {
        std::vector<const char*> n(64, "");
        n[sim::C_BADALLOC] = "fault: failed C++ allocations";
        n[sim::C_CLOCK_JUMP] = "fault: wall clock jumps";
        n[sim::C_PREEMPT] = "random preemptions";
        n[sim::C_EVAL] = "operations";
        n[sim::C_CONCURRENT] = "runs with several client threads";
        n[sim::C_EXC] = "operations ended by an exception";
        n[osim::K_PIPEFAIL] = "fault: descriptor exhaustion (pipe, fcntl)";
        n[osim::K_FORKFAIL] = "fault: failed process creations";
        n[osim::K_EXECFAIL] = "fault: failed executions";
        n[osim::K_DUPFAIL] = "fault: failed descriptor duplications";
        n[osim::K_EINTR] = "fault: interrupted system calls";
        n[osim::K_SHORT] = "fault: short writes to pipes";
        n[osim::K_OPENFAIL] = "fault: failed file openings";
        n[osim::K_DISKFULL] = "fault: failed or short disk writes";
        n[osim::K_CLOSEFAIL] = "fault: write errors at close";
        n[osim::K_MKDIRFAIL] = "fault: failed folder creations";
        n[osim::K_KILLED] = "fault: tools killed by a signal";
        n[osim::K_TOOLFAIL] = "fault: tools ending with an error";
        n[osim::K_EPIPE] = "fault: writes to a closed pipe";
        n[osim::K_EXECS] = "tool executions";
        n[osim::K_BIGOUT] = "fault: tools with large output";
        n[osim::K_DAEMON] = "fault: tools leaving a background process";
        n[osim::K_LISTENER] = "fault: throwing listeners";
        n[osim::K_SAVES] = "complete saves";
        n[osim::K_GEN] = "source generations";
        n[osim::K_OK] = "libraries created";
        return n;
    }
    bool nontrivial(const sim::Shared& r) override { return r.switches > 0 || r.counters[sim::C_EVAL] > 0; }

    sim::Scenario generate(const std::string& prop, uint64_t seed) override {
        sim::Scenario s;
        s.prop = prop;
        s.seed = seed;
        sim::Rng r(seed * 7919 + 17);
        sim::drawSchedule(s, r);
        if (s.cfg["mode"] == 0 && r.chance(0.5)) s.cfg["meanGap"] = 20000;
        bool par = prop == "C11";
        s.cfg["clients"] = par ? 2 + (double) r.below(2) : 1;
        s.cfg["pipeCap"] = r.chance(0.25) ? 4096 : 65536;
        s.cfg["sigpipe"] = r.chance(0.7) ? 0 : 1 + (double) r.below(2);
        s.cfg["closedStd"] = r.chance(0.06) ? 1 : 0;
        s.cfg["lineBuf"] = (double) r.below(2);
        s.cfg["customs"] = (double) r.below(4);
        for (int k = 0; k < 3; ++k) s.cfg["size" + std::to_string(k)] = (double) r.below(NSIZES);
        s.cfg["err"] = r.chance(0.12);
        s.cfg["clash"] = r.chance(0.05) && s.cfg["err"] == 0;
        s.cfg["pre"] = (double) r.below(5);
        s.cfg["wallMode"] = 0;
        s.cfg["maxSteps"] = 60000000;
        s.cfg["stepNs"] = 20;
        if (prop == "C17") {
            s.cfg["wallMode"] = r.chance(0.7);
            s.cfg["f.j"] = r.chance(0.5) ? 0.5 : 0.05;
            s.cfg["throwing"] = r.chance(0.25);
            if (s.cfg["throwing"] != 0) s.cfg["f.T"] = r.chance(0.5) ? 0.02 : 0.2;
            s.cfg["monoMode"] = r.chance(0.3);
        }
        if (!par) {
            auto f = [&](const char* k, double p, double lo, double hi) {
                if (!r.chance(p)) return;
                s.cfg[std::string("f.") + k] = lo * std::pow(hi / lo, r.unit());
                if (r.chance(0.4)) s.cfg[std::string("b.") + k] = 1 + (double) r.below(2);
            };
            if (prop == "C12") {
                f("o", 0.5, 0.01, 0.3); f("d", 0.6, 0.01, 0.4); f("l", 0.5, 0.01, 0.3); f("M", 0.2, 0.2, 0.9);
            } else if (r.chance(0.85)) {
                bool heavy = prop == "C09";
                f("P", 0.3, 0.005, 0.15); f("F", 0.3, 0.01, 0.2); f("X", 0.3, 0.01, 0.3); f("D", 0.2, 0.01, 0.2);
                f("e", heavy ? 0.6 : 0.4, 0.005, 0.5);
                f("o", 0.3, 0.003, 0.1); f("d", 0.4, 0.003, 0.1); f("l", 0.3, 0.003, 0.2); f("M", 0.2, 0.02, 0.5);
                f("k", 0.4, 0.001, 0.1); f("q", 0.4, 0.005, 0.3);
                if (prop != "C09" || r.chance(0.5)) f("n", 0.25, 0.0003, 0.02);
            }
        }
        int ops = prop == "C11" ? 1 + (int) r.below(3) : 1 + (int) r.below(prop == "C12" ? 6 : 5);
        for (int c = 0; c < (int) s.cfg["clients"]; ++c)
            for (int i = 0; i < ops; ++i) {
                sim::Op o{c, DYN, (long) r.below(2), (long) r.below(2), (long) r.below(4), (long) r.below(2)};
                double u = r.unit();
                if (prop == "C12") { o.kind = u < 0.9 ? SAVE : TOGGLE; o.d = (long) r.below(7) / 2; }
                else if (prop == "C09") o.kind = u < 0.65 ? CALL : u < 0.75 ? DYN : u < 0.8 ? STAT : u < 0.9 ? VERSION : u < 0.95 ? COMPILE : TOGGLE;
                else if (prop == "C08") o.kind = u < 0.45 ? DYN : u < 0.8 ? STAT : u < 0.9 ? COMPILE : TOGGLE;
                else if (prop == "C11") o.kind = u < 0.4 ? DYN : u < 0.65 ? STAT : u < 0.9 ? CALL : u < 0.95 ? COMPILE : TOGGLE;
                else if (prop == "C17") o.kind = u < 0.3 ? DYN : u < 0.5 ? STAT : u < 0.65 ? TOGGLE : u < 0.8 ? COMPILE : GENLIB;
                else o.kind = u < 0.35 ? DYN : u < 0.6 ? STAT : u < 0.7 ? COMPILE : u < 0.8 ? BITCODE : u < 0.85 ? VERSION : u < 0.9 ? SAVE : TOGGLE;
                if (o.kind == TOGGLE) { o.c = (long) r.below(prop == "C17" ? 9 : 4); if (prop == "C17" && r.chance(0.6)) o.c = 3 + (long) r.below(6); }
                if (o.kind == SAVE && prop != "C12") o.d = (long) r.below(2);
                if (o.kind == CALL) { o.a = (long) r.below(1000000); o.b = r.chance(0.3) ? -1 : (long) r.below(NSIZES); o.c = (long) r.below(2); }
                if (o.kind == GENLIB) { o.a = (long) r.below(64); o.c = (long) r.below(3); }
                s.ops.push_back(o);
            }
        return s;
    }
    sim::Config simConfig(const sim::Scenario& s) override {
        sim::Config c = sim::configFrom(s);
        return c;
    }
    void prepare(const std::string&) override {
        sim::heapInit();
        makeModels();
    }
    std::string describe(const sim::Op& o) override {
        std::ostringstream t;
        t << KN[o.kind] << " " << o.a << " " << o.b << " " << o.c << " " << o.d;
        if (o.kind == CALL) { t << ":"; for (auto& x : script(o)) t << " " << x; }
        return t.str();
    }

    // ------------------------------------------------------------------ operations
    static std::vector<std::string> script(const sim::Op& o) {
        sim::Rng r((uint64_t) o.a + 99);
        std::vector<std::string> v;
        int n = 1 + (int) r.below(5);
        bool cap = o.c != 0;
        for (int i = 0; i < n; ++i) {
            double u = r.unit();
            std::string num = std::to_string(SIZES[r.below(NSIZES)]);
            if (u < 0.2) v.push_back("readall");
            else if (u < 0.3) v.push_back("read:" + num);
            else if (u < 0.5) v.push_back("out:" + num);
            else if (u < 0.65) v.push_back("err:" + num);
            else if (u < 0.7) v.push_back("sleep:" + std::to_string(1 + r.below(5000)));
            else if (u < 0.75) v.push_back("closein");
            else if (u < 0.8 && cap) v.push_back("closeout");
            else if (u < 0.83 && cap) v.push_back("outforever:1");
            else if (u < 0.86 && cap) v.push_back("outforever:2");
            else if (u < 0.9) v.push_back("daemon");
            else if (u < 0.95) v.push_back("kill:" + std::to_string(r.chance(0.5) ? 9 : 11));
            else v.push_back("exit:" + std::to_string(r.below(3)));
        }
        if (r.chance(0.5)) v.push_back("readall");
        return v;
    }
    static std::string libName(const Client& c, int d) { return "lib" + std::to_string(c.id) + (d ? "b" : "a"); }

    static void checkLib(const Client& c, int l, const std::string& file, bool dynamic, bool pic) {
        if (!judged("C08 C10 C11")) return;
        bool dyn = false;
        std::vector<osim::Obj> objs;
        if (!osim::exists(file)) sim::violation("missing-library", "success is reported but there is no file %s", file.c_str());
        if (!osim::parseLib(osim::get(file), dyn, objs) || dyn != dynamic) sim::violation("bad-library", "success is reported but %s is not a complete library", file.c_str());
        std::set<std::string> seen;
        for (auto& o : objs) {
            std::string src = o.name.size() > 2 ? o.name.substr(0, o.name.size() - 2) : o.name;
            auto it = c.expect[l].find(src);
            if (it == c.expect[l].end()) sim::violation("foreign-object", "%s contains '%s' which is not compiled from a requested source", file.c_str(), o.name.c_str());
            if (!seen.insert(src).second) sim::violation("duplicate-object", "%s contains '%s' twice", file.c_str(), o.name.c_str());
            if (o.text != it->second)
                sim::violation("wrong-source", "success is reported but '%s' was compiled from %zu of %zu bytes%s", o.name.c_str(), o.text.size(), it->second.size(),
                               o.text.size() == it->second.size() ? " (different text)" : "");
            if (pic && !o.pic) sim::violation("not-pic", "'%s' in %s was not compiled as position independent code", o.name.c_str(), file.c_str());
            if (o.llvm) sim::violation("not-object", "'%s' in %s is bitcode", o.name.c_str(), file.c_str());
        }
        if (seen.size() != c.requested[l]) sim::violation("missing-object", "success is reported but %s has %zu objects for %zu requested sources", file.c_str(), seen.size(), c.requested[l]);
    }

    static std::string folder(const Client& c, long d) {
        if (d == 2) return "nowhere/sub" + std::to_string(c.id);
        return "out" + std::to_string(c.id) + (d == 1 ? "x" : d == 3 ? "pre" : "");
    }

    struct State {
        std::string fds;
        uint64_t injected, toolFails;
        State() : fds(osim::fdList()), injected(osim::injected()), toolFails(osim::toolFailed()) {}
    };

    static void after(Client& c, const sim::Op& o, const sim::Scenario& s, const State& b, bool failed) {
        bool single = s.get("clients") <= 1;
        const std::string& P = s.prop;
        if (single) {
            std::string fds = osim::fdList();
            if (fds != b.fds) JUDGE("C09 C11", "descriptor-leak", "descriptors of the caller before: %s after: %s", b.fds.c_str(), fds.c_str());
            if (osim::liveChildren()) JUDGE("C09 C11", "child-left", "%d child processes are left after the call", osim::liveChildren());
        }
        if (osim::sigpipeDisposition() != (int) s.get("sigpipe")) JUDGE("C09 C11", "signal-state", "the disposition of SIGPIPE was changed");
        if (osim::sigpipeBlockedHere()) JUDGE("C09 C11", "signal-state", "SIGPIPE is left blocked");
        if (osim::sigpipePending()) JUDGE("C09 C11", "signal-state", "a SIGPIPE is left pending");
        for (int k = 0; k < 2; ++k) {
            std::vector<std::string> l = osim::listDir(c.cc[k]->getTemporaryFolder());
            if (!l.empty()) JUDGE("C10 C11", "temporary-files", "'%s' is left in the temporary folder after %s %s", l[0].c_str(), KN[o.kind], failed ? "failed" : "succeeded");
            if (!c.cc[k]->getObjectFiles().empty() || !c.cc[k]->getSourceFiles().empty()) JUDGE("C10 C11", "compiler-state", "the compiler still lists files after %s", KN[o.kind]);
            if (c.cc[k]->getCompileFlags() != c.flags[k]) JUDGE("C10 C11", "compiler-state", "the compile flags changed after %s", KN[o.kind]);
        }
        for (int l = 0; l < 2; ++l) {
            if (c.lib[l]->getJobCount() != 0)
                JUDGE("C10 C11 C17", "open-job", "%zu jobs are still open after %s %s", c.lib[l]->getJobCount(), KN[o.kind], failed ? "failed" : "succeeded");
        }
        if (P == "C17") {
            for (int k = 0; k < 2; ++k) {
                if (!c.lis[k].broken.empty()) JUDGE("C17", "job-events", "%s", c.lis[k].broken.c_str());
                if (!c.lis[k].stack.empty()) JUDGE("C17", "job-events", "the job '%s' is never reported finished", c.lis[k].stack.back().c_str());
                if (c.lis[k].started != c.lis[k].ended) JUDGE("C17", "job-events", "%ld starts but %ld ends were reported", c.lis[k].started, c.lis[k].ended);
            }
        }
    }

    struct Faults {
        // (a failed allocation inside CppAD leaves its own sparsity lists inconsistent: not this library's)
        explicit Faults(const sim::Scenario& s, bool alloc = true) { sim::g_newFaults = alloc && s.cfg.count("f.n") != 0 && sim::faultsOn(); }
        ~Faults() { sim::g_newFaults = false; }
    };

    static void runOp(Client& c, const sim::Op& o, const sim::Scenario& s, bool mustWork) {
        State before;
        sim::probe(sim::C_EVAL);
        uint64_t listeners = sim::g_sh->counters[osim::K_LISTENER];
        bool failed = false, mayFail = false;
        std::string what;
        int l = (int) o.a & 1, k = (int) o.b & 1;
        std::string name = libName(c, (int) o.d), file;
        std::string ext = (o.c & 2) ? ".lib" : "";
        if (!mustWork && s.prop == "C09") std::cout << "<marker " << c.id << "." << c.calls << ">" << (c.calls % 3 == 0 ? "\n" : "");
        c.calls++;
        switch (o.kind) {
            case DYN: case STAT: {
                mayFail = c.inherentError[l];
                DynamicModelLibraryProcessor<double> p(*c.lib[l], name);
                if (!ext.empty()) p.setCustomLibraryExtension(ext);
                file = name + (ext.empty() ? (o.kind == DYN ? ".so" : ".a") : ext);
                std::unique_ptr<DynamicLib<double>> dl;
                try {
                    Faults f(s);
                    if (o.kind == DYN) dl = p.createDynamicLibrary(*c.cc[k], (o.c & 1) != 0);
                    else p.createStaticLibrary(*c.cc[k], c.ar, (o.c & 1) != 0);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (!failed) {
                    checkLib(c, l, file, o.kind == DYN, o.kind == DYN || (o.c & 1));
                    sim::probe(osim::K_OK);
                    if (o.kind == DYN && (o.c & 1)) {
                        if (!dl) JUDGE("C08 C10 C11", "not-loaded", "the created library was not loaded");
                        std::string lp = sim_loadedPath(static_cast<Loaded*>(static_cast<LinuxDynamicLib<double>*>(dl.get()))->handle());
                        if (lp != "./" + file) JUDGE("C08 C10 C11", "wrong-library", "%s was created but %s was loaded", file.c_str(), lp.c_str());
                    }
                }
                break;
            }
            case SAVE: {
                std::string dir = folder(c, o.d);
                mayFail = o.d == 2 || (o.d == 3 && s.get("pre") >= 2) || (l == 1 && s.get("clash") != 0);
                try {
                    Faults f(s);
                    if (o.b & 1) c.lib[l]->saveSources(dir);
                    else SaveFilesModelLibraryProcessor<double>::saveLibrarySourcesTo(*c.lib[l], dir);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (!failed) {
                    for (auto& p : c.expect[l]) {
                        if (!osim::exists(dir + "/" + p.first)) JUDGE("C10 C12", "missing-file", "the save succeeded but %s is missing", p.first.c_str());
                        std::string got = osim::get(dir + "/" + p.first);
                        bool custom = c.lib[l]->getCustomSources().count(p.first) != 0;
                        if (got != p.second && !(custom && got == c.lib[l]->getCustomSources().at(p.first)))
                            JUDGE("C10 C12", "incomplete-file", "the save succeeded but %s has %zu bytes instead of %zu", p.first.c_str(), got.size(), p.second.size());
                    }
                    sim::probe(osim::K_SAVES);
                }
                break;
            }
            case COMPILE: {
                mayFail = false;
                const Sources& src = c.expect[0];
                bool build = (o.c & 2) != 0;
                file = name + ".so";
                std::map<std::string, std::string> got;
                try {
                    Faults f(s);
                    c.cc[k]->compileSources(src, (o.c & 1) != 0, (o.d & 1) ? c.lib[0].get() : nullptr);
                    if (build) c.cc[k]->buildDynamic(file, (o.d & 1) ? c.lib[0].get() : nullptr);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (!failed) {
                    for (auto& p : src) {
                        osim::Obj ob;
                        std::string obj = c.cc[k]->getTemporaryFolder() + "/" + p.first + ".o";
                        if (!c.cc[k]->getObjectFiles().count(obj)) JUDGE("C08 C10 C11", "missing-object", "%s is not among the compiled objects", obj.c_str());
                        if (!osim::parseObj(osim::get(obj), ob) || ob.text != p.second || ob.llvm)
                            JUDGE("C08 C10 C11", "wrong-source", "compilation succeeded but %s is not the object of the complete source", obj.c_str());
                    }
                    if (build) checkLib(c, 0, file, true, (o.c & 1) != 0);
                }
                c.cc[k]->cleanup();
                break;
            }
            case BITCODE: {
                try {
                    Faults f(s);
                    c.clang->generateLLVMBitCode(c.expect[0], (o.d & 1) ? c.lib[0].get() : nullptr);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (!failed)
                    for (auto& p : c.expect[0]) {
                        osim::Obj ob;
                        std::string bc = c.clang->getTemporaryFolder() + "/" + p.first + ".bc";
                        if (!osim::parseObj(osim::get(bc), ob) || ob.text != p.second || !ob.llvm)
                            JUDGE("C08 C10 C11", "wrong-source", "bitcode generation succeeded but %s is not the bitcode of the complete source", bc.c_str());
                    }
                c.clang->cleanup();
                break;
            }
            case VERSION: {
                ClangCompiler<double> cl;
                std::string v;
                try {
                    Faults f(s);
                    v = cl.getVersion();
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (!failed && v != "18.1.3") JUDGE("C09 C10 C11", "wrong-output", "the version is reported as '%s'", v.c_str());
                break;
            }
            case CALL: {
                std::vector<std::string> sc = script(o);
                std::string in = o.b >= 0 ? textOf(SIZES[o.b], 3) : std::string(), out;
                bool zero = true, all = o.b < 0 || SIZES[o.b] == 0, ended = false, noout = false, closedOut = false;
                for (auto& x : sc) {
                    if (ended) break;
                    if (x.compare(0, 4, "exit") == 0) { zero = x == "exit:0"; ended = true; }
                    else if (x.compare(0, 4, "kill") == 0 || x.compare(0, 10, "outforever") == 0) { zero = false; ended = true; }
                    else if (x == "readall" && !noout) all = true;
                    else if (x == "closein") { if (!all) noout = true; }
                    else if (x == "closeout") closedOut = true;  // later output fails
                }
                mayFail = !zero || !all || closedOut;
                try {
                    Faults f(s);
                    system::callExecutable("/tools/script", sc, o.c ? &out : nullptr, o.b >= 0 ? &in : nullptr);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (!failed && s.get("clients") <= 1) {
                    if (osim::toolFailed() != before.toolFails) JUDGE("C09 C11", "failure-ignored", "the tool failed but the call returned normally");
                    if (o.c) {
                        const std::string& w = osim::lastScriptOutput();
                        bool closed = false;
                        for (auto& x : sc) if (x == "closeout") closed = true;
                        if (!closed && (out.size() < w.size() ? w.size() <= 8000 || w.compare(0, out.size(), out) != 0 : out != w))
                            JUDGE("C09 C10 C11", "wrong-output", "the tool wrote %zu bytes but %zu were returned", w.size(), out.size());
                    }
                }
                break;
            }
            case TOGGLE:
                switch (o.c) {
                    case 0: c.cc[k]->setSaveToDiskFirst(!c.cc[k]->isSaveToDiskFirst()); break;
                    case 1: c.cc[k]->setVerbose(s.get("clients") <= 1 && !c.cc[k]->isVerbose()); break;
                    case 2: c.lib[l]->setVerbose(s.get("clients") <= 1 && !c.lib[l]->isVerbose()); break;
                    case 3: c.cc[k]->setSaveToDiskFirst(false); break;
                    default: {
                        int q = o.c == 8;
                        bool& at = c.attached[l][q];
                        if (at) { if (!c.lib[l]->removeListener(c.lis[q])) JUDGE("C17", "job-events", "a registered listener is unknown"); }
                        else c.lib[l]->addListener(c.lis[q]);
                        at = !at;
                    }
                }
                break;
            case GENLIB: {
                std::unique_ptr<ADFun<CGD>> fun;
                std::vector<ADCG> x(2), y(2);
                for (auto& v : x) v = ADCG(CGD(1.0));
                CppAD::Independent(x);
                y[0] = x[0] * x[1]; y[1] = x[1] * x[1] * x[0];
                fun.reset(new ADFun<CGD>(x, y));
                Gen g(*fun, "fresh");
                g.setCreateForwardZero(true);
                g.setCreateJacobian((o.a & 1) != 0); g.setCreateHessian((o.a & 2) != 0);
                g.setCreateSparseJacobian((o.a & 4) != 0); g.setCreateSparseHessian((o.a & 4) != 0);
                g.setCreateForwardOne((o.a & 8) != 0); g.setCreateReverseOne((o.a & 16) != 0); g.setCreateReverseTwo((o.a & 32) != 0);
                ModelLibraryCSourceGen<double> lg(g);
                for (int q = 0; q < 2; ++q) if (q == 0 || c.lis[1].throws) lg.addListener(c.lis[q]);
                try {
                    Faults f(s, false);
                    if (o.c == 0) { DynamicModelLibraryProcessor<double> p(lg, name + "g"); p.createDynamicLibrary(*c.cc[k], false); }
                    else if (o.c == 1) { DynamicModelLibraryProcessor<double> p(lg, name + "g"); p.createStaticLibrary(*c.cc[k], c.ar, false); }
                    else SaveFilesModelLibraryProcessor<double>::saveLibrarySourcesTo(lg, "gen" + std::to_string(c.id));
                    sim::probe(osim::K_GEN);
                } catch (const std::exception& e) { failed = true; what = e.what(); }
                if (osim::inChild()) osim::childEscaped(KN[o.kind]);
                if (lg.getJobCount() != 0) JUDGE("C10 C11 C17", "open-job", "%zu jobs are still open after the library creation %s", lg.getJobCount(), failed ? "failed" : "succeeded");
                break;
            }
        }
        bool cause = osim::injected() != before.injected || osim::toolFailed() != before.toolFails || sim::g_sh->counters[osim::K_LISTENER] != listeners;
        if (failed) {
            sim::probe(sim::C_EXC);
            if (!mayFail && (mustWork || (s.get("clients") > 1 ? true : !cause)))
                JUDGE(o.kind == CALL || o.kind == VERSION ? "C09 C10 C11" : "C10 C11", "unexpected-exception", "%s failed without cause%s: %s", KN[o.kind], mustWork ? " after the faults stopped" : "", what.c_str());
        }
        after(c, o, s, before, failed);
    }

    static void clientRun(Client& c, const sim::Scenario& s) {
        for (const sim::Op& o : s.ops) if (o.client == c.id) runOp(c, o, s, false);
    }

    void execute(const sim::Scenario& s) override {
        g_prop = s.prop;
        sim::g_clock.wallMode = (int) s.get("wallMode");
        sim::g_clock.monoMode = (int) s.get("monoMode");
        sim::setFaults(false);
        osim::Options op;
        op.pipeCap = (size_t) s.get("pipeCap", 65536);
        op.sigpipe = (int) s.get("sigpipe");
        op.closedStd = (int) s.get("closedStd");
        op.strictChild = s.prop == "C09";
        op.lineBuffered = s.get("lineBuf") != 0;
        osim::boot(op);
        osim::addExitHandler();
        int clients = (int) s.get("clients", 1);
        std::vector<std::unique_ptr<Client>> cs;
        for (int i = 0; i < clients; ++i) cs.emplace_back(new Client(i, s));
        for (auto& c : cs) { // what is in a folder before
            if (s.get("pre") > 0) {
                std::string d = folder(*c, 3);
                osim::mkDirs(d);
                int n = 0;
                for (auto& p : c->expect[1]) {
                    if (n++ % 2) continue;
                    if (s.get("pre") == 1) osim::put(d + "/" + p.first, p.second + std::string(5000, 'x'));
                    else if (s.get("pre") == 2) osim::mkDirs(d + "/" + p.first);
                    else if (s.get("pre") == 3) { osim::put(d + "/" + p.first, "old"); osim::world().fs["/work/" + d + "/" + p.first]->readonly = true; }
                }
                if (s.get("pre") == 4) { osim::world().fs.erase("/work/" + d); for (auto& f : osim::listDir(d)) osim::world().fs.erase("/work/" + d + "/" + f); osim::put(d, "a file"); }
            }
        }
        std::string fds = osim::fdList();
        sim::setFaults(true);
        if (clients == 1) clientRun(*cs[0], s);
        else {
            sim::probe(sim::C_CONCURRENT);
            std::vector<int> t;
            for (auto& c : cs) { Client* p = c.get(); t.push_back(sim::spawn([p, &s] { clientRun(*p, s); }, "client")); }
            for (int i : t) sim::join(i);
        }
        sim::setFaults(false);
        if (s.prop != "C11") // everything works again once the faults stopped
            for (const sim::Op& o : s.ops) runOp(*cs[(size_t) o.client], o, s, true);
        if (osim::fdList() != fds) JUDGE("C09 C11", "descriptor-leak", "descriptors of the caller before: %s after: %s", fds.c_str(), osim::fdList().c_str());
        if (osim::liveChildren()) JUDGE("C09 C11", "child-left", "%d child processes are left", osim::liveChildren());
        osim::flushStdout();
        if (s.prop == "C09") {
            const std::string& t = osim::world().tty;
            for (auto& c : cs)
                for (int i = 0; i < c->calls; ++i) {
                    std::string m = "<marker " + std::to_string(c->id) + "." + std::to_string(i) + ">";
                    size_t a = t.find(m);
                    if (a != std::string::npos && t.find(m, a + 1) != std::string::npos) JUDGE("C09", "output-twice", "buffered output of the caller was written twice");
                }
        }
        std::vector<std::string> tmp;
        for (auto& c : cs) for (int k = 0; k < 2; ++k) tmp.push_back(c->cc[k]->getTemporaryFolder());
        cs.clear();
        for (auto& d : tmp) if (!osim::listDir(d).empty()) JUDGE("C10 C11", "temporary-files", "files are left in %s", d.c_str());
    }
};

int main(int argc, char** argv) {
    ToolSystem p;
    return sim::runnerMain(argc, argv, p);
}
