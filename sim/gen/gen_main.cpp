// S5: simulator of source generation (C15, C16, C18).
// The real ModelCSourceGen, ModelLibraryCSourceGen, CodeHandler, languages, loop detection and atomic function wrappers generate sources which
// callbacks, listeners, output streams and failing allocations interrupt, or which several threads generate at the same time.
#include <cppad/cg.hpp>
#include <cppad/cg/lang/dot/dot.hpp>
#include <cppad/cg/lang/latex/latex.hpp>
#include <cppad/cg/lang/mathml/mathml.hpp>
#include <cppad/cg/dae_index_reduction/pantelides.hpp>
#include <cppad/cg/dae_index_reduction/dummy_deriv.hpp>
#include <cppad/cg/dae_index_reduction/soares_secchi.hpp>
#include "../pool/corpus.hpp"
#include "../core/runner.hpp"
#include "../core/seams.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <dlfcn.h>
#include <execinfo.h>
#include <unwind.h>
#include <unordered_map>

enum Kind { GENLIB, GENMODEL, HANDLER, RENEW, ADDMODEL, EVAL, LATE, PLACE, DAE, NKIND };
enum { K_NAMEGEN = sim::C_USER0, K_LISTENER, K_ATOMIC, K_ATOMICFALSE, K_STREAM, K_GENS, K_FAILED, K_LOOPS, K_SOURCES, K_ABORTED, K_PLACED, K_DAE };
static const int NK = 13, NLANG = 6;
typedef std::map<std::string, std::string> Sources;
static const char* const KN[] = {"plain", "conditional", "atomic function", "loop", "loop with temporaries", "loop with an atomic function", "two loops and other equations",
    "missing equations", "custom elements", "many equations", "array results", "constants", "irregular loops"};
static const char* const LANGN[] = {"C function", "C without function", "C with small functions", "LaTeX", "MathML", "dot"};

struct NameError : public std::runtime_error { NameError() : std::runtime_error("name generator failed") {} };
struct ListenerError : public std::runtime_error { ListenerError() : std::runtime_error("listener failed") {} };
struct AtomicError : public std::runtime_error { AtomicError() : std::runtime_error("atomic function failed") {} };
struct Aborted : public std::runtime_error { Aborted(const std::string& m) : std::runtime_error(m) {} };

static void throwingHandler(bool, int line, const char* file, const char* exp, const char* msg) {
    throw Aborted(std::string(msg ? msg : "") + " [" + (exp ? exp : "") + "] " + (file ? file : "") + ":" + std::to_string(line));
}

// faults are only injected while the library is at work for a client (not while the client itself tapes or evaluates a model)
static thread_local int t_quiet = 1;
static thread_local size_t t_injected = 0;
struct Quiet { Quiet() { t_quiet++; } ~Quiet() { t_quiet--; } };
struct Busy { int q; Busy() : q(t_quiet) { t_quiet = 0; } ~Busy() { t_quiet = q; } };
static bool inject(char kind, int counter) {
    if (!sim::active() || t_quiet || !sim::fault(kind, counter)) return false;
    t_injected++;
    return true;
}

bool externalFunctionFails() {
    if (inject('a', K_ATOMIC)) throw AtomicError();
    return inject('b', K_ATOMICFALSE);
}

// ---------------------------------------------------------------- which allocations may fail
// Only those requested directly by code of this library: CppAD does not promise to survive failing allocations of its own.
extern bool (*sim_newFilter)();
enum Who { W_STD, W_CG, W_OTHER, W_NEW };
static std::unordered_map<uintptr_t, char>* g_who = nullptr;
static Who classify(uintptr_t pc) {
    auto it = g_who->find(pc);
    if (it != g_who->end()) return (Who) it->second;
    Who w = W_OTHER;
    Dl_info d;
    if (dladdr((void*) (pc - 1), &d)) {
        const char* n = d.dli_sname ? d.dli_sname : "";
        bool lib = d.dli_fname && (strstr(d.dli_fname, "libstdc++") || strstr(d.dli_fname, "libc++"));
        if (!strncmp(n, "_ZN5CppAD2cg", 12) || !strncmp(n, "_ZNK5CppAD2cg", 13)) w = W_CG;
        else if (!strncmp(n, "_Zn", 3) || !strncmp(n, "_ZN3sim5fault", 13)) w = W_NEW;
        else if (lib || !*n || !strncmp(n, "_ZNSt", 5) || !strncmp(n, "_ZNKSt", 6) || !strncmp(n, "_ZSt", 4) || !strncmp(n, "_ZN9__gnu_cxx", 13) || !strncmp(n, "_ZNK9__gnu_cxx", 14) ||
                 !strncmp(n, "_ZNS", 4)) w = W_STD;
    }
    (*g_who)[pc] = (char) w;
    return w;
}
struct Walk { Who w; int depth; bool inNew; };
static _Unwind_Reason_Code frame(struct _Unwind_Context* c, void* arg) {
    Walk* k = (Walk*) arg;
    if (k->depth++ > 60) return _URC_END_OF_STACK;
    Who w = classify(_Unwind_GetIP(c));
    if (w == W_NEW) k->inNew = true;
    if (!k->inNew || w == W_NEW || w == W_STD) return _URC_NO_REASON;
    k->w = w;
    return _URC_END_OF_STACK;
}
static bool fromLibrary() {
    if (t_quiet) return false;
    sim::Own own;
    Walk k = {W_OTHER, 0, false};
    _Unwind_Backtrace(frame, &k);
    if (k.w == W_CG) t_injected++;
    return k.w == W_CG;
}

// ---------------------------------------------------------------- models
struct NameGen : public LangCDefaultVariableNameGenerator<double> {
    bool throws;
    NameGen(bool t, const std::string& d = "y", const std::string& i = "x", const std::string& v = "v", const std::string& a = "array") : LangCDefaultVariableNameGenerator<double>(d, i, v, a), throws(t) {}
    void trip() { if (throws && inject('g', K_NAMEGEN)) throw NameError(); }
    std::string generateDependent(size_t i) override { trip(); return LangCDefaultVariableNameGenerator<double>::generateDependent(i); }
    std::string generateIndependent(const OperationNode<double>& v, size_t id) override { trip(); return LangCDefaultVariableNameGenerator<double>::generateIndependent(v, id); }
    std::string generateTemporary(const OperationNode<double>& v, size_t id) override { trip(); return LangCDefaultVariableNameGenerator<double>::generateTemporary(v, id); }
    std::string generateTemporaryArray(const OperationNode<double>& v, size_t id) override { trip(); return LangCDefaultVariableNameGenerator<double>::generateTemporaryArray(v, id); }
    std::string generateTemporarySparseArray(const OperationNode<double>& v, size_t id) override { trip(); return LangCDefaultVariableNameGenerator<double>::generateTemporarySparseArray(v, id); }
    void setTemporaryVariableID(size_t a, size_t b, size_t c, size_t d) override { trip(); LangCDefaultVariableNameGenerator<double>::setTemporaryVariableID(a, b, c, d); }
};

struct Gen : public ModelCSourceGen<double> {
    bool throws = false;
    Gen(ADFun<CGD>& f, const std::string& n) : ModelCSourceGen<double>(f, n) {}
    VariableNameGenerator<double>* createVariableNameGenerator(const std::string& d, const std::string& i, const std::string& v, const std::string& a) override {
        return new NameGen(throws, d, i, v, a);
    }
    size_t loops() const { return this->_loopTapes.size(); }
};
struct Proc : public ModelLibraryProcessor<double> {
    explicit Proc(ModelLibraryCSourceGen<double>& l) : ModelLibraryProcessor<double>(l) {}
    const Sources& lib() { return this->getLibrarySources(); }
    const Sources& model(ModelCSourceGen<double>& m) { return this->getSources(m); }
};

struct Listener : public JobListener {
    std::vector<std::string> stack;
    std::string broken;
    bool throws = false;
    void jobStarted(const std::vector<Job>& j) override {
        sim::Own own;
        if (throws && inject('l', K_LISTENER)) throw ListenerError();
        if (j.empty() || (j.size() != stack.size() + 1)) { if (broken.empty()) broken = "a start is reported at another depth"; }
        if (!j.empty()) stack.push_back(j.back().name());
    }
    void jobEndended(const std::vector<Job>& j, duration) override {
        sim::Own own;
        if (stack.empty() || j.size() != stack.size()) { if (broken.empty()) broken = "an end is reported at another depth"; }
        if (!stack.empty()) stack.pop_back();
        if (throws && inject('l', K_LISTENER)) throw ListenerError();
    }
};

struct Spec {
    int k = 0;
    unsigned bits = 0;
    size_t maxAssign = 20000, maxOp = 1000, precision = 15;
    bool typical = true;
    int jacMode = 0;
};
static size_t domain(int k) { return k == 0 ? 5 : k == 1 ? 4 : k == 2 ? 4 : k == 8 ? 7 : k == 9 ? 12 : k == 10 ? 4 : k == 11 ? 3 : k == 12 ? 20 : 12; }

static void record(int k, const std::vector<ADCG>& x, std::vector<ADCG>& y, CGAbstractAtomicFun<double>* atom) {
    using CppAD::sin; using CppAD::cos; using CppAD::exp; using CppAD::log;
    switch (k) {
        case 0: y.resize(4); tape(0, x, y, [](std::vector<ADCG>&, std::vector<ADCG>&) {}); break;
        case 1: {
            y.resize(4);
            ADCG t = x[0] * x[1] + sin(x[2]);
            ADCG u = CppAD::CondExpLt(x[0], x[1], t * x[2], x[3] * x[3]);
            ADCG v = CppAD::CondExpGe(x[2], ADCG(0.5), u * t, exp(x[1] * 0.1));
            ADCG w = CppAD::CondExpEq(x[3], x[0], v + u, CppAD::CondExpGt(x[1], x[2], cos(t), t * x[0]));
            y[0] = u + x[0]; y[1] = v; y[2] = w * t; y[3] = CppAD::CondExpLe(v, u, x[0] * x[2], w);
            break;
        }
        case 2: y.resize(3); tape(4, x, y, [&](std::vector<ADCG>& a, std::vector<ADCG>& b) { (*atom)(a, b); }); break;
        case 3:
            y.resize(12);
            for (size_t i = 0; i < 6; ++i) { y[2 * i] = cos(x[2 * i]) + x[1] * x[2]; y[2 * i + 1] = x[2 * i + 1] * x[2 * i]; }
            break;
        case 4: {
            y.resize(12);
            ADCG t1 = sin(x[1] + 4.0);
            for (size_t i = 0; i < 4; ++i) {
                ADCG t2 = 2.5 * x[3 * i] + t1, t3 = 5.0 * x[3 * i];
                y[3 * i] = cos(x[3 * i]) / t2 + t3;
                y[3 * i + 1] = x[3 * i + 1] * log(x[3 * i + 1]) * t3;
                y[3 * i + 2] = x[3 * i + 2] + t2;
            }
            break;
        }
        case 5: {
            y.resize(18);
            std::vector<ADCG> a(2), b(2);
            for (size_t i = 0; i < 6; ++i) {
                a[0] = x[2 * i]; a[1] = x[2 * i + 1];
                (*atom)(a, b);
                y[3 * i] = cos(x[2 * i]); y[3 * i + 1] = b[0]; y[3 * i + 2] = b[1];
            }
            break;
        }
        case 6: {
            y.resize(15);
            ADCG t = x[1] * x[2];
            for (size_t i = 0; i < 6; ++i) y[i] = x[i] * x[i + 1] * t;
            for (size_t i = 0; i < 6; ++i) y[6 + i] = sin(x[2 * i]) + x[11] * x[2 * i + 1];
            y[12] = x[0] * x[5]; y[13] = exp(x[3]) * t; y[14] = x[7] + x[8] * x[9];
            break;
        }
        case 7: {
            y.resize(12);
            ADCG t = cos(x[0]);
            for (size_t i = 0; i < 6; ++i) {
                ADCG aux = x[2 * i] * 2.5;
                if (i == 0) y[2 * i] = 1.0; else y[2 * i] = aux * t * 3.0;
                y[2 * i + 1] = t * (x[2 * i + 1] - aux);
            }
            break;
        }
        case 8: y.resize(5); tape(6, x, y, [](std::vector<ADCG>&, std::vector<ADCG>&) {}); break;
        case 9: y.resize(12); tape(3, x, y, [](std::vector<ADCG>&, std::vector<ADCG>&) {}); break;
        case 10: {
            y.resize(4);
            std::vector<ADCG> a(2), b(2), c(2), d(2);
            a[0] = x[0]; a[1] = x[1]; (*atom)(a, b);
            c[0] = x[2]; c[1] = 1.5; (*atom)(c, d);
            y[0] = b[0]; y[1] = b[1] + x[3] * x[3]; y[2] = d[0]; y[3] = d[1];
            break;
        }
        case 11: y.resize(3); y[0] = 2.0; y[1] = x[1]; y[2] = x[0] * 0.5; break;
        case 12: {
            static const size_t p[] = {3, 17, 0, 9, 5, 14, 1, 19, 8, 2, 12, 6, 18, 4, 11, 7}, q[] = {13, 2, 7, 0, 16, 5, 10, 3, 19, 1, 8, 15, 4, 12, 9, 17};
            y.resize(34);
            ADCG t = x[2] * x[5];
            for (size_t i = 0; i < 16; ++i) { y[p[i]] = sin(x[p[i]]) * x[q[i]]; y[20 + i % 14] = x[10] * x[11]; }
            for (size_t i = 0; i < 20; ++i) { bool set = false; for (size_t j = 0; j < 16; ++j) set = set || p[j] == i; if (!set) y[i] = x[i] * 3.0; }
            for (size_t i = 0; i < 14; ++i) y[20 + i] = exp(x[q[i]] * 0.1) + t * x[p[(i * 5) % 14]];
            break;
        }
    }
}
static std::vector<std::set<size_t>> related(int k) {
    std::vector<std::set<size_t>> r;
    auto every = [&](size_t first, size_t step, size_t n) { std::set<size_t> s; for (size_t i = 0; i < n; ++i) s.insert(first + step * i); r.push_back(s); };
    switch (k) {
        case 3: every(0, 2, 6); every(1, 2, 6); break;
        case 4: every(0, 3, 4); every(1, 3, 4); every(2, 3, 4); break;
        case 5: every(0, 3, 6); every(1, 3, 6); every(2, 3, 6); break;
        case 6: every(0, 1, 6); every(6, 1, 6); break;
        case 7: every(0, 2, 6); every(1, 2, 6); break;
        case 12: every(20, 1, 14); { std::set<size_t> s; for (size_t i : {3, 17, 0, 9, 5, 14, 1, 19, 8, 2, 12, 6, 18, 4, 11, 7}) s.insert(i); r.push_back(s); } break;
    }
    return r;
}
static bool hasAtomic(int k) { return k == 2 || k == 5 || k == 10; }

struct Atom {
    InnerAtomic base;
    CGAtomicFun<double> fun;
    Atom() : fun(base, std::vector<double>{1.0, 1.0}, true) {}
};

struct Model {
    Spec s;
    std::unique_ptr<ADFun<CGD>> fun;
    std::unique_ptr<Gen> gen;
    void tapeIt(const Spec& sp, Atom& a) {
        s = sp;
        std::vector<ADCG> x(domain(s.k)), y;
        for (size_t j = 0; j < x.size(); ++j) x[j] = ADCG(CGD(0.5 + 0.13 * (double) j));
        CppAD::Independent(x);
        record(s.k, x, y, &a.fun);
        fun.reset(new ADFun<CGD>(x, y));
    }
    void make(const std::string& name, bool throws) {
        gen.reset(new Gen(*fun, name));
        Gen& g = *gen;
        g.throws = throws;
        unsigned b = s.bits;
        auto bit = [&] { bool v = b & 1; b >>= 1; return v; };
        g.setCreateForwardZero(bit()); g.setCreateJacobian(bit()); g.setCreateHessian(bit()); g.setCreateSparseJacobian(bit()); g.setCreateSparseHessian(bit());
        g.setCreateForwardOne(bit()); g.setCreateReverseOne(bit()); g.setCreateReverseTwo(bit()); g.setCreateHessianSparsityByEquation(bit());
        g.setSparseJacobianReuse1stOrderPasses(bit()); g.setSparseHessianReusesRev2(bit()); g.setMultiThreading(bit());
        bool custom = bit();
        g.setMaxAssignmentsPerFunc(s.maxAssign);
        g.setMaxOperationsPerAssignment(s.maxOp);
        g.setParameterPrecision(s.precision);
        g.setJacobianADMode((JacobianADMode) s.jacMode);
        if (s.typical) {
            std::vector<double> x(domain(s.k));
            for (size_t j = 0; j < x.size(); ++j) x[j] = 0.6 + 0.11 * (double) j;
            g.setTypicalIndependentValues(x);
        }
        auto r = related(s.k);
        if (!r.empty()) g.setRelatedDependents(r);
        if (custom && s.k == 8) {
            g.setCustomSparseJacobianElements(std::vector<size_t>{4, 0, 2, 0, 3, 1}, std::vector<size_t>{5, 6, 1, 0, 4, 3});
            g.setCustomSparseHessianElements(std::vector<size_t>{6, 0, 4, 5, 2}, std::vector<size_t>{0, 1, 3, 2, 2});
        } else if (custom && s.k == 3) {
            g.setCustomSparseJacobianElements(std::vector<size_t>{0, 2, 4, 6, 8, 10}, std::vector<size_t>{0, 2, 4, 6, 8, 10});
        }
    }
};

static std::string differenceText(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string p, q;
    int n = 1;
    for (;; ++n) {
        bool u = (bool) std::getline(x, p), v = (bool) std::getline(y, q);
        if (!u && !v) return "same lines";
        if (u != v || p != q) return "line " + std::to_string(n) + " is '" + (v ? q : "(end)").substr(0, 160) + "' instead of '" + (u ? p : "(end)").substr(0, 160) + "'";
    }
}
static std::string difference(const Sources& expect, const Sources& got) {
    for (auto& p : expect) {
        auto i = got.find(p.first);
        if (i == got.end()) return "source " + p.first + " is missing (" + std::to_string(got.size()) + " of " + std::to_string(expect.size()) + " sources)";
        if (i->second != p.second) return "source " + p.first + ": " + differenceText(p.second, i->second);
    }
    for (auto& p : got) if (!expect.count(p.first)) return "source " + p.first + " is not one of the expected sources";
    return "";
}

// an output stream which fails after a number of characters
struct FailBuf : public std::stringbuf {
    bool throws;
    explicit FailBuf(bool t) : throws(t) {}
    void trip() { if (throws && inject('o', K_STREAM)) throw std::ios_base::failure("disk full"); }
    int overflow(int c) override { trip(); return std::stringbuf::overflow(c); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { trip(); return std::stringbuf::xsputn(s, n); }
};

struct HandlerUnit {      // a code handler used directly for several outputs
    std::unique_ptr<CodeHandler<double>> h;
    std::vector<CGD> x, y;
    void make(int k, Atom& a) {
        h.reset(new CodeHandler<double>());
        Model m;
        Spec s;
        s.k = k;
        m.tapeIt(s, a);
        x.assign(domain(k), CGD());
        h->makeVariables(x);
        for (size_t j = 0; j < x.size(); ++j) x[j].setValue(0.6 + 0.11 * (double) j);
        y = m.fun->Forward(0, x);
        std::vector<CGD> j = m.fun->Jacobian(x);
        y.insert(y.end(), j.begin(), j.end());
    }
    std::string generate(int lang, bool throws, JobTimer* timer) {
        h->setJobTimer(timer);
        FailBuf buf(throws);
        std::ostream out(&buf);
        out.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        Sources parts;
        std::vector<CGD> dep(y);
        if (lang < 3) {
            LanguageC<double> l("double", 3);
            if (lang != 1) l.setGenerateFunction("fun");
            if (lang == 2) l.setMaxAssignmentsPerFunction(4, &parts);
            NameGen n(throws);
            h->generateCode(out, l, dep, n, "code");
        } else if (lang == 3) {
            LanguageLatex<double> l;
            LangLatexDefaultVariableNameGenerator<double> n;
            h->generateCode(out, l, dep, n, "latex");
        } else if (lang == 4) {
            LanguageMathML<double> l;
            LangMathMLDefaultVariableNameGenerator<double> n;
            h->generateCode(out, l, dep, n, "mathml");
        } else {
            LanguageDot<double> l;
            NameGen n(throws);
            h->generateCode(out, l, dep, n, "dot");
        }
        std::string r = buf.str();
        for (auto& p : parts) r += "\n== " + p.first + "\n" + p.second;
        return r;
    }
};

// ---------------------------------------------------------------- index reduction of systems of differential-algebraic equations
static const int NDAE = 4, NMETHOD = 3;
static const char* const DAEN[] = {"pendulum", "pendulum in space", "chain of pendulums", "linear system"};
static const char* const METHODN[] = {"Pantelides", "Soares-Secchi", "Pantelides and dummy derivatives"};
struct DaeUnit {
    std::unique_ptr<ADFun<CGD>> fun;
    std::vector<DaeVarInfo> var;
    std::vector<double> x;
    size_t equations = 0;
    // states q and v in 'dim' dimensions for each of 'bodies' bodies, whose distance to the previous one is kept by a force
    void mechanical(int bodies, int dim) {
        const size_t nq = (size_t) (bodies * dim), n = nq * 2 + (size_t) bodies, all = n + nq * 2;
        std::vector<ADCG> u(all);
        x.assign(all, 0.0);
        var.assign(all, DaeVarInfo());
        for (size_t i = 0; i < nq; ++i) { var[i] = DaeVarInfo("q" + std::to_string(i)); var[nq + i] = DaeVarInfo("v" + std::to_string(i)); }
        for (int b = 0; b < bodies; ++b) var[2 * nq + (size_t) b] = DaeVarInfo("f" + std::to_string(b));
        for (size_t i = 0; i < 2 * nq; ++i) var[n + i] = (int) i;
        for (int b = 0; b < bodies; ++b) { x[(size_t) (b * dim)] = -0.8 * (b + 1); x[(size_t) (b * dim + 1)] = 0.6 * (b + 1); x[2 * nq + (size_t) b] = 1.0; }
        for (size_t i = 0; i < all; ++i) u[i] = CGD(x[i]);
        CppAD::Independent(u);
        std::vector<ADCG> z;
        for (size_t i = 0; i < nq; ++i) z.push_back(u[n + i] - u[nq + i]);
        for (int b = 0; b < bodies; ++b)
            for (int d = 0; d < dim; ++d) {
                size_t i = (size_t) (b * dim + d);
                ADCG r = b ? u[i] - u[i - (size_t) dim] : u[i];
                ADCG f = u[2 * nq + (size_t) b] * r;
                if (b + 1 < bodies) f -= u[2 * nq + (size_t) b + 1] * (u[i + (size_t) dim] - u[i]);
                if (d == 1) f -= 9.80665;
                z.push_back(u[n + nq + i] - f);
            }
        for (int b = 0; b < bodies; ++b) {
            ADCG s = CGD(-1.0);
            for (int d = 0; d < dim; ++d) { size_t i = (size_t) (b * dim + d); ADCG r = b ? u[i] - u[i - (size_t) dim] : u[i]; s += r * r; }
            z.push_back(s);
        }
        equations = z.size();
        fun.reset(new ADFun<CGD>(u, z));
    }
    void linear() {
        const size_t n = 4;
        std::vector<ADCG> u(n * 2 - 1);
        var.assign(u.size(), DaeVarInfo());
        for (size_t i = 0; i < n; ++i) var[i] = DaeVarInfo("x" + std::to_string(i));
        for (size_t i = 0; i < 3; ++i) var[n + i] = (int) i;
        x.assign(u.size(), 0.5);
        for (size_t i = 0; i < u.size(); ++i) u[i] = CGD(x[i]);
        CppAD::Independent(u);
        std::vector<ADCG> z(n);
        z[0] = u[4] + u[5] + u[3] - 1.0;
        z[1] = u[0] + u[1] * 2.0 + u[2] - 0.3;
        z[2] = u[0] - u[1] + u[2] * 3.0 - 0.7;
        z[3] = u[6] - u[2] * u[3] + u[4];
        equations = n;
        fun.reset(new ADFun<CGD>(u, z));
    }
    void make(int k) { if (k == 0) mechanical(1, 2); else if (k == 1) mechanical(1, 3); else if (k == 2) mechanical(3, 2); else linear(); }
    std::string reduce(int method, bool preserve, bool explicitForm, bool reduceEq) {
        std::ostringstream o;
        std::vector<std::string> names;
        std::vector<DaeVarInfo> v;
        std::vector<DaeEquationInfo> e;
        std::unique_ptr<ADFun<CGD>> r;
        std::unique_ptr<DaeStructuralIndexReduction<double>> s;
        if (method == 1) s.reset(new SoaresSecchi<double>(*fun, var, names, x));
        else s.reset(new Pantelides<double>(*fun, var, names, x));
        s->setPreserveNames(preserve);
        if (method < 2) r = s->reduceIndex(v, e);
        else {
            DummyDerivatives<double> d(*s, x, std::vector<double>(var.size(), 1.0), std::vector<double>(equations, 1.0));
            d.setGenerateSemiExplicitDae(explicitForm);
            d.setReduceEquations(reduceEq);
            r = d.reduceIndex(v, e);
        }
        o << "index " << s->getStructuralIndex() << "\n";
        for (const DaeVarInfo& i : v) o << i.getName() << " " << i.getDerivative() << " " << i.getAntiDerivative() << " " << i.getOriginalIndex() << " " << i.isFunctionOfIntegrated() << "\n";
        for (const DaeEquationInfo& i : e) o << i.getId() << " " << i.getOriginalIndex() << " " << i.getAntiDerivative() << " " << i.getAssignedVarIndex() << " " << i.isExplicit() << "\n";
        if (!r) { o << "no model\n"; return o.str(); }
        CodeHandler<double> h;
        std::vector<CGD> w(r->Domain());
        h.makeVariables(w);
        std::vector<CGD> y = r->Forward(0, w);
        LanguageC<double> l("double");
        l.setGenerateFunction("dae");
        LangCDefaultVariableNameGenerator<double> n;
        h.generateCode(o, l, y, n);
        return o.str();
    }
};

static const int NC = 3, NMOD = 3;
struct Client {
    int id = 0;
    Spec spec[NMOD];
    int hk = 0;
    MultiThreadingType mt = MultiThreadingType::NONE;
    std::unique_ptr<Atom> atom;
    std::unique_ptr<Model> m[NMOD];
    std::unique_ptr<ModelLibraryCSourceGen<double>> lib;
    int inLib = 0;
    bool throws = false, late = false;
    HandlerUnit hu;
    Listener lis;
    bool listen = false;
    // references
    Sources refModel[NMOD], refLib[NMOD + 1];
    std::string refText[NLANG];
    std::vector<double> refEval[NMOD];
    DaeUnit du;
    int dk = 0, dflags = 0;
    std::string refDae[NMETHOD];

    std::string name(int i) const { return "m" + std::to_string(id) + std::to_string(i); }
    void tapes() { for (int i = 0; i < NMOD; ++i) { m[i].reset(new Model()); m[i]->tapeIt(spec[i], *atom); } }
    void library(int n) {
        for (int i = 0; i < NMOD; ++i) m[i]->make(name(i), throws);
        lib.reset(new ModelLibraryCSourceGen<double>(*m[0]->gen));
        for (int i = 1; i < n; ++i) lib->addModel(*m[i]->gen);
        inLib = n;
        lib->setMultiThreading(mt);
        if (listen) lib->addListener(lis);
    }
    void drop() {
        lib.reset();
        for (auto& x : m) if (x) x->gen.reset();
    }
    Sources all() {     // every source of the library
        Proc p(*lib);
        Sources o;
        for (int i = 0; i < inLib; ++i) { const Sources& s = p.model(*m[i]->gen); o.insert(s.begin(), s.end()); }
        const Sources& l = p.lib();
        o.insert(l.begin(), l.end());
        return o;
    }
    std::vector<double> eval(int i) {
        std::vector<CGD> x(domain(spec[i].k));
        for (size_t j = 0; j < x.size(); ++j) x[j] = CGD(0.4 + 0.17 * (double) j);
        std::vector<CGD> y = m[i]->fun->Forward(0, x);
        std::vector<double> r;
        for (auto& v : y) r.push_back(v.getValue());
        return r;
    }
    void references() {
        tapes();
        for (int i = 0; i < NMOD; ++i) refEval[i] = eval(i);
        for (int n = 1; n <= NMOD; ++n) {
            if (n > 1 && n < NMOD) continue;
            library(n);
            Sources a = all();
            if (n == NMOD) {
                Proc p(*lib);
                for (int i = 0; i < NMOD; ++i) { refModel[i] = p.model(*m[i]->gen); if (m[i]->gen->loops()) sim::probe(K_LOOPS, m[i]->gen->loops()); }
                sim::probe(K_SOURCES, a.size());
            }
            Proc p(*lib);
            refLib[n] = p.lib();
            drop();
        }
        for (int n = 2; n < NMOD; ++n) { library(n); Proc p(*lib); for (int i = 0; i < n; ++i) p.model(*m[i]->gen); refLib[n] = p.lib(); drop(); }
        for (auto& x : m) x.reset();
        for (int l = 0; l < NLANG; ++l) {
            HandlerUnit u;
            u.make(hk, *atom);
            refText[l] = u.generate(l, false, nullptr);
        }
        if (dk >= 0) {
            DaeUnit u;
            u.make(dk);
            for (int d = 0; d < NMETHOD; ++d) refDae[d] = u.reduce(d, dflags & 1, dflags & 2, dflags & 4);
        }
    }
};

struct GenSystem : public sim::System {
    std::string describe(const sim::Op& o) override {
        std::ostringstream s;
        s << "client " << o.client << ": ";
        switch (o.kind) {
            case GENLIB: s << "generate all sources of the library"; break;
            case GENMODEL: s << "generate the sources of model " << o.a; break;
            case HANDLER: s << "generate " << LANGN[o.a] << " with the code handler"; break;
            case RENEW: s << "new library of " << o.a << " models"; break;
            case ADDMODEL: s << "add a model to the library"; break;
            case EVAL: s << "evaluate the recording of model " << o.a; break;
            case PLACE: {
                static const char* const P[] = {"increasing addresses", "decreasing addresses", "pseudo-random addresses", "recently released addresses"};
                s << "everything again with objects at " << P[o.a] << " (" << o.b << ")";
                break;
            }
            case DAE: s << "index reduction with " << METHODN[o.a]; break;
            case LATE: s << "destroy the library and its models' generators"; break;
        }
        return s.str();
    }
    std::vector<const char*> counterNames() override {
        std::vector<const char*> n(64, "");
        n[K_NAMEGEN] = "fault: name generator throws"; n[K_LISTENER] = "fault: listener throws";
        n[K_ATOMIC] = "fault: atomic function throws"; n[K_ATOMICFALSE] = "fault: atomic function reports failure"; n[K_STREAM] = "fault: output stream fails";
        n[K_GENS] = "generations attempted"; n[K_FAILED] = "generations interrupted"; n[K_LOOPS] = "loops detected"; n[K_SOURCES] = "sources of the reference"; n[K_ABORTED] = "failures reported by CppAD";
        n[K_PLACED] = "fault: objects placed elsewhere"; n[K_DAE] = "index reductions";
        n[sim::C_BADALLOC] = "fault: failed operator new"; n[sim::C_PREEMPT] = "preemptions"; n[sim::C_CONCURRENT] = "runs with concurrent generation";
        return n;
    }
    bool nontrivial(const sim::Shared& r) override { return r.counters[K_GENS] > 0; }
    void prepare(const std::string&) override {
        sim::heapInit();
        static CppAD::ErrorHandler handler(throwingHandler);    // CppAD's default handler ends the process
        g_who = new std::unordered_map<uintptr_t, char>();
        g_who->reserve(1 << 16);
        sim_newFilter = fromLibrary;
        // everything that is initialised on first use
        // CppAD never forgets an atomic function: its table must not grow later on
        for (int i = 0; i < 40; ++i) Atom();
        Client c;
        c.id = 9;
        c.dk = 0; c.dflags = 3;
        for (int i = 0; i < NMOD; ++i) { c.spec[i].k = i * 2 + 1; c.spec[i].bits = 0x1fff; }
        c.atom.reset(new Atom());
        c.references();
    }
    sim::Config simConfig(const sim::Scenario& s) override { return sim::configFrom(s); }

    sim::Scenario generate(const std::string& prop, uint64_t seed) override {
        sim::Rng r(seed * 1299709 + 71);
        sim::Scenario s;
        s.prop = prop;
        s.seed = seed;
        sim::drawSchedule(s, r);
        s.cfg["maxSteps"] = 2e9;
        bool conc = prop == "C16";
        s.cfg["clients"] = conc ? 2 + (double) r.below(2) : 1;
        if (conc) {
            static const double gaps[] = {50, 500, 2000, 5000, 20000, 100000};
            s.cfg["meanGap"] = gaps[r.below(6)];
            s.cfg["pctLen"] = 2e6;
            s.cfg["fairness"] = 200000;
            s.cfg["conflictP"] = r.below(2) ? 0 : 0.001;
        } else s.cfg["mode"] = 2;
        for (int c = 0; c < (int) s.cfg["clients"]; ++c) {
            std::string p = "c" + std::to_string(c) + "_";
            for (int i = 0; i < NMOD; ++i) {
                std::string q = p + "m" + std::to_string(i) + "_";
                static const int ks[] = {0, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12, 12, 12};
                s.cfg[q + "k"] = ks[r.below(21)];
                s.cfg[q + "bits"] = r.below(4) == 0 ? 0x1fff : (double) (r.next() & r.next() & 0x1fff);
                static const double ma[] = {20000, 20000, 30, 6};
                s.cfg[q + "ma"] = ma[r.below(4)];
                s.cfg[q + "mo"] = r.below(3) ? 1000 : 4;
                s.cfg[q + "pr"] = r.below(2) ? 15 : 6;
                s.cfg[q + "ty"] = r.below(4) != 0;
                s.cfg[q + "jm"] = (double) r.below(3);
            }
            s.cfg[p + "hk"] = (double) r.below(2) * (double) r.below(NK);
            if (s.cfg[p + "hk"] == 0) s.cfg[p + "hk"] = r.below(2) ? 1 : 2;
            s.cfg[p + "mt"] = (double) r.below(3);
            s.cfg[p + "lis"] = (double) r.below(2);
        }
        if (prop == "C18") {
            s.cfg["c0_dk"] = (double) r.below(NDAE + 1) - 1;
            s.cfg["c0_df"] = (double) r.below(8);
            int n = 1 + (int) r.below(3);
            for (int i = 0; i < n; ++i) {
                s.ops.push_back({0, PLACE, 1 + (long) r.below(3), (long) r.below(1000000), 0, 0});
                int k = 1 + (int) r.below(4);
                for (int j = 0; j < k; ++j) {
                    long w = (long) r.below(10);
                    if (w < 4) s.ops.push_back({0, GENLIB, 0, 0, 0, 0});
                    else if (w < 7) s.ops.push_back({0, HANDLER, (long) r.below(NLANG), 0, 0, 0});
                    else if (w < 9) s.ops.push_back({0, DAE, (long) r.below(NMETHOD), 0, 0, 0});
                    else s.ops.push_back({0, RENEW, 1 + (long) r.below(NMOD), 0, 0, 0});
                }
            }
            return s;
        }
        if (!conc) {
            s.cfg["c0_dk"] = r.below(3) ? -1 : (double) r.below(NDAE);
            s.cfg["c0_df"] = (double) r.below(8);
        }
        if (!conc || r.below(4) == 0) {
            static const double rare[] = {0.0003, 0.002, 0.02};
            int what = (int) r.below(8);
            if (what == 0 || what >= 6) { static const double a[] = {0.00005, 0.0003, 0.002}; s.cfg["f.n"] = a[r.below(3)]; s.cfg["b.n"] = 1 + (double) r.below(conc ? 2 : 4) * 3; }
            if (what == 1 || what == 6) { s.cfg["f.g"] = rare[r.below(3)]; s.cfg["b.g"] = 1 + (double) r.below(3); }
            if (what == 2 || what == 7) { s.cfg["f.l"] = 0.02 + 0.1 * r.unit(); s.cfg["b.l"] = 1 + (double) r.below(3); }
            if (what == 3 || what == 7) { s.cfg["f.a"] = rare[r.below(3)] * 3; s.cfg["b.a"] = 1 + (double) r.below(3); }
            if (what == 4 || what == 6) { s.cfg["f.b"] = rare[r.below(3)] * 3; s.cfg["b.b"] = 1 + (double) r.below(3); }
            if (what == 5 || what == 6) { s.cfg["f.o"] = rare[r.below(3)] * 3; s.cfg["b.o"] = 1 + (double) r.below(3); }
        }
        for (int c = 0; c < (int) s.cfg["clients"]; ++c) {
            int n = conc ? 1 + (int) r.below(3) : 2 + (int) r.below(7);
            for (int i = 0; i < n; ++i) {
                if (!conc && s.cfg["c0_dk"] >= 0 && r.below(4) == 0) { s.ops.push_back({c, DAE, (long) r.below(NMETHOD), 0, 0, 0}); continue; }
                switch (r.below(12)) {
                    case 0: case 1: case 2: case 3: s.ops.push_back({c, GENLIB, 0, 0, 0, 0}); break;
                    case 4: case 5: s.ops.push_back({c, GENMODEL, (long) r.below(NMOD), 0, 0, 0}); break;
                    case 6: case 7: case 8: s.ops.push_back({c, HANDLER, (long) r.below(NLANG), 0, 0, 0}); break;
                    case 9: s.ops.push_back({c, RENEW, 1 + (long) r.below(NMOD), 0, 0, 0}); break;
                    case 10: s.ops.push_back({c, ADDMODEL, 0, 0, 0, 0}); break;
                    default: s.ops.push_back({c, EVAL, (long) r.below(NMOD), 0, 0, 0}); break;
                }
            }
        }
        return s;
    }

    static Spec specOf(const sim::Scenario& s, int c, int i) {
        std::string q = "c" + std::to_string(c) + "_m" + std::to_string(i) + "_";
        Spec p;
        p.k = (int) s.get(q + "k"); p.bits = (unsigned) s.get(q + "bits", 1); p.maxAssign = (size_t) s.get(q + "ma", 20000); p.maxOp = (size_t) s.get(q + "mo", 1000);
        p.precision = (size_t) s.get(q + "pr", 15); p.typical = s.get(q + "ty", 1) != 0; p.jacMode = (int) s.get(q + "jm");
        return p;
    }

    void check(const std::string& what, const std::string& diff) {
        if (diff.empty()) return;
        sim::violation("different-sources", "%s: %s", what.c_str(), diff.c_str());
    }
    std::string title(const Client& c, int i) {
        return "model " + c.name(i) + " (" + KN[c.spec[i].k] + ")";
    }

    // one operation; false: it was interrupted
    bool step(Client& c, const sim::Op& o) {
        sim::event((uint64_t) o.kind * 131 + (uint64_t) o.a);
        std::string where;
        { sim::Own own; where = describe(o); }
        const size_t injected = t_injected;
        try {
            switch (o.kind) {
                case GENLIB: {
                    sim::probe(K_GENS);
                    Busy busy;
                    Proc p(*c.lib);
                    for (int i = 0; i < c.inLib; ++i) {
                        const Sources& s = p.model(*c.m[i]->gen);
                        sim::Own own;
                        check(title(c, i), difference(c.refModel[i], s));
                    }
                    const Sources& l = p.lib();
                    sim::Own own;
                    check("library of " + std::to_string(c.inLib) + " models", difference(c.refLib[c.inLib], l));
                    break;
                }
                case GENMODEL: {
                    sim::probe(K_GENS);
                    Busy busy;
                    Proc p(*c.lib);
                    const Sources& s = p.model(*c.m[o.a]->gen);
                    sim::Own own;
                    check(title(c, (int) o.a), difference(c.refModel[o.a], s));
                    break;
                }
                case HANDLER: {
                    sim::probe(K_GENS);
                    Busy busy;
                    JobTimer timer;
                    if (c.listen) timer.addListener(c.lis);
                    struct Detach { HandlerUnit& u; ~Detach() { u.h->setJobTimer(nullptr); } } detach{c.hu};
                    std::string t = c.hu.generate((int) o.a, c.throws, &timer);
                    sim::Own own;
                    if (t != c.refText[o.a]) sim::violation("different-sources", "%s of the code handler (%s): %s", LANGN[o.a], KN[c.hk], differenceText(c.refText[o.a], t).c_str());
                    break;
                }
                case RENEW: {
                    Quiet quiet;
                    c.drop();
                    c.library((int) o.a);
                    break;
                }
                case ADDMODEL:
                    if (c.inLib < NMOD) {
                        Quiet quiet;
                        c.lib->addModel(*c.m[c.inLib]->gen);
                        c.inLib++;
                    }
                    break;
                case PLACE: {
                    Quiet quiet;
                    sim::probe(K_PLACED);
                    c.drop();
                    for (auto& x : c.m) x.reset();
                    c.hu = HandlerUnit();
                    c.du = DaeUnit();
                    sim::setPlacement((sim::Placement) o.a, (uint64_t) o.b);
                    c.tapes(); c.hu.make(c.hk, *c.atom); c.library(1 + (int) (o.b % NMOD));
                    if (c.dk >= 0) c.du.make(c.dk);
                    break;
                }
                case DAE: {
                    if (c.dk < 0) break;
                    sim::probe(K_DAE);
                    Busy busy;
                    std::string t = c.du.reduce((int) o.a, c.dflags & 1, c.dflags & 2, c.dflags & 4);
                    sim::Own own;
                    if (t != c.refDae[o.a]) sim::violation("different-sources", "index reduction (%s) of the %s: %s", METHODN[o.a], DAEN[c.dk], differenceText(c.refDae[o.a], t).c_str());
                    break;
                }
                case EVAL: {
                    Quiet quiet;
                    std::vector<double> v = c.eval((int) o.a);
                    if (v != c.refEval[o.a]) sim::violation("wrong-recording", "%s evaluates to other values after generating sources", title(c, (int) o.a).c_str());
                    break;
                }
            }
        } catch (const std::exception& e) {
            sim::probe(K_FAILED);
            sim::Own own;
            std::string m = e.what();
            if (dynamic_cast<const Aborted*>(&e)) sim::probe(K_ABORTED);
            sim::event(0xE);
            if (t_injected == injected) sim::violation("unexpected-failure", "%s failed without any fault: %s", where.c_str(), m.c_str());
            if (g_verbose) fprintf(stderr, "  %s: %s\n", where.c_str(), m.c_str());
        }
        if (!c.lis.broken.empty()) sim::violation("job-events", "%s: %s", where.c_str(), c.lis.broken.c_str());
        return true;
    }
    static bool g_verbose;

    void clientRun(Client& c, const sim::Scenario& s) {
        if (s.prop == "C16") {    // everything happens in the thread
            c.tapes();
            c.hu.make(c.hk, *c.atom);
            c.library(1 + (int) (s.seed % NMOD));
        }
        for (const sim::Op& o : s.ops) if (o.client == c.id) step(c, o);
        if (s.prop == "C16") {
            c.drop();
            for (auto& x : c.m) x.reset();
            c.hu = HandlerUnit();
        }
    }
    static bool inParallel() { return g_parallel; }
    static size_t threadNumber() { return g_parallel ? (size_t) sim::self() : 0; }
    static bool g_parallel;

    void execute(const sim::Scenario& s) override {
        sim::setFaults(false);
        sim::g_newFaults = false;
        int clients = (int) s.get("clients", 1);
        std::vector<std::unique_ptr<Client>> cs;
        for (int i = 0; i < clients; ++i) {
            cs.emplace_back(new Client());
            Client& c = *cs.back();
            c.id = i;
            std::string p = "c" + std::to_string(i) + "_";
            for (int k = 0; k < NMOD; ++k) c.spec[k] = specOf(s, i, k);
            c.hk = (int) s.get(p + "hk", 1);
            c.dk = (int) s.get(p + "dk", -1);
            c.dflags = (int) s.get(p + "df", 0);
            int mt = (int) s.get(p + "mt");
            c.mt = mt == 0 ? MultiThreadingType::NONE : mt == 1 ? MultiThreadingType::PTHREADS : MultiThreadingType::OPENMP;
            c.atom.reset(new Atom());
            c.references();
            c.throws = true;
            c.lis.throws = true;
            c.listen = s.get(p + "lis") != 0;
        }
        CppAD::thread_alloc::free_available(0);
        size_t before = 0;
        bool faults = false;
        for (auto& kv : s.cfg) if (kv.first.size() == 3 && kv.first.compare(0, 2, "f.") == 0) faults = true;
        if (s.prop == "C15") {
            Client& c = *cs[0];
            // the first round shows what is kept for the process; the second one must not keep more
            c.tapes(); c.hu.make(c.hk, *c.atom); c.library(NMOD);
            for (int l = 0; l < NLANG; ++l) c.hu.generate(l, false, nullptr);
            c.all(); c.drop(); for (auto& x : c.m) x.reset(); c.hu = HandlerUnit(); c.du = DaeUnit(); c.atom.reset();
            CppAD::thread_alloc::free_available(0);
            before = sim::cppLiveBlocks();
            size_t mark = sim::cppMark();
            c.atom.reset(new Atom());
            c.tapes(); c.hu.make(c.hk, *c.atom); c.library(1 + (int) (s.seed % NMOD));
            if (c.dk >= 0) c.du.make(c.dk);
            sim::setFaults(true);
            sim::g_newFaults = s.cfg.count("f.n") != 0;
            clientRun(c, s);
            sim::setFaults(false);
            sim::g_newFaults = false;
            // nothing interrupts the generation any more
            for (const sim::Op& o : s.ops) if (o.kind != RENEW) step(c, o);
            step(c, {0, GENLIB, 0, 0, 0, 0});
            for (int i = 0; i < NMOD; ++i) step(c, {0, EVAL, i, 0, 0, 0});
            c.drop();
            for (auto& x : c.m) x.reset();
            c.hu = HandlerUnit();
            c.du = DaeUnit();
            c.atom.reset();
            c.lis.stack.clear();
            c.lis.stack.shrink_to_fit();
            CppAD::thread_alloc::free_available(0);
            if (sim::cppLiveBlocks() > before) {
                sim::leakReport(mark);
                sim::violation("leak", "%zu blocks of memory are still allocated after everything was destroyed", sim::cppLiveBlocks() - before);
            }
        } else if (s.prop == "C18") {
            Client& c = *cs[0];
            c.tapes(); c.hu.make(c.hk, *c.atom); c.library(1 + (int) (s.seed % NMOD));
            if (c.dk >= 0) c.du.make(c.dk);
            clientRun(c, s);
        } else {
            sim::probe(sim::C_CONCURRENT);
            CppAD::thread_alloc::parallel_setup((size_t) clients + 1, inParallel, threadNumber);
            CppAD::parallel_ad<double>();
            CppAD::parallel_ad<CGD>();
            g_parallel = true;
            sim::setFaults(true);
            sim::g_newFaults = s.cfg.count("f.n") != 0;
            std::vector<int> t;
            for (auto& c : cs) { Client* p = c.get(); t.push_back(sim::spawn([this, p, &s] { clientRun(*p, s); }, "client")); }
            for (int i : t) sim::join(i);
            g_parallel = false;
            sim::setFaults(false);
            sim::g_newFaults = false;
        }
        (void) faults;
    }
};
bool GenSystem::g_parallel = false;
bool GenSystem::g_verbose = getenv("SIM_VERBOSE") != nullptr;

int main(int argc, char** argv) {
    GenSystem p;
    return sim::runnerMain(argc, argv, p);
}
