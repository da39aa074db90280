// S4: simulator of the life cycle of libraries and their models (C13).
// The real LinuxDynamicLib, LinuxDynamicLibModel, FunctorGenericModel and CGAtomicGenericModel run against a simulated loader; the libraries
// are real compiled corpora, one of them with a thread pool. Unloaded code is never mapped again: using it is a crash.
#include "../pool/evals.hpp"
#include "loader.hpp"

typedef LinuxDynamicLib<double> Lib;
typedef LinuxDynamicLibModel<double> Model;

enum Kind { OPEN, MOVELIB, CLOSE, GET, MOVE, DROP, EVAL, QUERY, REG, TAPE, RUN, SET };
static const int NL = 3, NS = 6, NFILES = 3, NQ = 9;
static const char* const SYMS[] = {"cppad_cg_version", "cppad_cg_models", "info", "atomic_functions", "forward_zero", "sparse_jacobian", "sparse_hessian", "jacobian", "hessian",
    "sparse_forward_one", "sparse_reverse_one", "sparse_reverse_two", "forward_one_sparsity", "reverse_one_sparsity", "sparse_reverse_two_sparsity", "jacobian_sparsity", "hessian_sparsity",
    "hessian_sparsity2", "forward_one", "reverse_one", "reverse_two", "cppad_cg_set_thread_pool_disabled", "cppad_cg_set_thread_number"};
static const int NSYM = sizeof SYMS / sizeof *SYMS;
static const char* DEFECT[] = {"intact", "missing", "made for another API version", "without the symbol", "made for another base type", "with invalid dimensions", "not a model library"};

static void throwingHandler(bool, int, const char*, const char*, const char* msg) { throw CGException(std::string(msg)); }

struct Instance { bool open = true; int file = 0; loader::Image im; };   // an opened library, whatever object holds it

struct LibSlot { std::unique_ptr<Lib> lib; int inst = -1; };              // inst < 0: moved from
struct ModelSlot {
    std::unique_ptr<Model> m;
    int k = 0, inst = -1;             // inst < 0: moved from
    int ext = -1;                     // external function: -1 none, NS the atomic function, otherwise the slot of a model
    std::unique_ptr<ADFun<double>> tape;
};

struct LifeSystem : public sim::System {
    std::string so[2];
    std::vector<Instance> inst;
    LibSlot L[NL];
    ModelSlot M[NS];
    InnerAtomic* inner = nullptr;

    std::string describe(const sim::Op& o) override {
        std::ostringstream s;
        switch (o.kind) {
            case OPEN: s << "open file " << o.b << " (" << DEFECT[o.c] << (o.c == 3 ? std::string(" ") + SYMS[o.d] : "") << ") as library " << o.a; break;
            case MOVELIB: s << "move library " << o.a << " to library " << o.b; break;
            case CLOSE: s << "destroy library " << o.a; break;
            case GET: s << "obtain model " << (o.c < NM ? MODELS[o.c].name : "unknown") << " of library " << o.a << " as model " << o.b; break;
            case MOVE: s << "move model " << o.a << " to model " << o.b; break;
            case DROP: s << "destroy model " << o.a; break;
            case EVAL: s << EK[o.b] << " of model " << o.a << " at point " << o.c; break;
            case QUERY: s << "sparsity query " << o.b << " of model " << o.a; break;
            case REG: s << "register " << (o.b >= NS ? std::string("the atomic function") : "model " + std::to_string(o.b)) << " with model " << o.a; break;
            case TAPE: s << "record model " << o.a << " as an atomic function"; break;
            case RUN: s << "evaluate the recording of model " << o.a << " at point " << o.c; break;
            case SET: s << "thread settings of library " << o.a; break;
        }
        return s.str();
    }
    std::vector<const char*> counterNames() override {
        std::vector<const char*> n(64, "");
        n[sim::C_BADALLOC] = "fault: failed operator new"; n[sim::C_EXTFAIL] = "fault: external function reports failure"; n[sim::C_EXTTHROW] = "fault: external function throws";
        n[loader::K_OPENFAIL] = "fault: failed dlopen"; n[loader::K_MISSING] = "fault: required or optional symbol missing"; n[loader::K_OTHER] = "fault: incompatible library contents";
        n[loader::K_OPENS] = "libraries opened"; n[loader::K_UNLOADS] = "libraries unloaded"; n[sim::C_EVAL] = "evaluations"; n[sim::C_EXC] = "operations ended by an exception";
        n[sim::C_RECONF] = "evaluations of closed or moved models"; n[sim::C_RELOAD] = "objects moved"; n[sim::C_PREEMPT] = "preemptions"; n[sim::C_NEST] = "library worker threads created";
        return n;
    }
    bool nontrivial(const sim::Shared& r) override { return r.counters[loader::K_OPENS] > 0; }
    void prepare(const std::string&) override {
        sim::heapInit();
        buildRefs();
    }
    sim::Config simConfig(const sim::Scenario& s) override { return sim::configFrom(s); }

    sim::Scenario generate(const std::string& prop, uint64_t seed) override {
        sim::Rng r(seed * 104729 + 29);
        sim::Scenario s;
        s.prop = prop;
        s.seed = seed;
        sim::drawSchedule(s, r);
        s.cfg["threads"] = 1 + (double) r.below(3);
        static const double p[] = {0.002, 0.01, 0.05};
        if (r.below(3) == 0) { s.cfg["f.n"] = p[r.below(3)]; s.cfg["b.n"] = 1 + (double) r.below(3); }
        if (r.below(4) == 0) { s.cfg["f.L"] = 0.2; }
        if (r.below(6) == 0) { s.cfg["f.x"] = 0.1; s.cfg["f.y"] = 0.1; }
        bool defects = r.below(3) == 0;
        int n = 4 + (int) r.below(22);
        // a rough picture of the state, so that most operations are possible
        bool lib[NL] = {}, mod[NS] = {};
        for (int i = 0; i < n; ++i) {
            int l = (int) r.below(NL), m = (int) r.below(NS);
            auto anyLib = [&] { for (int t = 0; t < 4 && !lib[l]; ++t) l = (int) r.below(NL); };
            auto anyMod = [&] { for (int t = 0; t < 4 && !mod[m]; ++t) m = (int) r.below(NS); };
            auto get = [&] {
                anyLib();
                static const int pick[] = {0, 1, 2, 4, 4, 4, 5, 5, 6, 3, NM};
                s.ops.push_back({0, GET, l, m, pick[r.below(11)], 0});
                mod[m] = true;
            };
            switch (i == 0 ? 0 : i == 1 ? 3 : r.below(24)) {
                case 0: {
                    long c = defects && r.below(2) ? 1 + (long) r.below(6) : 0;
                    if (c > 3 && r.below(2)) c = 3;
                    s.ops.push_back({0, OPEN, l, (long) r.below(NFILES), c, (long) r.below(NSYM)});
                    lib[l] = true;
                    break;
                }
                case 1: { anyLib(); int b = (int) r.below(NL); s.ops.push_back({0, MOVELIB, l, b, 0, 0}); lib[b] = true; break; }
                case 2: anyLib(); s.ops.push_back({0, CLOSE, l, 0, 0, 0}); lib[l] = false; break;
                case 3: case 4: case 5: get(); break;
                case 6: case 7: { anyMod(); int b = (int) r.below(NS); s.ops.push_back({0, MOVE, m, b, 0, 0}); mod[b] = true; break; }
                case 8: anyMod(); s.ops.push_back({0, DROP, m, 0, 0, 0}); mod[m] = false; break;
                case 9: case 10: anyMod(); s.ops.push_back({0, QUERY, m, (long) r.below(NQ), 0, 0}); break;
                case 11: case 12: anyMod(); s.ops.push_back({0, REG, m, r.below(2) ? (long) NS : (long) r.below(NS), 0, 0}); break;
                case 13: anyMod(); s.ops.push_back({0, TAPE, m, 0, 0, 0}); break;
                case 14: anyMod(); s.ops.push_back({0, RUN, m, 0, (long) r.below(NX), 0}); break;
                case 15: anyLib(); s.ops.push_back({0, SET, l, (long) r.below(4), 0, 0}); break;
                default: anyMod(); s.ops.push_back({0, EVAL, m, (long) r.below(10), (long) r.below(NX), 0}); break;
            }
        }
        return s;
    }

    // ------------------------------------------------------------- the expected state
    static bool has(int k, int ek) { return !((k == 4 && (ek == E_DJ || ek == E_DH)) || (k == 1 && ek == E_F1) || (k == 0 && ek == E_R1)); }
    bool missing(int i, const char* sym) const { return inst[(size_t) i].im.defect == 6 || (inst[(size_t) i].im.defect == 3 && inst[(size_t) i].im.symbol == sym); }
    bool missingIn(int i, int k, const char* fn) const { return missing(i, (std::string(MODELS[k].name) + "_" + fn).c_str()); }
    bool ready(const ModelSlot& s) const { return s.m && s.inst >= 0 && inst[(size_t) s.inst].open; }
    // the kinds of evaluations an external model is asked for: the same ones
    bool usable(int slot, int ek) const {
        const ModelSlot& s = M[slot];
        if (!ready(s) || !has(s.k, ek)) return false;
        static const char* const fn[] = {"sparse_jacobian", "sparse_hessian", "forward_zero", "jacobian", "hessian", "sparse_forward_one", "sparse_reverse_one", "sparse_reverse_two",
            "sparse_jacobian", "sparse_hessian"};
        if (missingIn(s.inst, s.k, fn[ek])) return false;
        if (MODELS[s.k].ext && s.ext < 0) return false;
        return true;
    }
    // whether the external function of a model may legitimately fail
    bool doubtful(int slot) const {
        const ModelSlot& s = M[slot];
        if (!MODELS[s.k].ext || s.ext < 0 || s.ext >= NS) return false;
        const ModelSlot& e = M[s.ext];
        return !ready(e) || inst[(size_t) e.inst].im.defect != 0;
    }
    bool closedExternal(int slot) const {
        const ModelSlot& s = M[slot];
        return MODELS[s.k].ext && s.ext >= 0 && s.ext < NS && !ready(M[s.ext]);
    }
    bool referenced(int slot) const {
        for (int i = 0; i < NS; ++i) if (M[i].m && M[i].ext == slot) return true;
        return false;
    }
    void clearModel(int i) { M[i].tape.reset(); M[i].m.reset(); M[i].inst = -1; M[i].ext = -1; }
    void closeInst(int i) { if (i >= 0) inst[(size_t) i].open = false; }

    void accounts(const char* when) {
        size_t want = 0;
        bool pool = false;
        for (auto& i : inst) if (i.open) { want++; pool = pool || i.file == 2; }
        if (loader::openHandles() != want)
            sim::violation("handles", "%zu library handles are open after %s although %zu libraries are in use", loader::openHandles(), when, want);
        if (!pool) {
            if (sim::livePthreads() > 0) sim::violation("thread-alive", "%d worker threads still exist after %s", sim::livePthreads(), when);
            if (sim::heapLiveBlocks() > 0) sim::violation("leak", "%zu blocks of the thread pool are still allocated after %s", sim::heapLiveBlocks(), when);
        }
    }
    static uint64_t injected() {
        uint64_t n = 0;
        for (int k : {(int) sim::C_BADALLOC, (int) loader::K_OPENFAIL, (int) sim::C_EXTFAIL, (int) sim::C_EXTTHROW}) n += sim::g_sh->counters[k];
        return n;
    }
    struct NewFaults {
        explicit NewFaults(const sim::Scenario& s) { sim::g_newFaults = s.cfg.count("f.n") != 0 && sim::faultsOn(); }
        ~NewFaults() { sim::g_newFaults = false; }
    };

    // runs fn; returns whether it ended without exception
    template<class F>
    bool attempt(const sim::Scenario& s, const char* what, bool newFaults, F&& fn) {
        uint64_t before = injected();
        try {
            if (newFaults) { NewFaults nf(s); fn(); }
            else fn();
            return true;
        } catch (const std::exception& e) {
            sim::probe(sim::C_EXC);
            sim::event(77);
            cause = injected() != before;
            sim::Own own;
            why = e.what();
        }
        return false;
    }
    bool cause = false;
    std::string why;

    void query(int slot, int q) {
        ModelSlot& s = M[slot];
        Model& m = *s.m;
        int k = s.k;
        size_t n = MODELS[k].n, mm = MODELS[k].m;
        std::vector<std::set<size_t>> ps;
        std::vector<size_t> row, col;
        std::vector<bool> pb;
        bool jac = q < 3, eq = q >= 6;
        switch (q) {
            case 0: ps = m.JacobianSparsitySet(); break;
            case 1: pb = m.JacobianSparsityBool(); break;
            case 2: m.JacobianSparsity(row, col); break;
            case 3: ps = m.HessianSparsitySet(); break;
            case 4: pb = m.HessianSparsityBool(); break;
            case 5: m.HessianSparsity(row, col); break;
            case 6: ps = m.HessianSparsitySet(0); break;
            case 7: pb = m.HessianSparsityBool(0); break;
            case 8: m.HessianSparsity(0, row, col); break;
        }
        size_t nr = jac ? mm : n;
        std::vector<char> p(nr * n, 0);
        if (ps.size() > nr || (!pb.empty() && pb.size() != nr * n)) sim::violation("wrong-value", "sparsity query %d has the wrong size", q);
        for (size_t i = 0; i < ps.size(); ++i) for (size_t j : ps[i]) if (j < n) p[i * n + j] = 1;
        for (size_t i = 0; i < pb.size(); ++i) p[i] = pb[i];
        for (size_t e = 0; e < row.size(); ++e) if (row[e] < nr && col[e] < n) p[row[e] * n + col[e]] = 1;
        const Ref& r = REF[k][0];
        for (size_t i = 0; i < nr * n && !eq; ++i)
            if ((jac ? r.jac[i] : r.hess[i]) != 0 && !p[i]) {
                if (!jac && k == 6) continue;   // the elements were chosen by the user
                if (!jac && p[(i % n) * n + i / n]) continue;
                sim::violation("wrong-value", "sparsity query %d of model %s misses an element", q, MODELS[k].name);
            }
        if (m.Domain() != n || m.Range() != mm) sim::violation("wrong-value", "model %s has the wrong dimensions", MODELS[k].name);
    }

    void step(const sim::Scenario& s, const sim::Op& o) {
        sim::event(((uint64_t) o.kind << 32) ^ ((uint64_t) o.a << 24) ^ ((uint64_t) o.b << 16) ^ ((uint64_t) o.c << 8) ^ (uint64_t) o.d);
        switch (o.kind) {
            case OPEN: {
                LibSlot& l = L[o.a];
                if (l.lib) { closeInst(l.inst); l.lib.reset(); l.inst = -1; }
                loader::Image im;
                im.defect = (int) o.c;
                if (im.defect == 3) {
                    im.symbol = SYMS[o.d];
                    if (o.d >= 2 && im.symbol.compare(0, 8, "cppad_cg") != 0) im.symbol = std::string(MODELS[o.d % NM].name) + "_" + im.symbol;
                    if (o.b == 2 && o.d > 20) im.symbol = "cppad_cg_models";
                }
                if (!loader::loaded((int) o.b)) loader::setImage((int) o.b, im);
                else for (auto& i : inst) if (i.open && i.file == o.b) im = i.im;      // the instance already loaded is used
                {
                    sim::Own own;
                    inst.push_back(Instance{false, (int) o.b, im});
                }
                int id = (int) inst.size() - 1;
                bool bad = im.defect == 1 || im.defect == 2 || missing(id, "cppad_cg_version") || missing(id, "cppad_cg_models");
                std::string path = "/libs/lib" + std::to_string(o.b) + ".so";
                bool ok = attempt(s, "open", true, [&] { l.lib.reset(new Lib(path)); });
                if (ok) {
                    inst[(size_t) id].open = true;
                    l.inst = id;
                    if (bad) sim::violation("accepted", "a library %s %s was opened without an exception", DEFECT[im.defect], im.symbol.c_str());
                    l.lib->setThreadNumber((unsigned) s.get("threads", 2));
                } else if (!bad && !cause) sim::violation("unexpected-exception", "opening an intact library failed: %s", why.c_str());
                break;
            }
            case MOVELIB: {
                if (o.a == o.b || !L[o.a].lib) return;
                if (L[o.b].lib) { closeInst(L[o.b].inst); L[o.b].lib.reset(); L[o.b].inst = -1; }
                if (!attempt(s, "move", true, [&] { L[o.b].lib.reset(new Lib(std::move(*L[o.a].lib))); })) {
                    if (!cause) sim::violation("unexpected-exception", "moving a library failed: %s", why.c_str());
                    break;
                }
                L[o.b].inst = L[o.a].inst;
                L[o.a].inst = -1;
                sim::probe(sim::C_RELOAD);
                break;
            }
            case CLOSE: {
                if (!L[o.a].lib) return;
                closeInst(L[o.a].inst);
                L[o.a].inst = -1;
                NewFaults nf(s);
                L[o.a].lib.reset();
                break;
            }
            case GET: {
                LibSlot& l = L[o.a];
                if (!l.lib || referenced((int) o.b)) return;
                clearModel((int) o.b);
                ModelSlot& m = M[o.b];
                int k = (int) o.c;
                bool null = l.inst < 0 || k >= NM, bad = false;
                if (!null) {
                    const loader::Image& im = inst[(size_t) l.inst].im;
                    bad = im.defect == 4 || im.defect == 5;
                    for (const char* f : {"info", "atomic_functions"}) bad = bad || missingIn(l.inst, k, f);
                    // incomplete sets of functions are rejected too
                    struct { const char* fn; int kind; } sets[] = {{"sparse_forward_one", E_F1}, {"forward_one_sparsity", E_F1}, {"forward_one", E_F1}, {"sparse_reverse_one", E_R1},
                        {"reverse_one_sparsity", E_R1}, {"reverse_one", E_R1}, {"sparse_reverse_two", E_R2}, {"sparse_reverse_two_sparsity", E_R2}, {"reverse_two", E_R2},
                        {"jacobian_sparsity", E_SJ}, {"hessian_sparsity", E_SH}};
                    for (auto& x : sets) bad = bad || (has(k, x.kind) && missingIn(l.inst, k, x.fn));
                }
                std::unique_ptr<Model> got;
                bool ok = attempt(s, "get", true, [&] { got = l.lib->modelLinuxDyn(k < NM ? MODELS[k].name : "unknown"); });
                if (!ok) {
                    if (!bad && !cause) sim::violation("unexpected-exception", "obtaining model %s failed: %s", k < NM ? MODELS[k].name : "unknown", why.c_str());
                    break;
                }
                if (bad) sim::violation("accepted", "model %s of an incomplete or incompatible library was created", MODELS[k].name);
                if (null != !got) sim::violation("missing-model", null ? "a model which does not exist was provided" : "model %s is not in the library", k < NM ? MODELS[k].name : "unknown");
                if (got) { m.m = std::move(got); m.k = k; m.inst = l.inst; }
                break;
            }
            case MOVE: {
                if (o.a == o.b || !M[o.a].m || referenced((int) o.a) || referenced((int) o.b)) return;
                clearModel((int) o.b);
                if (!attempt(s, "move", true, [&] { M[o.b].m.reset(new Model(std::move(*M[o.a].m))); })) {
                    if (!cause) sim::violation("unexpected-exception", "moving a model failed: %s", why.c_str());
                    break;
                }
                M[o.b].k = M[o.a].k;
                M[o.b].inst = M[o.a].inst;
                M[o.b].ext = M[o.a].ext;
                M[o.b].tape = std::move(M[o.a].tape);
                M[o.a].inst = -1;
                M[o.a].ext = -1;
                sim::probe(sim::C_RELOAD);
                break;
            }
            case DROP: if (!referenced((int) o.a)) clearModel((int) o.a); break;
            case EVAL: {
                ModelSlot& m = M[o.a];
                if (!m.m) return;
                bool ok0 = usable((int) o.a, (int) o.b), doubt = doubtful((int) o.a), closedExt = closedExternal((int) o.a);
                if (!ready(m)) sim::probe(sim::C_RECONF);
                g_extBefore = extFailures();
                bool ok = attempt(s, "evaluate", true, [&] { evalModel(*m.m, m.k, (int) o.b, (int) o.c); });
                if (ok && !ok0)
                    sim::violation("evaluated", "%s of model %s returned although %s", EK[o.b], MODELS[m.k].name,
                                   ready(m) ? "it is not available" : m.inst < 0 ? "the model was moved" : "its library was closed");
                if (ok && closedExt) sim::violation("evaluated", "%s of model %s returned although the library of its external model was closed", EK[o.b], MODELS[m.k].name);
                if (!ok && ok0 && !doubt && !cause) sim::violation("unexpected-exception", "%s of model %s failed: %s", EK[o.b], MODELS[m.k].name, why.c_str());
                break;
            }
            case QUERY: {
                ModelSlot& m = M[o.a];
                if (!m.m) return;
                bool can = ready(m);
                if (can) {
                    static const char* const fn[] = {"jacobian_sparsity", "jacobian_sparsity", "jacobian_sparsity", "hessian_sparsity", "hessian_sparsity", "hessian_sparsity",
                        "hessian_sparsity2", "hessian_sparsity2", "hessian_sparsity2"};
                    can = !missingIn(m.inst, m.k, fn[o.b]) && m.m->isJacobianSparsityAvailable() && (o.b < 6 || m.m->isEquationHessianSparsityAvailable());
                }
                if (!ready(m)) sim::probe(sim::C_RECONF);
                bool ok = attempt(s, "query", true, [&] { query((int) o.a, (int) o.b); });
                if (ok && !can) sim::violation("evaluated", "sparsity query %ld of model %s returned although it is not available", o.b, MODELS[m.k].name);
                if (!ok && can && !cause) sim::violation("unexpected-exception", "sparsity query %ld of model %s failed: %s", o.b, MODELS[m.k].name, why.c_str());
                break;
            }
            case REG: {
                ModelSlot& m = M[o.a];
                if (!m.m || o.a == o.b) return;
                bool model = o.b < NS;
                if (model && (!M[o.b].m || M[o.b].ext >= 0)) return;
                bool known = MODELS[m.k].ext && m.inst >= 0 && (!model || (M[o.b].inst >= 0 && M[o.b].k == 5)), added = false;
                bool ok = attempt(s, "register", true, [&] { added = model ? m.m->addExternalModel(*M[o.b].m) : m.m->addAtomicFunction(*inner); });
                if (!ok) { if (!cause) sim::violation("unexpected-exception", "registering an external function failed: %s", why.c_str()); clearModelIfUnreferenced((int) o.a); break; }
                if (added != known) sim::violation("external", "registering an external function with model %s gave %d", MODELS[m.k].name, (int) added);
                if (added) m.ext = (int) o.b;
                break;
            }
            case TAPE: {
                ModelSlot& m = M[o.a];
                if (!m.m || MODELS[m.k].ext || m.inst < 0) return;
                bool can = ready(m) && !missingIn(m.inst, m.k, "forward_zero") && !missingIn(m.inst, m.k, "jacobian_sparsity");
                size_t n = MODELS[m.k].n, mm = MODELS[m.k].m;
                if (!ready(m)) sim::probe(sim::C_RECONF);
                m.tape.reset();
                bool ok = attempt(s, "record", false, [&] {
                    std::vector<AD<double>> ax(n), ay(mm);
                    for (size_t j = 0; j < n; ++j) ax[j] = REF[m.k][0].x[j];
                    CppAD::Independent(ax);
                    try {
                        m.m->asAtomic()(ax, ay);
                        m.tape.reset(new ADFun<double>(ax, ay));
                    } catch (...) {
                        AD<double>::abort_recording();
                        throw;
                    }
                });
                if (ok && !can) sim::violation("evaluated", "model %s was recorded although it cannot be evaluated", MODELS[m.k].name);
                if (!ok && can && !cause) sim::violation("unexpected-exception", "recording model %s failed: %s", MODELS[m.k].name, why.c_str());
                break;
            }
            case RUN: {
                ModelSlot& m = M[o.a];
                if (!m.m || !m.tape) return;
                bool can = ready(m) && inst[(size_t) m.inst].im.defect == 0 && has(m.k, E_R1);
                bool must = !ready(m);
                const Ref& r = REF[m.k][o.c];
                if (must) sim::probe(sim::C_RECONF);
                g_extBefore = extFailures();
                bool ok = attempt(s, "run", false, [&] {
                    V y = m.tape->Forward(0, r.x);
                    compare("recorded Forward", m.k, (int) o.c, y, r.y);
                    V w(MODELS[m.k].m, 0.0), want(MODELS[m.k].n);
                    w[0] = 1;
                    for (size_t j = 0; j < want.size(); ++j) want[j] = r.jac[j];
                    V g = m.tape->Reverse(1, w);
                    compare("recorded Reverse", m.k, (int) o.c, g, want);
                });
                if (ok && must) sim::violation("evaluated", "the recording of model %s was evaluated although its library was closed", MODELS[m.k].name);
                if (!ok && can && !cause) sim::violation("unexpected-exception", "evaluating the recording of model %s failed: %s", MODELS[m.k].name, why.c_str());
                break;
            }
            case SET: {
                if (!L[o.a].lib) return;
                Lib& l = *L[o.a].lib;
                bool ok = attempt(s, "set", false, [&] {
                    switch (o.b) {
                        case 0: l.setThreadNumber(1 + (unsigned) s.get("threads", 2)); (void) l.getThreadNumber(); break;
                        case 1: l.setThreadPoolSchedulerStrategy(ThreadPoolScheduleStrategy::GUIDED); (void) l.getThreadPoolSchedulerStrategy(); break;
                        case 2: l.setThreadPoolDisabled(false); (void) l.isThreadPoolDisabled(); break;
                        case 3: l.setThreadPoolGuidedMaxWork(0.5f); (void) l.getThreadPoolGuidedMaxWork(); (void) l.getThreadPoolNumberOfTimeMeas(); (void) l.isThreadPoolVerbose(); break;
                    }
                });
                if (!ok) sim::violation("unexpected-exception", "changing settings failed: %s", why.c_str());
                break;
            }
        }
    }
    // after a failed registration the state of the model's external function is not known
    void clearModelIfUnreferenced(int i) {
        if (!referenced(i)) clearModel(i);
    }

    static void use() {
        loader::setImage(0, loader::Image());
        Lib l("/libs/lib0.so");
        std::unique_ptr<Model> m = l.modelLinuxDyn("fwd");
        if (!m) sim::violation("missing-model", "model fwd is not in the library");
        g_extBefore = extFailures();
        for (int ek : {E_SJ, E_F1, E_R2}) evalModel(*m, 0, ek, 1);
    }
    void execute(const sim::Scenario& s) override {
        static CppAD::ErrorHandler handler(throwingHandler);    // CppAD's default handler ends the process
        loader::reset(so[0], NFILES);
        inst.clear();
        inst.reserve(64);
        InnerAtomic in;
        inner = &in;
        g_extFaults = true;
        bool recorded = false;
        for (const sim::Op& o : s.ops) recorded = recorded || o.kind == TAPE;
        sim::setFaults(false);
        use();     // some memory is kept for the process
        CppAD::thread_alloc::free_available(0);
        size_t before = sim::cppLiveBlocks();
        sim::setFaults(true);
        for (const sim::Op& o : s.ops) {
            step(s, o);
            accounts(describeOwn(o).c_str());
        }
        // everything is destroyed, the models in any order relative to their libraries
        sim::setFaults(false);
        sim::g_newFaults = false;
        sim::Rng r(s.seed + 5);
        int order[NS + NL];
        for (int i = 0; i < NS + NL; ++i) order[i] = i;
        for (int i = NS + NL - 1; i > 0; --i) std::swap(order[i], order[r.below((uint64_t) i + 1)]);
        for (int i : order) {
            if (i < NS) clearModel(i);
            else if (L[i - NS].lib) { closeInst(L[i - NS].inst); L[i - NS].lib.reset(); L[i - NS].inst = -1; }
        }
        accounts("destroying everything");
        // the system can still be used
        use();
        accounts("the last use");
        // CppAD keeps the lists of its atomic functions and recordings
        CppAD::thread_alloc::free_available(0);
        if (!recorded && sim::cppLiveBlocks() > before)
            sim::violation("leak", "%zu blocks of memory are still allocated after every model and library was destroyed", sim::cppLiveBlocks() - before);
    }
    std::string describeOwn(const sim::Op& o) { sim::Own own; return describe(o); }
};

int main(int argc, char** argv) {
    const char* so = getenv("SIM_SO");
    if (!so) { fprintf(stderr, "SIM_SO not set\n"); return 3; }
    LifeSystem p;
    p.so[0] = so;
    return sim::runnerMain(argc, argv, p);
}
