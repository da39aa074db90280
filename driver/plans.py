"""Which simulator decides which property, and what the evidence says about it."""

POOL_REAL = ("real code: generated C sources of the corpus models and pthread_pool.c (compiled from the current tree, every memory access a "
             "scheduling point), FunctorGenericModel, GenericModel, LinuxDynamicLib. stub: pthreads, clocks, sleeping, malloc, operator new and "
             "stdio as seen by that code")

POOL_NOTE = ("Sampled, not exhaustive: seeded random, priority and synchronisation-point schedules at memory-access granularity (sequentially consistent "
             "memory: effects of weak memory ordering are not simulated). Assumes POSIX semantics of the stubbed pthread primitives; a bounded corpus of "
             "six models. Every reported violation was repeated twice from its seed and replayed in a fresh process.")
OMP_REAL = ("real code: generated C sources of the corpus models and openmp.c (compiled from the current tree with clang -fopenmp, every memory access a scheduling "
            "point), FunctorGenericModel, GenericModel, LinuxDynamicLib. stub: the OpenMP runtime (teams, work sharing, control variables), clocks, malloc, operator new, stdio")
OMP_NOTE = ("Sampled, not exhaustive, at memory-access granularity (sequentially consistent memory). The OpenMP runtime is a model of libomp's entry points: it grants "
            "any team size up to the requested one and any iteration assignment the schedule kind permits. Bounded corpus of six models.")
TOOL_REAL = ("real code, compiled from the current tree: system::callExecutable and the other system functions, AbstractCCompiler, GccCompiler, ClangCompiler, ArArchiver, "
             "DynamicModelLibraryProcessor, SaveFilesModelLibraryProcessor, ModelLibraryCSourceGen and model source generation, JobTimer, LinuxDynamicLib, libstdc++ streams. "
             "stub: the operating system (processes, fork/exec/wait, pipes, descriptors, signals, stdio of the caller, file system, clocks), the programs gcc, clang, ar and others, the "
             "dynamic loader, operator new. Each simulated process that forked runs the real child code in a real, fully intercepted child process")
TOOL_NOTE = ("Sampled, not exhaustive: scheduling points at system calls. The kernel, the tools and the loader are models of POSIX/Linux behaviour; only sources, flags, objects "
             "and archive members are tracked, not machine code. The bitcode path is exercised through ClangCompiler only (the LLVM-based processors need LLVM <= 10, which is not installed).")
TOOL_TECH = "real compiler, archiver, processor and process-spawning code on a simulated operating system with a seeded scheduler and fault plan"
LIFE_REAL = ("real code: LinuxDynamicLib, LinuxDynamicLibModel, FunctorModelLibrary, FunctorGenericModel, GenericModel, CGAtomicGenericModel, external function wrappers (instrumented), "
             "generated C sources of the corpus compiled without and with the pthread pool. stub: the dynamic loader (handles, symbol lookup, rejected and incomplete libraries; unloaded code is "
             "made inaccessible for ever), operator new with detection of released memory, pthreads, clocks, malloc")
LIFE_NOTE = ("Sampled histories of up to 26 operations on 3 library and 6 model objects and 3 library files. CppAD's error handler (which some documented failures go through) is replaced by one that "
             "throws, as the documentation of CppAD foresees; the default one ends the process. Models registered as external functions of other models are neither moved nor destroyed while registered.")
GEN_REAL = ("real code, compiled from the current tree and instrumented: CodeHandler, CG and Evaluator, ModelCSourceGen, ModelLibraryCSourceGen, loop detection (DependentPatternMatcher, Loop, LoopModel, index "
            "patterns), the languages C (with and without functions, with small functions), LaTeX, MathML and dot, atomic function wrappers, index reduction (Pantelides, Soares-Secchi, dummy derivatives), "
            "JobTimer, CppAD recordings. stub: operator new and malloc (failures, placement of objects), the user's name generators, listeners, atomic functions and output streams; for C16 the "
            "scheduler of the threads")
GEN_NOTE = ("Sampled sequences over a corpus of 13 kinds of models of seeded sizes, 6 languages and 4 index reductions. Oracle: the sources an undisturbed generation with fresh objects yields, "
            "compared as text. Failed allocations inside CppAD itself (which does not restore its own state) are not injected.")
GEN_TECH = "real source generation with seeded interruptions"
POOL_TECH = "real generated code and thread pool on a seeded scheduler with simulated pthreads, clocks and allocator"
PURE = "A pure function of its input: no schedule, clock, I/O, fault or other party can influence it, so simulation has nothing to decide here (see DESIGN.md). "
NOT_APPLICABLE = {
    "N01": PURE + "The simulated evaluations compare a small corpus with CppAD as a by-product only.",
    "N02": PURE + "It quantifies over models.", "N03": PURE + "It quantifies over equation systems.", "N04": PURE + "It quantifies over operation graphs.",
    "N05": PURE + "It quantifies over expressions.", "N06": PURE + "It quantifies over operation graphs.", "N07": PURE + "It quantifies over index sequences.",
}

PLANS = {
    "C01": dict(sim="pool", quick=45, thorough=900, rule="a run is a generated sequence of evaluations of one caller under one seeded schedule of the "
                "worker threads; non-trivial and distinct: at least one context switch, distinct hash of the sequence of context switches (which thread, "
                "at which of its steps) and of synchronisation events", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C02": dict(sim="pool", quick=45, thorough=900, rule="a run is 2-3 caller threads evaluating their own model objects of one library under one seeded "
                "schedule; non-trivial and distinct as for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C03": dict(sim="pool", quick=45, thorough=900, rule="a run is 1-3 threads submitting generated job sets to the pool and waiting; non-trivial and distinct as "
                "for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C04": dict(sim="pool", quick=45, thorough=900, rule="a run is a generated history of evaluations, jobs, shutdowns, library closings and reopenings; "
                "non-trivial and distinct as for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C05": dict(sim="pool", quick=45, thorough=900, rule="a run is a generated sequence of evaluations with failing allocations, thread creations and clock "
                "readings, followed by a fault-free repetition; non-trivial and distinct as for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C06": dict(sim="pool", quick=45, thorough=900, rule="a run is a generated history of setting changes, evaluations, jobs and shutdowns; non-trivial and "
                "distinct as for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C07": dict(sim="openmp", quick=40, thorough=900, rule="a run is a generated history of setting changes and evaluations of one library generated for OpenMP by 1-3 "
                "callers, each with OpenMP settings of its own, under one seeded assignment of iterations and schedule of the team threads; non-trivial and distinct "
                "as for C01", components=OMP_REAL, technique="real generated code on a simulated OpenMP runtime with a seeded scheduler", note=OMP_NOTE),
    "C14": dict(sim="pool", quick=40, thorough=900, rule="a run is a generated sequence of evaluations of a model with external functions which report "
                "failure or throw at seeded calls, in the caller and in pool workers; non-trivial and distinct as for C01", components=POOL_REAL, technique=POOL_TECH, note=POOL_NOTE),
    "C08": dict(sim="tool", quick=35, thorough=900, rule="a run is a generated sequence of library creations (compiler, processor, static/dynamic, direct/saved, custom sources) with failing "
                "system calls, disks, tools and allocations; non-trivial: at least one operation or context switch; distinct: hash of context switches, system calls and injected "
                "faults", components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C09": dict(sim="tool", quick=35, thorough=900, rule="a run is a generated sequence of tool executions with scripted tools (input read fully, partly or not, output volume and order, exit code, "
                "signal, background process) and failing or interrupted system calls; distinct as for C08", components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C10": dict(sim="tool", quick=35, thorough=900, rule="a run is a generated sequence of creations on the same compiler and processor objects, failing at seeded points and followed by further operations; "
                "distinct as for C08", components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C11": dict(sim="tool", quick=35, thorough=900, rule="a run is 2-3 client threads creating libraries with own objects and folders; distinct as for C08",
                components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C12": dict(sim="tool", quick=25, thorough=900, rule="a run is a generated sequence of saves to a simulated disk with failing, short or late-failing operations and existing contents; distinct as for C08",
                components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C17": dict(sim="tool", quick=35, thorough=900, rule="a run is a generated sequence of operations that report jobs to generated sets of listeners (some of which throw) with wall clock jumps and "
                "failures; distinct as for C08", components=TOOL_REAL, technique=TOOL_TECH, note=TOOL_NOTE),
    "C15": dict(sim="gen", quick=35, thorough=900, rule="a run is a generated sequence of generations (libraries, single models, code handlers with any language, index reductions) with the same or renewed "
                "objects, some interrupted by failed allocations, throwing name generators, listeners, atomic functions or output streams; non-trivial: at least one generation attempted; distinct: hash of operations, "
                "outcomes and faults", components=GEN_REAL, technique=GEN_TECH + " by failing allocations, callbacks and streams, against an undisturbed generation", note=GEN_NOTE),
    "C16": dict(sim="gen", quick=35, thorough=900, rule="a run is 2-3 threads which record and generate with own objects under one seeded schedule (preemption at function calls and accesses to shared state); "
                "non-trivial and distinct: threads interleaved at least once, hash of the context switches", components=GEN_REAL, technique=GEN_TECH + " in several threads on a seeded scheduler", note=GEN_NOTE),
    "C18": dict(sim="gen", quick=30, thorough=900, rule="a run repeats a generated sequence of generations and index reductions with every object created anew and placed elsewhere in memory (ascending, descending, "
                "random or recycled addresses), after other work of the process; distinct: hash of operations, outcomes and placements", components=GEN_REAL,
                technique="real source generation and index reduction on a simulated allocator which decides the placement of every object", note=GEN_NOTE),
    "C13": dict(sim="life", quick=25, thorough=900, rule="a run is a generated history of opening, moving and destroying libraries and models, registering external functions, evaluating, querying and "
                "recording, with rejected or incomplete libraries and failing dlopen, allocations and external functions; non-trivial: at least one library opened; distinct: hash of operations, "
                "outcomes, synchronisation events and context switches", components=LIFE_REAL, technique="real library and model classes and generated code on a simulated dynamic loader and allocator "
                "with seeded histories and faults", note=LIFE_NOTE),
}
