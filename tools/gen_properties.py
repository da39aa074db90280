#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the file stays valid JSON).
import json, os
I = "include/cppad/cg/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files], state=[dict(name=a, meaning=b, where=I+c) for a,b,c in state],
                     mechanism=[dict(name=a, where=I+b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

POOL="model/threadpool/pthread_pool.c"; GEN="model/model_c_source_gen_impl.hpp"; LIBGEN="model/model_library_c_source_gen_impl.hpp"
FUN="model/functor_generic_model.hpp"; LIN="model/dynamic_lib/linux/linux_dynamiclib.hpp"; LINM="model/dynamic_lib/linux/linux_dynamiclib_model.hpp"
SYS="model/system/linux_system.hpp"; ABS="model/compiler/abstract_c_compiler.hpp"; DLP="model/dynamic_lib/dynamic_library_processor.hpp"

prop("C01","Multithreaded evaluation gives the sequential result under every schedule",
 "When a compiled model library was generated for pthreads, every sparse Jacobian and sparse Hessian evaluation made by one caller returns exactly the values that the same library returns when its thread pool is disabled. This holds for every interleaving of the worker threads, every scheduling strategy, number of threads, timing-measurement setting and history of earlier evaluations, and whatever the clocks report.",
 ["schedules","configurations","histories"],
 "all interleavings of the caller and the pool's workers at the granularity of memory accesses, x {dynamic, guided, static} x thread counts x timing settings x measured job times x sequences of evaluations",
 "The pool tests run each strategy a few times under whatever schedule the kernel picks and with whatever CPU times the machine measures; group sizes and job orders that depend on measured times are practically never varied.",
 [POOL,GEN,"model/model_c_source_gen_jac.hpp","model/model_c_source_gen_hes.hpp",FUN],
 [("work queue, group extraction and static work distribution",POOL),("generated per-function job tables, measurement and wait",GEN),("serialised access to per-model buffers from worker threads",FUN)],
 [("job queue","jobs submitted and not yet started",POOL),("job order / reference times","measured per-job durations that drive grouping",GEN)],
 ["SparseJacobian()/SparseHessian() results","jobs executed by the pool API"])
prop("C02","Model instances used in different threads do not affect each other",
 "Separate model objects obtained from the same loaded library can be evaluated at the same time from different threads: each call returns the values it would return alone, and every call returns. This covers all evaluation kinds, libraries with and without a thread pool, and the first evaluations after loading.",
 ["schedules","configurations"],
 "all interleavings of 2-3 caller threads, each with its own model object of one library, and the workers; any mix of evaluations, pool strategies and thread counts",
 "No test evaluates from more than one caller thread.",
 [POOL,GEN,FUN,LIN],
 [("per-object buffers; class documentation promises simultaneous use of several instances",FUN),("pool creation, submission and wait shared by all callers of a library",POOL),("per-function measurement state in generated code",GEN)],
 (),["values returned to each caller thread"])
prop("C03","Pool jobs run exactly once and waiting is a barrier that always returns",
 "Every job submitted to a library's thread pool is executed exactly once, with the argument it was submitted with. A wait returns only when all jobs submitted before it by that caller have completed, and it does return, also when several threads submit and wait at the same time or the work measured for the jobs is zero, equal or extremely uneven.",
 ["schedules","configurations","inputs"],
 "all interleavings of 1-3 submitters and 1-6 workers, all batch sizes including empty ones, single and multiple submission, arbitrary expected durations, orders and strategies, spurious wake-ups",
 "The raw pool test submits one fixed batch per strategy from one thread and relies on the kernel's schedule.",
 [POOL],[("job queue, binary semaphore, wait condition, guided and static grouping",POOL)],
 [("threads working / queue length","what wait checks before it returns",POOL)],["job execution counters at the return of wait"])
prop("C04","Pool shutdown and library close leave no thread, memory or code in use",
 "Shutting the pool down, or closing a library, while no evaluation is in progress always returns; afterwards no worker thread of that library exists or touches memory, everything the pool allocated has been released, and the library's code can be unloaded. The pool or library can be used again afterwards and behaves as new.",
 ["schedules","crash_points","histories"],
 "all interleavings of shutdown/close with workers that are starting, idle, or still returning from their last job; any sequence of evaluations, shutdowns, thread-count changes and reloads",
 "Tests close a library once, long after the workers went idle, and never check for surviving threads or memory.",
 [POOL,LIBGEN,LIN],[("pool destruction and worker exit",POOL),("generated library close function",LIBGEN),("library destructor",LIN)],
 [("live worker threads","threads still executing library code",POOL)],["live threads, live allocations and accesses to released memory after close"])
prop("C05","Running out of memory, threads or clocks never yields wrong values or a hang",
 "When a memory allocation, a thread creation or a clock reading fails inside a multithreaded evaluation, the evaluation still terminates without crashing and either returns the correct values or reports the failure; once resources are available again later evaluations are correct.",
 ["fault_sequences","schedules"],
 "every allocation, thread creation and clock reading of the pool and generated code may fail, alone, in bursts or persistently, at every schedule",
 "No test makes an allocation, a thread creation or a clock call fail.",
 [POOL,GEN],[("error paths of pool creation, job submission and group extraction",POOL),("allocation of job arguments in generated code",GEN)],
 (),["values and termination of evaluations with injected failures"])
prop("C06","Changing pool settings between evaluations is always safe",
 "Scheduling strategy, thread count, enabled/disabled, verbosity, timing settings and guided work limit may be set to any supported value between any two evaluations (the strategy and the guided work limit also while other threads evaluate): the getters return what was set, no job is lost, duplicated or stuck, memory is neither leaked nor corrupted, and results stay correct.",
 ["histories","schedules","configurations"],
 "all sequences of setter calls, evaluations and shutdowns, all values including zero or very large thread counts and work limits; setters racing with evaluations for strategy and guided limit",
 "Tests set one configuration before the first evaluation and keep it.",
 [POOL,LIN,"model/model_library.hpp"],[("settings read by pool creation, submission and extraction",POOL),("typed setters and getters",LIN)],
 (),["getters, results and memory after reconfiguration"])
prop("C07","OpenMP evaluation gives the sequential result under every schedule",
 "When a library was generated for OpenMP, sparse Jacobian and Hessian evaluations return the same values as with parallelism disabled for every assignment of iterations to threads, every interleaving, number of threads and strategy, and for several model objects evaluated at once. The calling thread's own OpenMP scheduling settings are unchanged afterwards.",
 ["schedules","configurations"],
 "all iteration distributions and interleavings an OpenMP runtime may produce, including teams smaller than requested; all settings; clock failures",
 "The OpenMP test is disabled in the build and samples one runtime's schedule.",
 ["model/threadpool/openmp.c",GEN,"model/model_c_source_gen_jac.hpp","model/model_c_source_gen_hes.hpp"],
 [("parallel loop emitted with private output pointer",GEN),("runtime schedule selection",  "model/threadpool/openmp.c")],(),["values; schedule seen by the caller before and after"])
prop("C08","A library creation that reports success built exactly the requested sources",
 "Creating a dynamic or static library either raises an exception or produces a library linked from one object per requested source, each compiled from the complete, unmodified text of that source. No failure of the compiler, linker, archiver, disk, pipe or process creation, at any point, is reported as success.",
 ["fault_sequences","schedules","configurations"],
 "every system call and tool invocation of a creation may fail, be interrupted, be short, or (tools) crash, exit non-zero, stall or print arbitrarily much, at every interleaving of caller and tool; both compilers, direct and save-to-disk modes, custom sources",
 "Tests run real tools that always succeed on an idle machine.",
 [ABS,"model/compiler/gcc_compiler.hpp","model/compiler/clang_compiler.hpp",DLP,"model/dynamic_lib/ar_archiver.hpp",SYS],
 [("piping of sources to the compiler, exit status checks",SYS),("source/object file handling",ABS),("library assembly",DLP)],(),["text received by the simulated compiler, objects received by the linker/archiver, thrown exceptions"])
prop("C09","Running an external tool always terminates and never disturbs the caller",
 "Running an external tool returns or throws once the tool has ended, whatever the tool does: exiting at once, not reading its input, printing without limit or being killed. It returns normally only if the tool read its complete input and ended successfully, with the text the tool printed. The calling process is not killed by a signal, its exit handlers are not run and its buffered output is not written by a child, and no child process or descriptor is left.",
 ["fault_sequences","schedules"],
 "all tool behaviours (input read or not, output volume, exit code, signal, exec failure) x all interleavings x interrupted, short or failing system calls",
 "Tests run well-behaved tools only.",
 [SYS],[("fork/exec, pipes, waiting and error message collection",SYS)],(),["simulated process table, descriptor table, signals and stdio of the caller"])
prop("C10","A failed library creation cleans up and leaves every object reusable",
 "After the creation of a library or of bitcode, whether it succeeds or fails at any point, the temporary object files it created are gone, job timing is back to where it was, and repeating the operation, or doing any other operation of the same compiler and processor, behaves as on fresh objects.",
 ["fault_sequences","histories"],
 "all failure points of dynamic, static and bitcode creation followed by any further operation on the same objects",
 "Failure paths of compilers and processors are never executed by the tests.",
 [ABS,"model/compiler/clang_compiler.hpp",DLP,"job_timer.hpp"],
 [("cleanup of temporary files",ABS),("temporary compile flags","model/compiler/clang_compiler.hpp"),("job start/finish notifications","job_timer.hpp")],(),["files left behind, timer depth, commands issued by later operations"])
prop("C11","Libraries can be built at the same time from independent objects",
 "Two or more threads that create different libraries with their own compiler and processor objects and their own folders each obtain the same outcome as if they ran alone, and all of them finish.",
 ["schedules"],
 "all interleavings of 2-3 creating threads and their tool processes at system-call granularity, including descriptor inheritance",
 "Tests are single threaded.",
 [SYS,ABS],[("descriptor handling around fork and exec",SYS)],(),["outcome and termination of each creation"])
prop("C12","Saved source files are complete or the save reports an error",
 "Saving generated sources to disk either leaves every file with exactly the generated text or raises an exception, whatever open, write or close failures the disk produces and whatever was in the folder before.",
 ["fault_sequences"],
 "every open, write, close and mkdir may fail or write short (full disk, I/O error, bad permissions), all folder states",
 "Tests write to a healthy disk.",
 ["model/save_files_model_library_processor.hpp","model/model_library_c_source_gen_impl.hpp",ABS],
 [("stream writes of sources","model/save_files_model_library_processor.hpp"),("sources saved before compilation",ABS)],(),["files on the simulated disk and exceptions"])
prop("C13","A model outliving its library fails with an exception, never by crashing",
 "Models may be used, moved or destroyed in any order relative to their library, which may be moved or destroyed at any time: every evaluation of a model whose library is open returns correct values, and every evaluation of a model which was moved away or whose library was destroyed fails with an exception (or the CppAD error handler). Opening a library that is missing, incompatible or incomplete fails in the same way and leaves nothing loaded; nothing is used after its release or leaked.",
 ["histories","crash_points","fault_sequences"],
 "all sequences of open, get model, move library, move model, evaluate, register external functions, destroy, with load failures and missing symbols injected",
 "Tests destroy models before their library and never move either or fail a load.",
 [FUN,LIN,LINM,"model/functor_model_library.hpp"],
 [("readiness flag checked by every evaluation",FUN),("library keeps track of its models",LIN),("model deregistration",LINM)],
 [("open models of a library","models to invalidate on close",LIN)],["results/exceptions of evaluations; simulated loader handles and accesses to unloaded code"])
prop("C14","Failure of an external function during evaluation is always reported",
 "If an external or atomic function registered with a model reports failure or throws while the model is evaluated, that evaluation raises an exception instead of returning values, and later evaluations in which it succeeds are correct. This holds for every evaluation kind, in calling threads and in pool workers.",
 ["fault_sequences","schedules"],
 "every call of an external function may fail or throw, at any depth of nested models, in sequential and pool evaluations under any schedule",
 "External functions never fail in the tests.",
 [FUN,"model/atomic_external_function_wrapper.hpp","model/generic_model_external_function_wrapper.hpp","lang/c/language_c.hpp"],
 [("callbacks from generated code into external functions",FUN)],(),["exceptions and values of evaluations"])
prop("C15","Source generation is independent of earlier generations, complete or interrupted",
 "The result of generating code (sources of a model or library, output of a code handler in any language, reduced index model) depends only on the model and the current settings: earlier generations with the same objects, whether they completed or were interrupted by an exception (failed allocation, throwing name generator, job listener or atomic function, failing output stream), leave no trace. A generation which cannot complete always ends with an exception: it never returns incomplete or truncated sources, and afterwards no memory is leaked or used after its release.",
 ["crash_points","fault_sequences","histories"],
 "sequences of generations with the same or new objects, an exception at any allocation, callback or write of a generation, one or several times in sequence, over a corpus of models, languages and option sets",
 "Tests generate once per object and never interrupt a generation.",
 ["model/model_c_source_gen_impl.hpp","model/model_library_c_source_gen_impl.hpp","code_handler_impl.hpp","lang/c/language_c.hpp"],
 [("source caches filled during generation","model/model_c_source_gen_impl.hpp"),("node bookkeeping reset","code_handler_impl.hpp")],(),["sources returned after a failed generation"])
prop("C16","Source generation in one thread is unaffected by generation in another",
 "Threads that record and generate code with their own models and code handlers produce the same sources as when each runs alone, for every interleaving.",
 ["schedules"],
 "all interleavings of 2-3 generating threads at function-call and memory-access granularity",
 "Tests are single threaded.",
 ["operation_node_name_streambuf.hpp","lang/c/language_c.hpp","code_handler_impl.hpp","lang/lang_stream_stack.hpp"],
 [("thread-local stream state used while printing","operation_node_name_streambuf.hpp")],(),["generated source text"])
prop("C18","Generated sources and reduced models are reproducible",
 "Generating code for the same model with the same settings yields the same text (sources of a model or library, including models with loops; output of a code handler; reduced index model with its variable and equation information) wherever the objects involved are placed in memory and whatever the process did before.",
 ["histories","schedules"],
 "all placements of dynamically allocated objects (ascending, descending, random, recycled addresses) and all earlier work of the process",
 "A test runs in a fresh process with the addresses the allocator happens to return.",
 ["patterns/dependent_pattern_matcher.hpp","patterns/loop.hpp","model/model_c_source_gen_impl.hpp","code_handler_impl.hpp","dae_index_reduction/soares_secchi.hpp"],
 [("containers keyed by pointers","patterns/dependent_pattern_matcher.hpp"),("order of loops and temporaries","patterns/loop.hpp"),("identifiers of loops","patterns/loop_model.hpp")],(),["generated text"])
prop("C17","Job timing events stay nested and balanced for every clock and failure",
 "Every started job is reported finished exactly once, in nested order, to every registered listener, with a non-negative duration whatever adjustments the system's wall clock undergoes, and no job remains open after an operation ends, by success or by exception.",
 ["fault_sequences","histories"],
 "all operations that report jobs, with failures at any point and arbitrary clock jumps; listeners added and removed between operations",
 "Tests use the timer once, on success paths, without checking events.",
 ["job_timer.hpp",DLP,ABS,GEN],[("stack of running jobs and listener notifications","job_timer.hpp")],(),["events seen by a listener; job count"])

prop("N01","Generated code computes the recorded function and its derivatives",
 "For every model, the compiled function, its Jacobian, Hessian, directional derivatives and sparsity patterns equal those of the recorded operation tape.",
 ["programs","inputs"],"all operation tapes and evaluation points","Tests sample a fixed set of models and points.",
 ["lang/c/language_c.hpp","code_handler_impl.hpp","model/model_c_source_gen_impl.hpp"],[("operation printing, common sub-expressions, variable reuse","lang/c/language_c.hpp")])
prop("N02","Loop detection preserves the meaning of repeated equations",
 "When related equations are supplied, the model generated with loops computes the same values and derivatives as the model generated without.",
 ["programs","inputs"],"all repeated-pattern models","Tests sample a fixed set of patterns.",
 ["patterns/dependent_pattern_matcher.hpp"],[("pattern matching and index patterns","patterns/dependent_pattern_matcher.hpp")])
prop("N03","Index reduction returns an equivalent lower-index system",
 "Structural index reduction of a DAE returns a system with the same solutions whose structural index is at most one, or reports that it cannot.",
 ["programs"],"all DAE models","Tests sample textbook models.",
 ["dae_index_reduction/pantelides.hpp","dae_index_reduction/soares_secchi.hpp"],[("bipartite matching and differentiation","dae_index_reduction/pantelides.hpp")])
prop("N04","Evaluating an operation graph reproduces the recorded operations",
 "Replaying a graph through an evaluator with other variable types yields the values of the original operations.",
 ["programs","inputs"],"all operation graphs","Tests sample operations.",
 ["evaluator/evaluator.hpp"],[("graph replay","evaluator/evaluator.hpp")])
prop("N05","Solving a graph for a variable yields an equivalent expression",
 "When a variable is isolated symbolically, substituting the result satisfies the original equation.",
 ["programs","inputs"],"all supported expressions","Tests sample expressions.",
 ["solver.hpp"],[("graph rearrangement","solver.hpp")])
prop("N06","Other output languages describe the same computation as the C output",
 "LaTeX, MathML, HTML and DOT outputs describe the same operations as the graph they are produced from.",
 ["programs"],"all operation graphs","Tests compare a few outputs or none.",
 ["lang/latex/language_latex.hpp","lang/mathml/language_mathml.hpp","lang/dot/language_dot.hpp"],[("operation printers","lang/dot/language_dot.hpp")])
prop("N07","Index and array compression are lossless",
 "Index patterns, array identifiers and sparsity compressions chosen during generation reproduce every original index.",
 ["inputs"],"all index sequences","Tests sample sequences.",
 ["patterns/index/index_pattern.hpp","array_id_compresser.hpp"],[("index pattern detection","patterns/index/index_pattern.hpp")])

root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/"+f): print("missing", p["id"], f)
with open(root+"/properties.jsonl","w") as o:
    for p in P: o.write(json.dumps(p)+"\n")
print(len(P))
