#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": "none"}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Parallel loops run every item exactly once before the wait returns",
 "A parallel loop started on the thread pool runs its body exactly once for every index in its range, however many threads take part, never runs more bodies at once than the requested worker limit, and waiting for it returns only after every started body has finished and its effects are visible to the waiter. A loop with a limit of one worker runs its items in increasing order.",
 ["schedules", "inputs"],
 "all interleavings of 1 to 3 threads with bounded preemptions, over loops of up to 10 items, every worker limit, nested and concurrent loops",
 "tests run a handful of loops on free-running OS threads, so they see a few interleavings out of many thousands; the item distribution, stealing and completion counting are lock free.",
 ["slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h", "slinky/base/thread_pool.cc", "slinky/base/thread_pool.h"],
 [("sharded item distribution and completion counting", "slinky/base/thread_pool_impl.cc thread_pool_impl::task_impl"), ("waiting helps run work", "slinky/base/thread_pool_impl.cc thread_pool_impl::wait_for"), ("dequeue and nesting rules", "slinky/base/thread_pool_impl.cc thread_pool_impl::dequeue")],
 ["items run, number of concurrently running bodies, order, and state of the loop when wait returns"],
 [("shard.i / todo_ / max_workers_", "next item per shard, items not yet finished, free worker slots", "slinky/base/thread_pool_impl.h")])
prop("C02", "The thread pool never deadlocks or loses a wake-up",
 "Every wait on the thread pool returns once what it waits for has happened: a wait for a loop returns after the loop finished on whichever thread, and a wait for a condition returns after an atomic update made the condition true. This holds for nested loops, several concurrent waiters, workers that run until a condition holds, and destruction of the pool while workers are idle. Conditions are evaluated and atomic updates are applied mutually exclusively.",
 ["schedules"],
 "all interleavings of up to 3 threads with bounded preemptions, including nested waits and pool construction and destruction",
 "a lost wake-up needs a particular preemption between a check and a sleep; free-running tests practically never schedule it, and when they do the test just hangs.",
 ["slinky/base/thread_pool_impl.cc", "slinky/base/thread_pool_impl.h"],
 [("sleep and wake protocol", "slinky/base/thread_pool_impl.cc thread_pool_impl::wait_for, run_worker, enqueue, atomic_call"), ("shutdown", "slinky/base/thread_pool_impl.cc thread_pool_impl::~thread_pool_impl")],
 ["whether each wait returns in every fair schedule"])
prop("C03", "Shared handles destroy their object exactly once and never too early",
 "An object owned through reference-counted handles is destroyed exactly once, when its last handle goes away, and is never accessed after that, however copies, moves, assignments, self-assignments and releases are ordered and on whichever threads they happen. Everything done through a handle before it is released happens before the destruction.",
 ["schedules", "histories"],
 "all sequences of handle operations up to a bounded length on one thread, and all interleavings of 2 to 3 threads copying and releasing handles",
 "tests copy and release handles in straight lines on one thread; a premature or missed release needs a specific operation order or an interleaving of two releases.",
 ["slinky/base/ref_count.h", "slinky/runtime/expr.h", "slinky/runtime/stmt.h", "slinky/runtime/buffer.h", "slinky/base/thread_pool.h"],
 [("intrusive reference count", "slinky/base/ref_count.h ref_counted"), ("handle", "slinky/base/ref_count.h ref_count")],
 ["destructor calls and accesses of the owned object"])
prop("C04", "A pipeline computes the same output under every schedule",
 "For a valid pipeline, the contents of the output buffers depend only on the functions and the inputs: choosing different loops, loop step sizes, loop orders, compute and store locations, storage kinds, serial or parallel execution, or build options does not change any output element. In particular sliding windows, storage folding and loop fusion are invisible in the result.",
 ["programs", "configurations", "inputs"],
 "all pipelines from a set of small stage shapes crossed with all schedules (loops, steps, compute locations, storage kinds, worker limits, build options) and output extents and offsets up to small bounds",
 "tests check a few dozen hand-picked combinations of pipeline, schedule and size; wrong sliding, folding or cropping shows only for particular combinations of stencil, step and extent.",
 ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/builder/simplify.cc", "slinky/runtime/evaluate.cc"],
 [("lowering", "slinky/builder/pipeline.cc build_pipeline"), ("sliding window and folding", "slinky/builder/slide_and_fold_storage.cc"), ("bounds inference", "slinky/builder/pipeline.cc pipeline_builder")],
 ["contents of every output element"])
prop("C05", "Concurrently executed pipelines match serial ones in every interleaving",
 "A pipeline with parallel, pipelined or asynchronous loops produces exactly the serial result, terminates, and never has two unordered conflicting accesses to the same memory, in every interleaving of the threads that execute it.",
 ["schedules", "programs"],
 "all interleavings with bounded preemptions of 2 threads executing small pipelines with parallel loops, limited-worker pipelined loops with sliding windows, asynchronous stages and copies",
 "tests run each parallel pipeline a few times on free-running threads; a missing dependency between pipelined stages corrupts data only in rare interleavings.",
 ["slinky/runtime/evaluate.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/pipeline.cc", "slinky/base/thread_pool_impl.cc"],
 [("parallel loop evaluation", "slinky/runtime/evaluate.cc eval_loop_parallel"), ("semaphores between pipelined stages", "slinky/builder/slide_and_fold_storage.cc"), ("semaphore intrinsics", "slinky/runtime/evaluate.cc")],
 ["output contents, termination, and happens-before of every memory access"])
prop("C06", "Pipelines touch only owned memory and read only produced values",
 "While a pipeline whose run is accepted executes, every buffer handed to a stage refers only to memory inside the caller's buffers or a live allocation for all the elements the stage is required to access, and every intermediate element a stage reads was written before by the stage that produces it and not overwritten since by another value. Every intermediate allocation is released exactly once.",
 ["programs", "configurations", "inputs"],
 "all small pipelines and schedules of C04, all options and storage kinds, with every element access by every stage monitored",
 "tests look only at the final output of a few schedules; a read of a stale or out-of-window element usually still yields plausible data or stays inside a padded allocation.",
 ["slinky/builder/pipeline.cc", "slinky/builder/slide_and_fold_storage.cc", "slinky/builder/optimizations.cc", "slinky/runtime/evaluate.cc", "slinky/runtime/buffer.h"],
 [("bounds inference and cropping", "slinky/builder/pipeline.cc pipeline_builder"), ("storage folding", "slinky/builder/slide_and_fold_storage.cc"), ("early free", "slinky/builder/optimizations.cc insert_early_free")],
 ["every element access of every stage callback, allocation and free calls"])
prop("C07", "Copy elision and in-place computation never change results or inputs",
 "Aliasing a stage's output to its input, computing in place, or replacing copies, pads, slices, transposes and concatenations by views never changes the value of any output element compared with performing the copies, and never modifies a caller's input buffer.",
 ["programs", "configurations", "inputs"],
 "all chains of copy-like stages (offset, crop, pad, transpose, broadcast, slice, reshape by split or fuse, concatenate, stack) and in-place capable stages, with one or two consumers, with and without the aliasing option, over small shapes",
 "the aliasing decision depends on who else reads the aliased buffer and when; tests cover single-purpose pipelines and cannot cover the product of copy kinds, consumers and schedules.",
 ["slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc", "slinky/runtime/buffer.cc"],
 [("alias analysis", "slinky/builder/optimizations.cc alias_copies, alias_in_place"), ("copy implementation", "slinky/builder/optimizations.cc implement_copies")],
 ["output contents and input contents after the run"])
prop("C08", "Simplifying an expression never changes its value",
 "For every expression and every assignment of values to its variables and buffers that is consistent with the bounds and alignment assumed for them and for which the original evaluates without undefined arithmetic, the simplified expression evaluates to the same value (except that when constants or values are so close to the limits of 64 bits that only the simplified form overflows, nothing is promised about it), and evaluating a constant-folded operator agrees with evaluating the operator at run time. Simplification terminates.",
 ["inputs", "programs"],
 "all expressions over every operator up to a bounded size with small constants, and all variable values in a small range, plus every rewrite rule's own operand shapes",
 "the existing fuzzer samples random expressions; a wrong rule with a rare precondition (a negative constant, a particular divisibility) is almost never hit.",
 ["slinky/builder/simplify.cc", "slinky/builder/simplify_exprs.cc", "slinky/builder/simplify_rules.h", "slinky/builder/rewrite.h", "slinky/runtime/expr_stmt.cc"],
 [("rewrite rules", "slinky/builder/simplify_rules.h"), ("rule matching and constant folding", "slinky/builder/rewrite.h"), ("simplifier", "slinky/builder/simplify.cc")],
 ["value of the expression before and after"])
prop("C09", "Derived bounds, alignments and proofs are always sound",
 "Whenever the library derives an interval, a constant lower or upper bound, or an alignment for an expression from bounds of its variables, every value the expression can take under those variable bounds lies within it (computed without overflow); whenever it claims that a condition is provably true or provably false, the condition is indeed true or false for every such assignment.",
 ["inputs", "programs"],
 "all expressions up to a bounded size and all variable intervals with small endpoints, compared against every concrete assignment",
 "bounds analysis must be sound for all values in the intervals; tests compare a few symbolic results with expected formulas and sample a few random points.",
 ["slinky/builder/simplify.cc", "slinky/builder/simplify_bounds.cc", "slinky/builder/simplify.h", "slinky/base/modulus_remainder.h", "slinky/runtime/expr_stmt.cc"],
 [("bounds_of and proofs", "slinky/builder/simplify.cc bounds_of, prove_true, prove_false"), ("constant bounds", "slinky/builder/simplify_bounds.cc"), ("alignment", "slinky/base/modulus_remainder.h")],
 ["interval, alignment and proof results versus enumerated values"])
prop("C10", "Statement transformations preserve what a program does",
 "The clean-up transformations applied when a pipeline is built (removing name shadowing, renaming symbols compactly, sharing equal nodes, fusing sibling statements, early frees, removing buffers that are not used) do not change the sequence of effects a statement program performs when run: which callbacks run in which order with which visible variable values and buffer contents and shapes, and whether it succeeds. Simplifying a program preserves whether it succeeds and what it leaves in the buffers it writes; for programs without loops it preserves the sequence of effects too. Simplification may assume that each element a callback computes depends only on what the callback declares it reads, so it may merge the iterations of a loop or compute more than was asked for.",
 ["programs", "inputs"],
 "all well-formed statement programs up to a bounded number of nodes over loops, lets, blocks, crops, slices, transposes, clones, allocations, checks and calls, crossed with small values",
 "tests compare a few hand-written programs structurally; a wrong scope merge or an over-eager elimination needs a particular nesting of declarations.",
 ["slinky/builder/simplify.cc", "slinky/builder/optimizations.cc", "slinky/builder/node_mutator.cc", "slinky/builder/substitute.cc"],
 [("statement simplifier", "slinky/builder/simplify.cc"), ("passes", "slinky/builder/optimizations.cc deshadow, optimize_symbols, canonicalize_nodes, fuse_siblings, insert_early_free")],
 ["trace of callback invocations with visible values"])
prop("C11", "Substitution and free-variable analysis respect scoping",
 "Substituting a value for a variable or for an expression changes exactly the free occurrences: evaluating the substituted program equals evaluating the original with the variable bound to that value, with no capture by inner declarations. The reported set of variables a program depends on contains every variable whose value or buffer can influence its evaluation, and the kinds of dependence reported cover every actual use.",
 ["programs", "inputs"],
 "all expressions and statement programs up to a bounded size with deliberately colliding variable names, all substitutions among a small set of names and values",
 "capture and shadowing errors require a specific collision between substituted names and inner declarations; tests exercise a few.",
 ["slinky/builder/substitute.cc", "slinky/runtime/depends_on.cc", "slinky/builder/node_mutator.cc"],
 [("substitution", "slinky/builder/substitute.cc"), ("dependence analysis", "slinky/runtime/depends_on.cc")],
 ["effects of the substituted program versus the original in the substituted environment"])
prop("C12", "Copying and padding buffers write exactly the right elements",
 "Copying one buffer to another writes every destination element that lies in the bounds of both with the source element at the same index, and changes no other destination element unless a padding source is given, in which case every remaining destination element gets the padding source's value at that index; filling sets every element of the buffer and nothing outside it. The result does not depend on strides, dimension order, broadcasting, storage folding or element size, and the source is never changed.",
 ["inputs"],
 "all pairs of small buffers of rank 0 to 3: bounds overlapping in every way, stride orders, padding between rows, broadcast and folded dimensions, and element sizes",
 "the implementation specialises on rank, stride pattern, contiguity and overlap; tests cover a random sample of shapes.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
 [("copy and fill", "slinky/runtime/buffer.cc copy, pad, fill"), ("dimension optimisation", "slinky/runtime/buffer.h optimize_dims")],
 ["every byte of destination, source and guard memory"])
prop("C13", "Iterating over buffers visits every element exactly once",
 "Iterating over the elements or over the contiguous slices of one or several buffers visits every index in the bounds of the first buffer exactly once, and at each index passes for each other buffer the address of the element with the same index, or null where that buffer does not contain the index. Contiguous slices partition the elements of the first buffer.",
 ["inputs"],
 "all tuples of one to three small buffers of rank 0 to 3 with every overlap pattern, stride pattern, broadcast and folded dimensions, extents including empty",
 "fusing dimensions and skipping broadcast ones is decided by strides of all buffers together; tests sample shapes.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h"],
 [("element and slice iteration", "slinky/runtime/buffer.h for_each_element, for_each_contiguous_slice"), ("loop nest construction", "slinky/runtime/buffer.cc for_each_impl")],
 ["visited indices and addresses"])
prop("C14", "Buffer layouts give every element its own place inside the allocation",
 "Initialising the strides of a buffer and allocating it gives every distinct index (modulo folding) a distinct, non-overlapping element that lies inside the allocated size and honours the requested base alignment, for any combination of unknown strides and already fixed strides that nest without overlapping; chosen strides other than the element size are multiples of the requested stride alignment. The reported size covers every element and is zero for an empty buffer, and a layout that cannot be represented is reported as such.",
 ["inputs"],
 "all shapes of rank 0 to 3 with small extents, offsets, fold factors, element sizes, alignments, and every subset of preset strides; extreme extents for overflow",
 "unknown strides are placed into gaps between known ones; tests cover a handful of layouts.",
 ["slinky/runtime/buffer.cc", "slinky/runtime/buffer.h", "slinky/base/allocator.h"],
 [("stride initialisation", "slinky/runtime/buffer.cc raw_buffer::init_strides"), ("size", "slinky/runtime/buffer.cc raw_buffer::size_bytes"), ("allocation", "slinky/runtime/buffer.cc raw_buffer::allocate")],
 ["address of each element and the reported size"])
prop("C15", "Views of a buffer address the same elements as the original",
 "Cropping, slicing, translating, transposing, sorting, fusing or otherwise optimising the dimensions of a buffer yields a view in which every remaining index refers to the same element as the corresponding index of the original, and whose bounds contain exactly the indices the operation specifies. An operation applied to several buffers together keeps them consistent with each other.",
 ["inputs", "histories"],
 "all sequences of up to 3 view operations on all small buffers of rank 0 to 3, including empty, broadcast, folded and negatively offset ones",
 "view operations adjust the base address and dimension metadata together; tests check single operations on a few shapes.",
 ["slinky/runtime/buffer.h", "slinky/runtime/buffer.cc", "slinky/runtime/evaluate.cc"],
 [("view operations", "slinky/runtime/buffer.h raw_buffer::crop, slice, translate, transpose, fuse"), ("optimize_dims", "slinky/runtime/buffer.h")],
 ["element addresses through the view"])
prop("C16", "Integer arithmetic is Euclidean and its abstractions are exact",
 "Division rounds so that the remainder is always non-negative and less than the magnitude of the divisor, division and remainder by zero give zero, and rounding, alignment, greatest common divisor, saturating and overflow-checking helpers agree with their mathematical definitions over the whole 64-bit range. The congruence abstraction of integers contains every result of an operation on members of its operands.",
 ["inputs"],
 "all operand pairs in a dense small range, all pairs of boundary values of the 64-bit range, and all pairs of small congruence classes with their members",
 "each operation must be right for all sign combinations and at the ends of the range; tests sample random operands.",
 ["slinky/base/arithmetic.h", "slinky/base/arithmetic.cc", "slinky/base/modulus_remainder.h"],
 [("Euclidean arithmetic", "slinky/base/arithmetic.h"), ("congruences", "slinky/base/modulus_remainder.h")],
 ["results of the arithmetic functions"])
prop("C17", "A failing stage fails the pipeline and leaks or corrupts nothing",
 "Whenever any stage callback, runtime check or allocation fails at any point of a run, no later dependent stage runs on the missing data, the run returns a failure to the caller, the matching failure handler is told once for each failure, every intermediate allocation is freed exactly once, the caller's buffers keep their shape, and the pipeline can be run again successfully. A parallel loop with a failing iteration terminates and reports the failure.",
 ["fault_sequences", "programs"],
 "every single fault point (each dynamic callback, check and allocation) and every pair of fault points of small pipelines under serial, parallel, pipelined and asynchronous schedules",
 "tests inject one failure in a few places; error paths through scopes that restore state or free memory are otherwise never executed.",
 ["slinky/runtime/evaluate.cc", "slinky/runtime/pipeline.cc", "slinky/builder/pipeline.cc"],
 [("failure propagation", "slinky/runtime/evaluate.cc"), ("failure handlers", "slinky/runtime/evaluate.h eval_config")],
 ["return code, handler calls, allocation and free calls, buffer metadata after the run"])
prop("C18", "A run is rejected exactly when its buffers cannot serve it",
 "Running a pipeline with checks enabled fails, without running any stage, whenever an input or output buffer is null, has the wrong rank or element size, or an input does not contain every element needed for the requested output, or violates a declared shape constraint; and it succeeds whenever all of these are satisfied.",
 ["inputs", "programs"],
 "all small pipelines run with all combinations of input and output bounds, ranks, element sizes and null buffers in a small grid",
 "the generated checks must be exact at every boundary; tests run a few too-small inputs.",
 ["slinky/builder/pipeline.cc", "slinky/runtime/evaluate.cc", "slinky/builder/simplify.cc"],
 [("generated checks", "slinky/builder/pipeline.cc add_input_checks"), ("check evaluation", "slinky/runtime/evaluate.cc")],
 ["return code and which callbacks ran"])
prop("C19", "The evaluator implements the documented meaning of every node",
 "Evaluating an expression or statement gives the value or effects its definition prescribes: arithmetic, comparison, selection, buffer metadata queries, lets, blocks, serial loops over the inclusive range with the given step, crops, slices, transposes, clones and constructed or allocated buffers with the declared shape. Every declaration is visible exactly in its body, and the caller's variables and buffers are as before when evaluation returns, including after a failure.",
 ["programs", "inputs"],
 "all expressions and statement programs up to a bounded size over small values, with shadowed names, compared with an independent reference interpreter",
 "the evaluator has special cases (in-place mutation of shadowed buffers, stack allocation, combined conditions, specialised loops) that depend on the nesting of declarations.",
 ["slinky/runtime/evaluate.cc", "slinky/runtime/evaluate.h", "slinky/runtime/expr_stmt.cc"],
 [("evaluator", "slinky/runtime/evaluate.cc evaluator")],
 ["value of expressions; trace of callback invocations with visible variables and buffers"])
prop("C20", "Recorded traces are complete, balanced and readable in any schedule",
 "When tracing is enabled, every begin event recorded by a thread is matched by an end event of the same thread and name, properly nested, no event is lost, duplicated or interleaved into another event, and the resulting file is valid JSON, for every interleaving of the traced threads and for failing as well as successful runs. Tracing does not change the result of a pipeline.",
 ["schedules", "programs"],
 "all interleavings with bounded preemptions of 2 to 3 threads emitting events, and all traced small pipelines",
 "tests write one trace file from a few runs and do not parse it; interleaved writes need preemption inside the recorder.",
 ["slinky/base/chrome_trace.cc", "slinky/base/chrome_trace.h", "slinky/builder/optimizations.cc", "slinky/builder/pipeline.cc"],
 [("trace recorder", "slinky/base/chrome_trace.cc"), ("trace injection", "slinky/builder/optimizations.cc, slinky/builder/pipeline.cc inject_traces")],
 ["contents of the trace stream"])
prop("C21", "Structural comparison of programs is a consistent total order",
 "Comparing expressions or statements structurally is a strict total order: antisymmetric, transitive, and equal exactly when the two have the same structure, independent of whether nodes are shared; two programs that compare equal evaluate identically.",
 ["programs"],
 "all pairs and triples of expressions and statements up to a bounded size",
 "maps and canonicalisation rely on the order for every pair of programs; tests compare a few pairs.",
 ["slinky/builder/substitute.cc", "slinky/builder/substitute.h", "slinky/runtime/expr.h"],
 [("structural comparison", "slinky/builder/substitute.cc compare, match")],
 ["result of compare and match on all pairs"])
prop("C22", "Splitting a block into tasks keeps statements that share a buffer in order",
 "parallelize_tasks, given any block of statements, gives a program that does each of the statements exactly once and in which, whatever order its asynchronous tasks run in, two statements of which one writes (or checks) a buffer the other uses - directly or via crops, slices, clones, transposes or buffers made of its memory - are finished in their original order.",
 ["programs", "schedules"],
 "all blocks of up to five statements over three buffers, with nested declarations, loops, blocks and tasks",
 "a lost dependency only matters for some order of the tasks, and for some combination of three or more statements; tests compare the result for a few blocks.",
 ["slinky/builder/optimizations.cc", "slinky/builder/optimizations.h"],
 [("task splitting", "slinky/builder/optimizations.cc task_parallelizer")],
 ["happens-before relation of the result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
