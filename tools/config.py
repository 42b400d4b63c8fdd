"""What each check builds and runs."""
COMMON = ["-std=c++17", "-g1", "-fno-rtti", "-fno-exceptions", "-fstrict-aliasing", "-w"]
FLAVORS = {
    # Controlled scheduler: thread sanitizer instrumentation with our own runtime.
    "mc": {"cc": "clang++", "ld": "clang++",
           "flags": COMMON + ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-femulated-tls"],
           "plain_sources": ["mc/engine.cc"],
           "link": ["-static-libstdc++", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc", "-lpthread"]},
    "asan": {"cc": "clang++", "ld": "clang++", "flags": COMMON + ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
             "link": ["-fsanitize=address", "-lpthread"]},
    "plain": {"cc": "g++", "ld": "g++", "flags": COMMON + ["-O1"], "link": ["-lpthread"]},
}
LIBS = {
    "base": ["slinky/base/arithmetic.cc"],
    "pool": ["slinky/base/thread_pool.cc", "slinky/base/thread_pool_impl.cc"],
    "trace": ["slinky/base/chrome_trace.cc"],
    "runtime": ["slinky/runtime/%s.cc" % f for f in ("buffer", "depends_on", "evaluate", "expr_stmt", "pipeline", "print")],
    "runtime_buffer": ["slinky/runtime/buffer.cc"],
    "builder": ["slinky/builder/%s.cc" % f for f in ("node_mutator", "optimizations", "pipeline", "simplify", "simplify_bounds",
                                                      "simplify_exprs", "slide_and_fold_storage", "substitute")],
}
ALL = ["base", "pool", "trace", "runtime", "builder"]
def enum(name, src, flavor="asan", libs=ALL, budget=(60, 600), defines=[], env={}):
    return {"name": name, "kind": "enum", "flavor": flavor, "libs": libs, "sources": ["lib/enum.cc"] + (src if isinstance(src, list) else [src]),
            "budget": budget, "defines": defines, "env": env}
def sched(name, src, libs, budget=(90, 800), defines=[]):
    return {"name": name, "kind": "sched", "flavor": "mc", "libs": libs, "sources": src if isinstance(src, list) else [src], "budget": budget, "defines": defines}

SC = ["memory is sequentially consistent at scheduling points; weaker orders are judged through the vector clocks of the race detector",
      "the number of threads, items and preemptions is bounded as reported"]
PIPES = ["graphs of up to four stages with up to two dimensions per intermediate, from the list in harness/pipes.cc; accesses from a fixed list of windows, strides, flips and constants; loop steps up to 3",
         "loops run in the order of a pool without threads of its own (concurrent execution is C05)",
         "stages are built through the public C++ API; callbacks are generated and read exactly the elements they declare"]
CHECKS = {
    "C01": {"level": "model_checking", "technique": "stateless model checking of the real thread pool, preemption bounded",
            "note": "No interleaving of the listed harnesses within the preemption bound violates the property.",
            "assumptions": SC,
            "parts": [sched("pool_c01", "mc/pool_scenarios.cc", ["pool"], defines=["-DPROP_C01"])]},
    "C02": {"level": "model_checking", "technique": "stateless model checking of the real thread pool with deadlock, lost wake-up and livelock detection",
            "note": "No interleaving of the listed harnesses within the preemption bound deadlocks, livelocks or evaluates conditions concurrently.",
            "assumptions": SC,
            "parts": [sched("pool_c02", "mc/pool_scenarios.cc", ["pool"])]},
    "C16": {"level": "exploration", "technique": "exhaustive enumeration of operand pairs and congruences against wide-integer references",
            "note": "", "assumptions": ["64-bit operands are enumerated over a boundary set (all pairs of about 400 values) and a grid around zero"],
            "parts": [enum("arith", "harness/arith.cc", libs=["base"], flavor="plain")]},
    "C13": {"level": "exploration", "technique": "exhaustive enumeration of buffer shapes, comparing visited addresses with the definition of a dimension",
            "note": "", "assumptions": ["ranks up to 4, up to 5 buffers, dimensions from a fixed list of bounds, strides and folds"],
            "parts": [enum("for_each", "harness/for_each.cc", libs=["base", "runtime_buffer"], flavor="plain")]},
    "C12": {"level": "exploration", "technique": "exhaustive enumeration of source, destination and padding shapes, comparing every byte with the definition",
            "note": "", "assumptions": ["ranks up to 3, dimensions from a fixed list of bounds, strides and folds; without padding the destination lies inside the source, and padding contains the destination, as documented"],
            "parts": [enum("copy", "harness/copy.cc", libs=["base", "runtime_buffer"], flavor="plain")]},
    "C14": {"level": "exploration", "technique": "exhaustive enumeration of buffer shapes with preset and unknown strides against brute-force layout checks",
            "note": "", "assumptions": ["ranks up to 5, extents up to 5 (and boundary values for overflow), preset strides nest"],
            "parts": [enum("layout", "harness/layout.cc", libs=["base", "runtime_buffer"], flavor="asan")]},
    "C15": {"level": "exploration", "technique": "exhaustive enumeration of buffer shapes and sequences of view operations against an index map",
            "note": "", "assumptions": ["ranks up to 4, up to 3 buffers at once, up to 3 operations in sequence, dimensions from fixed lists"],
            "parts": [enum("views", "harness/views.cc", libs=["base", "runtime_buffer"], flavor="plain")]},
    "C08": {"level": "exploration", "technique": "exhaustive enumeration of expressions, assumptions and assignments against a reference semantics",
            "note": "", "assumptions": ["expressions are instances of the shapes in harness/shapes.txt and all expressions of up to three operators over a few leaves; constants and variable values come from grids around zero and around the limits of 64 bits"],
            "parts": [enum("exprs08", "harness/exprs.cc", flavor="plain")]},
    "C09": {"level": "exploration", "technique": "exhaustive enumeration of expressions, assumptions and assignments against a reference semantics",
            "note": "", "assumptions": ["as C08"],
            "parts": [enum("exprs09", "harness/exprs.cc", flavor="plain", defines=["-DPROP_C09"])]},
    "C21": {"level": "exploration", "technique": "exhaustive enumeration of pairs of nodes against a complete description; transitivity over all triples by comparing positions",
            "note": "", "assumptions": ["nodes of all kinds with every field taking several values, two to three levels deep; callables and constants of more than 128 bytes are identified by the object that holds them"],
            "parts": [enum("order", "harness/order.cc", flavor="plain")]},
    "C22": {"level": "exploration", "technique": "exhaustive enumeration of blocks of statements; all execution orders of the resulting tasks judged by their happens-before relation",
            "note": "", "assumptions": ["blocks of up to five statements (six calls) over three buffers, from a list of calls, copies, checks, views, allocations, loops and asynchronous tasks"],
            "parts": [enum("tasks", "harness/tasks.cc", flavor="plain")]},
    "C04": {"level": "exploration", "technique": "exhaustive enumeration of schedules, build options and output shapes of a list of graphs, compared with the definition of each graph",
            "note": "", "assumptions": PIPES + ["not covered: intermediate buffers of one dimension read at a combination of two loop variables with further loops on the intermediate stages"],
            "parts": [enum("pipes04", "harness/pipes.cc", flavor="plain", budget=(250, 800))]},
    "C06": {"level": "exploration", "technique": "exhaustive enumeration of schedules, build options and output shapes of a list of graphs, watching every access of every stage",
            "note": "", "assumptions": PIPES,
            "parts": [enum("pipes06", "harness/pipes.cc", flavor="plain", budget=(250, 800), defines=["-DPROP_C06"])]},
    "C17": {"level": "fault_enumeration", "technique": "exhaustive injection of a failure at every call and every allocation of every run of a list of graphs and schedules",
            "note": "", "assumptions": PIPES + ["each run has one failing allocation, one failing call, or failing calls from some call on"],
            "parts": [enum("pipes17", "harness/pipes.cc", flavor="plain", budget=(130, 800), defines=["-DPROP_C17"])]},
    "C18": {"level": "exploration", "technique": "exhaustive enumeration of changes of the arguments of pipelines with declared constraints, compared with what the graph requires",
            "note": "", "assumptions": PIPES + ["non-empty outputs; up to two changes at a time; bounds of inputs change by up to 3 on each side"],
            "parts": [enum("pipes18", "harness/pipes.cc", flavor="plain", budget=(130, 800), defines=["-DPROP_C18"])]},
    "C03": {"level": "model_checking", "technique": "stateless model checking of the real handles, preemption bounded; exhaustive enumeration of sequences of operations",
            "note": "No interleaving of the listed harnesses within the preemption bound, and no sequence of operations up to the given length, violates the property.",
            "assumptions": SC,
            "parts": [sched("refs", "mc/ref_scenarios.cc", ["base", "pool", "trace", "runtime"]),
                      enum("refs_seq", "harness/refs.cc", libs=["base"], flavor="asan")]},
    "C05": {"level": "model_checking", "technique": "stateless model checking of pipelines running on the real thread pool, preemption bounded",
            "note": "No interleaving of the listed pipelines within the preemption bound violates the property.",
            "assumptions": SC,
            "parts": [sched("pipes05", "mc/pipe_scenarios.cc", ["base", "pool", "trace", "runtime", "builder"])]},
    "C10": {"level": "exploration", "technique": "exhaustive enumeration of programs, before and after each transformation, with a reference interpreter of our own",
            "note": "", "assumptions": ["programs whose allocations shadow another name in scope are not transformed (deshadow documents that it does not rename allocations); checks that fail whatever the inputs are not simplified",
                                         "what cropping a broadcast so that it excludes 0 leaves, and the bounds of dimensions beyond the rank after cropping them, are ambiguous; programs observing them are skipped",
                                         "loops: non-empty, each element keeps its value once written unless the buffer is folded, no uninitialised or out of bounds reads; judged by the final contents of the elements the original wrote",
                                         "slices of a broadcast dimension that is not the last one are a known finding"],
            "parts": [enum("xform10", "harness/xform.cc", flavor="plain", budget=(100, 800))]},
    "C11": {"level": "exploration", "technique": "exhaustive enumeration of programs and substitutions into them, compared with a reference interpreter of our own",
            "note": "", "assumptions": ["where a declaration captures a name the replacement uses, occurrences of the target may be left in place, and are then evaluated with the target bound to the value; replacements that refer to the target and are captured, and buffers captured by substitute_buffer, are excluded",
                                         "substitution for an expression (rather than a variable) is only checked on expressions without lets"],
            "parts": [enum("subst11", "harness/subst.cc", flavor="plain", budget=(100, 800))]},
    "C19": {"level": "exploration", "technique": "exhaustive enumeration of nests of declarations and of expressions, compared with a reference interpreter of our own",
            "note": "", "assumptions": ["up to three nested declarations (four in the thorough tier) or two in a row, from a list of about 350 with colliding names, and every single failing call; loops and tasks run in a pool without threads of its own (concurrent execution is C05)",
                                         "strides of allocations are computed with init_strides (C14); steps of loops are positive; the rank of a buffer is only known up to trailing broadcasts"],
            "parts": [enum("stmts19", "harness/stmts.cc", flavor="plain", budget=(100, 800))]},
    "C20": {"level": "model_checking", "technique": "stateless model checking of the trace recorder and of traced pipelines, preemption bounded; exhaustive enumeration of orders of events, names, and of faults in traced pipelines",
            "note": "No interleaving of the listed harnesses within the preemption bound, no order of events, no name and no fault in the enumerated spaces violates the property.",
            "assumptions": SC + ["names are valid UTF-8"],
            "parts": [sched("traces20", "mc/trace_scenarios.cc", ["base", "trace"], budget=(20, 300)),
                      sched("pipes20mc", "mc/pipe_scenarios.cc", ["base", "pool", "trace", "runtime", "builder"], budget=(35, 500), defines=["-DPROP_C20"]),
                      enum("events20", "harness/traces.cc", libs=["trace"], flavor="asan"),
                      enum("pipes20", "harness/pipes.cc", flavor="plain", defines=["-DPROP_C20"])]},
    "C07": {"level": "exploration", "technique": "exhaustive enumeration of copies, their schedules, build options and output shapes, compared with the definition of each graph",
            "note": "", "assumptions": PIPES + [
                "buffers produced or consumed by padded copies, concatenations, stacks and in place computations are not stored inside loops (known findings), except for the listed cases",
                "in place computations are between buffers of the same element size; user defined strides that do not allow folding are not combined with folding",
                "the inputs of padded copies are bigger than required (see the known finding min-max-fact)"],
            "parts": [enum("pipes07", "harness/pipes.cc", flavor="plain", budget=(250, 800), defines=["-DPROP_C07"])]},
}
