#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Execution is memory safe and free of undefined behaviour",
 "No program accepted by the compiler, and no sequence of API calls that follows the documented contract, makes the library read or write memory it does not own, use an object that garbage collection has already reclaimed, or execute undefined behaviour. This holds for every heap page size and for garbage collections happening at any allocation.",
 ["programs", "schedules", "configurations"],
 "every program and host call sequence, every moment of garbage collection, every page size",
 "The tests run without sanitizers and practically never trigger a collection (initial threshold 1 MiB), so unrooted temporaries, bad marking, off-by-one offsets and UB casts all pass.",
 ["src/vm/heap", "src/vm/objects", "src/vm/interpreter.cpp", "src/vm/handles", "src/vm/root_set.ipp", "src/vm/builtins/std.cpp", "src/api"],
 [("scopes and handles root temporaries", "src/vm/handles/scope.hpp"), ("tracing layouts", "src/vm/object_support/layout.hpp"), ("mark and sweep", "src/vm/heap/collector.cpp")],
 [("free list / cells", "which memory belongs to live objects", "src/vm/heap/allocator.hpp")],
 ["compiler sanitizer reports", "poisoned free heap cells"], "force a collection at an allocation; report allocated and freed cell ranges")

prop("C02", "Garbage collection is invisible to programs",
 "The values a program computes, what it prints, the panics it raises and the order of its events never depend on when or how often garbage is collected, on the page size, or on how much garbage existed before. Everything reachable from a running or suspended coroutine, a module, an open handle or a pending callback keeps its identity and contents.",
 ["programs", "schedules", "configurations"],
 "every program, every subset of allocations at which a collection is forced, every page size",
 "Unit tests never interleave collections with script execution; a lost mark only shows when a collection hits one particular window.",
 ["src/vm/heap/collector.cpp", "src/vm/root_set.ipp", "src/vm/root_set.hpp", "src/vm/objects", "src/vm/handles/external.cpp", "src/vm/handles/scope.cpp"],
 [("root set tracing", "src/vm/root_set.ipp"), ("per-type trace functions", "src/vm/object_support/layout.hpp")],
 [("mark bits", "live cells", "src/vm/heap/allocator.cpp")],
 ["stdout and result of the same program under different collection schedules"], "force a collection at an allocation")

prop("C03", "Unreachable memory is reclaimed and can be reused",
 "A program whose reachable data stays bounded can run for any number of steps inside a fixed heap limit that leaves moderate room for fragmentation: memory of unreachable objects (small, large, cyclic, or referenced only by finished coroutines or released handles) becomes available again, no matter in which sizes and order objects were allocated.",
 ["programs", "histories", "configurations"],
 "every allocation history with bounded live data, every page size and heap limit",
 "Tests allocate little and never run long enough to exceed a heap; leaks, lost free blocks and stale roots are invisible to them.",
 ["src/vm/heap/heap.cpp", "src/vm/heap/allocator.cpp", "src/vm/heap/collector.cpp", "src/vm/root_set.hpp", "src/vm/handles/external.cpp"],
 [("sweeping into free lists", "src/vm/heap/heap.cpp"), ("large object release", "src/vm/heap/heap.cpp")],
 [("allocated bytes", "what the heap believes it holds", "src/vm/heap/heap.hpp")],
 ["TIRO_ERROR_ALLOC / success of long churn programs under a tight heap limit", "cells returned by each collection"], "collection-finished notification")

prop("C04", "Finalizers and callback cleanups run exactly once",
 "The finalizer of every native object runs exactly once, with the object's own data and size, never while the object is still reachable, and at the latest when the virtual machine is freed. A coroutine completion callback runs exactly once when its coroutine completes and never otherwise, and its cleanup function runs exactly once in all cases, including failed registration, replacement by a later registration for the same coroutine, and shutdown.",
 ["histories", "schedules", "fault_sequences"],
 "every interleaving of allocation, collection, coroutine completion, registration failure and shutdown",
 "Tests cover one object and one callback on the happy path; double or missing finalization depends on sweep layout, GC timing and shutdown order.",
 ["src/vm/objects/native.cpp", "src/vm/heap/heap.cpp", "src/vm/context.cpp", "src/api/objects.cpp", "src/vm/heap/allocator.cpp"],
 [("finalizer on sweep and teardown", "src/vm/heap/heap.cpp"), ("callback table", "src/vm/context.cpp")],
 [("coroutine callbacks", "pending callbacks by coroutine", "src/vm/context.hpp")],
 ["host-side ledger of finalizer/callback/cleanup events keyed by unique ids"], "force a collection")

prop("C05", "The heap limit is respected and exhaustion is survivable",
 "A virtual machine never holds more heap memory than its configured limit. A request that does not fit fails with the allocation error and nothing else: values that existed before are unchanged, and once memory is released the virtual machine and all its other operations keep working.",
 ["fault_sequences", "configurations", "histories"],
 "every point at which the limit is hit, every heap limit and page size, every continuation afterwards",
 "No test ever exhausts the heap; the failure paths of allocation (and their accounting) are never executed.",
 ["src/vm/heap/heap.cpp", "src/vm/heap/memory.cpp", "src/vm/heap/allocator.cpp", "src/api/vm.cpp", "src/vm/interpreter.cpp"],
 [("limit check in raw allocation", "src/vm/heap/heap.cpp"), ("error translation", "src/api/internal.hpp")],
 [("total bytes", "bytes obtained from the system", "src/vm/heap/heap.hpp")],
 ["error codes, process memory obtained through the page allocator, later behaviour of the same vm"], "report of heap memory obtained and released")

prop("C06", "Programs behave as the language defines",
 "Every accepted program produces exactly the values, output and panics prescribed by the language rules: left-to-right evaluation exactly once, short-circuit and optional chaining, lexical scoping with closures capturing variables by reference, loops with break and continue, blocks and conditionals as expressions, destructuring and compound assignment, string interpolation, and function, method and variadic native calls.",
 ["programs"], "all well-formed programs",
 "The evaluation tests are fixed snippets of a few lines each; interactions of features (a closure in a loop with defer in an expression block ...) are unbounded.",
 ["src/compiler/ast_gen", "src/compiler/semantics", "src/compiler/ir_gen", "src/compiler/ir_passes", "src/compiler/bytecode_gen", "src/vm/interpreter.cpp"],
 [("IR generation", "src/compiler/ir_gen"), ("interpreter", "src/vm/interpreter.cpp")], (),
 ["printed trace and result against an independent reference interpreter"])

prop("C07", "Code generation keeps all live values apart",
 "Independently of how many variables, temporaries, captured variables, loop-carried values, branches or simultaneous (swapping, rotating) assignments a function has, every read of a variable or temporary yields the value most recently assigned to it on the executed path.",
 ["programs"], "all functions, in particular those with large and irregular control flow and many simultaneously live values",
 "Unit tests check IR passes on hand-built graphs with a handful of blocks; wrong interference, phi or parallel-copy handling needs specific control-flow shapes.",
 ["src/compiler/ir_passes", "src/compiler/bytecode_gen/alloc_registers.cpp", "src/compiler/bytecode_gen/parallel_copy.cpp", "src/compiler/ir_gen/support.cpp", "src/compiler/ir_gen/func.cpp"],
 [("SSA construction", "src/compiler/ir_gen/func.cpp"), ("CSSA + liveness + register allocation", "src/compiler/ir_passes"), ("parallel copies", "src/compiler/bytecode_gen/parallel_copy.cpp")], (),
 ["checksums of all variables at many program points against a reference execution"])

prop("C08", "Arithmetic is exact or panics",
 "Integer +, -, *, /, %, **, negation and the integer conversions deliver the mathematically exact result when it fits into 64 bits and otherwise raise a catchable panic (overflow, division by zero); they never wrap silently or crash. Mixed and floating point arithmetic and comparison follow IEEE double semantics after conversion of the integer operand, integers compare by their mathematical order, and numeric literals denote the written integer or the nearest double.",
 ["inputs"], "all operand pairs, in particular the neighbourhood of the 64-bit and 63-bit (small integer) boundaries",
 "Tests use small operands; overflow conditions live at a few points of a 2^128 space.",
 ["src/vm/math.cpp", "src/vm/math.hpp", "src/common/math.hpp", "src/vm/objects/primitives.cpp", "src/vm/context.cpp"],
 [("checked arithmetic", "src/common/safe_int.hpp"), ("numeric operators", "src/vm/math.cpp")],
 [("small integers", "tagged representation boundary", "src/vm/objects/primitives.hpp")],
 ["result or panic of every operator against arbitrary-precision arithmetic"])

prop("C09", "Compile-time evaluation equals run-time evaluation",
 "An expression over constants has the same value, the same type and the same panic behaviour whether the compiler could evaluate it ahead of time or its operands only become known at run time. Constant conditions and unreachable code never change what the reachable program does.",
 ["programs", "inputs"], "all constant expressions and operand values, nested to any depth",
 "Constant folding and the interpreter are separate implementations; tests compare them only on a few expressions.",
 ["src/compiler/ir_gen/const_eval.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/ir_gen/compile_expr.cpp", "src/compiler/ir_passes/dead_code_elimination.cpp", "src/vm/math.cpp"],
 [("constant evaluator", "src/compiler/ir_gen/const_eval.cpp"), ("value numbering", "src/compiler/ir_gen/func.cpp")], (),
 ["folded and opaque variants of one expression in the same program"])

prop("C10", "Equality, hashing and truthiness are coherent",
 "Equality is symmetric and transitive and, for every value, equal keys are interchangeable in maps and sets (an entry stored under one is found under the other); != is the negation of ==. Only null and false are falsy, and this is the same for conditions, logical operators, negation, null-coalescing rules and the host API.",
 ["inputs"], "all pairs and triples of values of all types, including integers near floats, substrings, slices, symbols and NaN-free floats",
 "Tests check a few pairs; hash/equality disagreement only shows for equal values with different representations.",
 ["src/vm/objects/value.cpp", "src/vm/hash.cpp", "src/vm/objects/hash_table.cpp", "src/vm/context.cpp", "src/vm/interpreter.cpp"],
 [("equal() and hash()", "src/vm/objects/value.cpp"), ("hash table lookup", "src/vm/objects/hash_table.cpp")], (),
 ["full equality matrix vs map/set lookups vs conditions"])

prop("C11", "Panics unwind correctly and defers always run once",
 "However a scope is left (normal end, return, break, continue or panic, including a panic inside a deferred expression), the deferred expressions registered so far run exactly once, innermost and latest first, before control reaches its target. std.catch_panic returns the value or the exception of its callee and leaves the caller's state untouched; an uncaught panic finishes only its own coroutine with an error result, and the exception's stack trace names exactly the active functions, innermost first.",
 ["programs", "fault_sequences"], "all placements of defers and panics in all nestings of scopes, loops, calls and catches",
 "Tests have isolated examples of each exit; combinations of exits, nested catches, natives and coroutines are unbounded.",
 ["src/vm/interpreter.cpp", "src/compiler/ir_gen/compile_stmt.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/bytecode_gen/func.cpp", "src/vm/objects/coroutine_stack.cpp", "src/vm/objects/exception.cpp"],
 [("exception handler table", "src/bytecode/function.hpp"), ("unwinding loop", "src/vm/interpreter.cpp"), ("scope exits", "src/compiler/ir_gen/func.cpp")], (),
 ["event trace of defers, catches and exits against the reference interpreter"])

prop("C12", "Maps and sets behave as insertion-ordered associations",
 "After any sequence of insertions, updates, removals, lookups, clears and iterations, a map or set contains exactly the keys (with their latest values) an abstract map would, its size matches, and iteration visits every entry once in insertion order, where an update keeps the position and re-insertion after removal moves to the end.",
 ["histories", "inputs"], "all operation sequences over all key types, across growth, shrink, tombstone and compaction boundaries",
 "Tests use short histories with few keys; index resizing, probe distances, backward shifting and compaction need specific sequences.",
 ["src/vm/objects/hash_table.cpp", "src/vm/objects/set.cpp", "src/vm/builtins/std.cpp", "src/vm/hash.cpp"],
 [("robin hood index + entry array", "src/vm/objects/hash_table.cpp")],
 [("entries/index", "ordered entries and probe table", "src/vm/objects/hash_table.hpp")],
 ["every result of every operation against a model"])

prop("C13", "Sequences and records are exact containers",
 "Arrays, tuples, buffers and records return exactly what was last stored at an index or key and nothing else changes; sizes are exact; element access outside the valid range, with a bad key or with a value of the wrong type (for instance a byte outside 0..255) raises a panic in scripts or the documented error in the API, without modifying the container.",
 ["histories", "inputs"], "all operation sequences and all indices, including negative, huge and boundary values, through the language and through the API",
 "Tests exercise a few in-range accesses; growth boundaries and out-of-range variants are sampled once.",
 ["src/vm/objects/array.cpp", "src/vm/objects/tuple.cpp", "src/vm/objects/buffer.cpp", "src/vm/objects/record.cpp", "src/vm/context.cpp", "src/vm/type_system.cpp", "src/api/objects.cpp", "src/vm/builtins/std.cpp"],
 [("index checks", "src/vm/type_system.cpp"), ("array growth", "src/vm/objects/array_storage_base.cpp")], (),
 ["every result of every operation against a model"])

prop("C14", "Strings, slices and string builders compute exact bytes",
 "Literals, escapes, interpolation, concatenation, builders, slicing, searching, splitting, comparison and iteration produce exactly the byte sequences defined by their UTF-8 source text and operands; slices clamp to the string and share content without copies being observable; strings are immutable and equal content means equal strings regardless of how they were built.",
 ["inputs", "histories"], "all string contents (ASCII, multi-byte, embedded zero and quotes), offsets, lengths and operation sequences",
 "Tests use a few short ASCII strings; growth boundaries, multi-byte text, slices of slices and empty corner cases are unbounded.",
 ["src/vm/objects/string.cpp", "src/vm/builtins/std.cpp", "src/compiler/syntax/lexer.cpp", "src/compiler/ast_gen/build_ast.cpp", "src/common/text"],
 [("string builder growth", "src/vm/objects/string.cpp"), ("escape decoding", "src/compiler/ast_gen/build_ast.cpp"), ("string interning", "src/vm/root_set.cpp")], (),
 ["every result against a byte-string model"])

prop("C15", "Textual representations are faithful and total",
 "Converting any value to text (interpolation, to_string, debug representation, API to_string) terminates and yields the defined rendering: integers and floats round-trip, strings are escaped so that distinct strings render differently, containers list their elements in order with cycles marked instead of followed, pretty and compact form differ only in layout.",
 ["inputs"], "all values, including nested, shared and cyclic containers, special floats and strings with control or invalid bytes",
 "Tests compare a few literal values; nesting, cycles, escapes and numeric extremes are unbounded.",
 ["src/vm/builtins/dump.cpp", "src/vm/object_support/type_desc.cpp", "src/vm/objects/value.cpp", "src/api/objects.cpp", "src/vm/objects/string.cpp"],
 [("structure printer", "src/vm/builtins/dump.cpp"), ("to_string", "src/vm/objects/value.cpp")], (),
 ["rendered text against a model renderer"])

prop("C16", "Coroutines are scheduled fairly and resumed exactly once",
 "Coroutines run in the order in which they became ready, one at a time, and only while the host runs the machine; a yielded coroutine resumes exactly once per token, with the value or error supplied first, and later uses of the token have no effect. Every started coroutine whose awaited tokens are eventually supplied completes exactly once with its function's result, unaffected by what other coroutines do.",
 ["schedules", "histories"], "all interleavings of start, yield, dispatch, token completion (from scripts and host, before or after the yield) and completion",
 "Tests run one or two coroutines in one fixed order; ordering and lost/duplicated wake-ups depend on interleaving.",
 ["src/vm/context.cpp", "src/vm/interpreter.cpp", "src/vm/objects/coroutine.cpp", "src/vm/builtins/std.cpp", "src/api/vm.cpp"],
 [("ready queue", "src/vm/context.cpp"), ("coroutine tokens", "src/vm/objects/coroutine.cpp")],
 [("ready queue", "coroutines able to run", "src/vm/root_set.hpp")],
 ["event log of resume/complete events against a scheduler model"])

prop("C17", "Native functions follow the call protocol",
 "Synchronous, asynchronous and resumable native functions see exactly the arguments and closure they were called with, and the caller receives exactly the one value or panic they produced (null if none), whether completed immediately, later through a token, or through any sequence of resumable states, nested invocations and locals. Calls with too few arguments or invalid protocol steps are reported as panics or API errors without disturbing other frames.",
 ["histories", "schedules", "programs"], "all call nestings between script, sync, async and resumable natives, all state sequences, argument counts and completion orders",
 "Tests contain one small function of each kind; interactions with other frames, defers, panics, GC and multiple states are not explored.",
 ["src/vm/interpreter.cpp", "src/api/functions.cpp", "src/vm/objects/native.cpp", "src/vm/objects/coroutine_stack.cpp"],
 [("frame types", "src/vm/objects/coroutine_stack.hpp"), ("resumable state machine", "src/vm/interpreter.cpp")], (),
 ["host-side log of invocations and results against a model of the protocol"])

prop("C18", "Modules initialise once, in dependency order",
 "Every loaded module is initialised at most once, after all modules it imports, and only when first needed; all importers observe the same module instance and its exported names hold exactly the values after initialisation. Missing modules, missing exports, duplicate names and import cycles are reported as errors every time, and never let code run against an uninitialised module.",
 ["programs", "configurations", "histories"], "all import graphs (including cycles, diamonds, failing initialisers), load orders and request orders",
 "Tests use at most two modules; ordering, cycles and retries after failure depend on the graph and history.",
 ["src/vm/modules/registry.cpp", "src/vm/modules/load.cpp", "src/vm/objects/module.cpp", "src/api/vm.cpp", "src/compiler/ir_gen/module.cpp", "src/compiler/bytecode_gen/module.cpp"],
 [("depth-first resolution", "src/vm/modules/registry.cpp"), ("module loading", "src/vm/modules/load.cpp")],
 [("initialized flag", "module has run its initialiser", "src/vm/objects/module.hpp")],
 ["log of initialiser runs and exports against a graph model"])

prop("C19", "The C API validates its arguments and never corrupts state",
 "Every API function called with null, wrongly typed, out-of-range or wrongly timed arguments returns the documented error code (or documented neutral value) and leaves its outputs and the virtual machine unchanged; with valid arguments it succeeds and has exactly its documented effect. Handles are independent variables: writing one never changes another, and released handles are reusable without affecting others.",
 ["histories", "inputs"], "all sequences of API calls and all argument combinations",
 "Tests check selected functions with one bad argument each, always on a fresh machine.",
 ["src/api/objects.cpp", "src/api/vm.cpp", "src/api/functions.cpp", "src/api/compiler.cpp", "src/api/error.cpp", "src/api/internal.hpp", "src/vm/handles/external.cpp"],
 [("argument checks", "src/api/internal.hpp"), ("entry_point exception barrier", "src/api/internal.hpp")], (),
 ["return codes, outputs and model state after each call"])

prop("C20", "The compiler is total",
 "For any bytes given as source text the compiler terminates without crash or internal error and either succeeds, producing a loadable module, or reports failure together with at least one error message. Every position reported with an error lies inside the named source file.",
 ["inputs", "programs"], "all byte sequences, in particular truncated, mutated and spliced programs",
 "Tests feed a fixed list of malformed snippets; parser recovery and later phases on broken trees have unbounded input shapes.",
 ["src/compiler", "src/api/compiler.cpp", "src/common/text"],
 [("error recovery", "src/compiler/syntax/parser.cpp"), ("diagnostics", "src/compiler/diagnostics.cpp")], (),
 ["error codes, diagnostics and sanitizer reports of the compiler"])

prop("C21", "Ill-formed programs are rejected",
 "A program that violates a static rule (undefined or redeclared name, assignment to a constant, function, import or non-assignable expression, break, continue or return outside its construct, missing initialiser of a constant, use of a variable that need not have a value yet, use of a statement as a value, duplicate record key or parameter, malformed literal or escape, undeclared modifier position) is rejected with an error, wherever in an otherwise valid program the violation occurs; and a valid program is never rejected.",
 ["programs"], "all programs and all positions of a violation, including nested functions, closures, defers and loops",
 "Tests check one snippet per rule at one position.",
 ["src/compiler/semantics", "src/compiler/syntax", "src/compiler/ast_gen", "src/compiler/ir_gen/compile_assign.cpp"],
 [("structure check", "src/compiler/semantics/structure_check.cpp"), ("symbol resolution", "src/compiler/semantics/symbol_resolution.cpp"), ("type check", "src/compiler/semantics/type_check.cpp")], (),
 ["accept/reject verdict and line of the first error for planted violations"])

prop("C22", "Layout and redundant syntax do not change meaning",
 "Changing whitespace, line breaks, comments, redundant parentheses, optional trailing commas or semicolons, the split of declarations over files of a module, or consistently renaming local variables does not change what a program does. Operator precedence and associativity follow the published table.",
 ["programs"], "all programs and all such rewrites",
 "Tests use one formatting of each construct.",
 ["src/compiler/syntax/lexer.cpp", "src/compiler/syntax/parser.cpp", "src/compiler/syntax/grammar", "src/compiler/ast_gen"],
 [("binding powers", "src/compiler/syntax/grammar/operators.cpp"), ("lexer", "src/compiler/syntax/lexer.cpp")], (),
 ["outputs of equivalent renderings of one program"])

prop("C23", "Compilation is deterministic and side-effect free",
 "Compiling the same sources always yields the same module (same disassembly, exports and behaviour) and the same messages, independently of process, address layout, requested attachments, message callbacks, or of what was compiled before; requesting attachments never changes success or the module, and each attachment is available exactly when its stage was reached.",
 ["configurations", "histories", "programs"], "all programs, compiler options, repetitions and orders",
 "Tests compile each snippet once in one process; hash-seed dependent iteration orders are invisible.",
 ["src/compiler/compiler.cpp", "src/api/compiler.cpp", "src/compiler/bytecode_gen", "src/compiler/semantics", "src/common/text/string_table.cpp"],
 [("ordered containers", "src/compiler/bytecode_gen/object.cpp"), ("compiler driver", "src/compiler/compiler.cpp")], (),
 ["disassembly and diagnostics across processes and options"])

prop("C24", "Bytecode is verified before it runs",
 "Every module produced by the compiler passes load-time verification. A module whose member references, registers, parameters, constants, jump targets, exception handlers, exports or entry points are out of range or of the wrong kind is rejected with an error when loaded, before any of its code runs, and an accepted module never accesses registers, parameters, module members or code out of bounds. (Keeping the operand stack balanced and placing handlers and rethrow instructions sensibly is left to the compiler.)",
 ["inputs", "fault_sequences"], "all compiler outputs and all single and multiple corruptions of them",
 "The verifier has no direct tests; corrupted modules never occur in the suite.",
 ["src/vm/modules/verify.cpp", "src/vm/modules/load.cpp", "src/bytecode"],
 [("structural verifier", "src/vm/modules/verify.cpp"), ("code parsing", "src/bytecode/reader.cpp")], (),
 ["load verdict of mutated modules; sanitizer reports when an accepted mutant runs"])

prop("C25", "Virtual machines and compilers are independent of each other",
 "Any number of virtual machines and compilers can be used at the same time, each from one thread, without data races, and the behaviour of one is never influenced by another (values, interned names, errors, callbacks, user data, limits).",
 ["schedules", "configurations"], "all concurrent uses of separate instances",
 "Tests are single-threaded with one machine at a time; shared static state is invisible.",
 ["src/api", "src/vm/context.cpp", "src/vm/heap", "src/compiler/compiler.cpp", "src/common"],
 [("all state is per context", "src/vm/context.hpp")], (),
 ["thread sanitizer reports; outputs of concurrent runs vs. isolated runs"])

prop("C26", "Call depth is limited only by the configured stack, safely",
 "Recursion to any depth below the coroutine stack limit works and all frames keep their locals across stack growth; beyond the limit execution stops with an error reported to the host instead of crashing, and other coroutines and the machine stay usable.",
 ["programs", "configurations"], "all recursion depths, frame sizes and mixes of script, native and catch frames",
 "Tests recurse to one fixed depth; growth happens at frame-size dependent points.",
 ["src/vm/objects/coroutine_stack.cpp", "src/vm/interpreter.cpp"],
 [("stack growth", "src/vm/interpreter.cpp"), ("stack limit", "src/vm/objects/coroutine_stack.hpp")], (),
 ["results of deep recursions, error codes at overflow, behaviour afterwards"])

prop("C27", "The C++ wrapper mirrors the C API",
 "Every operation of the C++ binding has exactly the effect and result of the corresponding C function, turns every error into an exception carrying the same code, and owns its resources: handles, compilers, modules and tokens are released exactly once under construction, copy, move, assignment, swap and exception paths.",
 ["histories", "inputs"], "all sequences of wrapper operations and errors",
 "The wrapper has few direct tests, each creating an object once; move and error paths are unchecked.",
 ["include/tiropp"],
 [("handle and resource holder", "include/tiropp/detail/resource_holder.hpp"), ("error_adapter", "include/tiropp/error.hpp")], (),
 ["results, exceptions and sanitizer reports of wrapper operations"])

prop("C28", "The command line runner reports outcomes truthfully",
 "The runner exits successfully exactly if all given sources compile and the requested function runs to completion without an uncaught panic; program output goes unmodified to standard output, and compile errors, unreadable files, missing exports and panics produce an explanatory message and a failing exit status.",
 ["inputs", "programs"], "all programs, argument combinations and failure kinds",
 "There is no test for the runner.",
 ["src/run/main.cpp"],
 [("main", "src/run/main.cpp")], (),
 ["exit status, stdout and stderr of the tool"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
