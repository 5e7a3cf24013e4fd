"""The properties and the simulations that decide them."""

REAL = ["all LvArray headers the property uses (from /repo/src)", "src/system.cpp", "src/umpireInterface.cpp"]
STUB = ["RAJA (loops, scans, atomics) -> shim/RAJA: simulated thread teams", "camp -> shim/camp",
        "malloc/free/new/delete -> simulated heap with addressability, reuse and fill policies",
        "std::mutex -> simulated mutex", "process abort -> end of the simulated process"]

TECHNIQUE = {
    "": "deterministic simulation: seeded search over histories, schedules, allocator behaviour and faults against a reference model, with race, memory and life-time checking",
}
LEVEL_NOTE = {
    "": "Seeded search over simulated executions of the real code; no exhaustiveness is claimed. Counts, fault kinds and interleavings reached are in the evidence file.",
}
NOT_APPLICABLE = {
    "C22": "Pure functions of their operands: no concurrency, time, I/O, allocation or other party takes part, so there is nothing a simulator could schedule or fail.",
    "C23": "Pure functions of their arguments, nothing to schedule or fail; the stop on a failed conversion is covered by the error reporting property C17.",
}

OS_WRAPS = ["pipe", "pipe2", "fork", "close", "dup2", "execv", "_exit", "fdopen", "read", "kill", "waitpid", "dladdr", "readlink", "_Unwind_Backtrace", "_Unwind_GetIP",
            "_Unwind_GetIPInfo", "__cxa_demangle", "signal", "sigaction", "feenableexcept", "fedisableexcept"]
OS_REAL = ["src/system.cpp", "src/Macros.hpp", "src/system.hpp", "the forked copy of the process up to exec (first helpers of each run)", "glibc stdio, C++ demangler, floating point unit", "the real unwinder in a quarter of the runs"]
OS_STUB = ["pipe, fork, exec, dup2, close, fdopen, read, kill, waitpid, readlink, dladdr, signal, sigaction -> scen/os_model.cpp", "addr2line -> text drawn by the simulator", "_Unwind_Backtrace -> made up stacks in three quarters of the runs",
           "malloc/free/new/delete -> simulated heap", "std::cout -> captured"]


def os_bin(name, src, variant, quick, thorough):
    return dict(name=name, src=src, variant=variant, quick=quick, thorough=thorough, wraps=OS_WRAPS, extra=["scen/os_model.cpp"])


PY_WRAPS = ["PyTuple_New", "PyList_New", "PyUnicode_FromString", "PyUnicode_FromStringAndSize", "PyUnicode_DecodeUTF8", "PyLong_FromLong", "PyLong_FromLongLong", "PyLong_FromSsize_t",
            "PyObject_CallObject", "PyType_GenericAlloc", "PyModule_Create2", "PyObject_GetAttrString", "PyImport_ImportModule", "_PyObject_CallFunction_SizeT", "PyModule_AddObject",
            "PyModule_AddObjectRef", "PyModule_AddIntConstant", "PyObject_IsInstance", "PyType_Ready"]


PROPS = {
    "C01": dict(
        bins=[dict(name="c01", src="c01_append.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c01chk", src="c01_append.cpp", variant="chk", quick=20000, thorough=1000000)],
        rule="A run appends up to ~36 values from 1 to 6 threads to 1 to 4 inner arrays in up to three rounds; non-trivial when at least two appends were issued in one round.",
        probes=["appends-out-of-order", "array-exactly-full", "atomic-operation"]),
    "C05": dict(
        bins=[dict(name="c05", src="c05_array1d.cpp", variant="rel", quick=60000, thorough=6000000),
              dict(name="c05chk", src="c05_array1d.cpp", variant="chk", quick=20000, thorough=1000000)],
        rule="A run applies ~24 random operations (25 kinds) to three one dimensional arrays per caller, one or several concurrent callers, six element types and two index types, heap and in-object storage, in one of 32 histories up to 400 values; "
             "the whole content is compared with std::vector after each operation. Non-trivial when an operation acted on a non-empty array.",
        probes=["own-element", "self-assignment", "several-callers", "moved-from-reused", "full", "large"]),
    "C06": dict(
        bins=[dict(name="c06", src="c06_ndarray.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c06chk", src="c06_ndarray.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run applies random operations (resizing, single index resizing, copies between layouts, moves, fills, writes through indices, slices, data pointers and views) to arrays of 1 to 4 dimensions "
             "in several permutations and element types, sums over the first dimension, and compares every element through every access path, and the pointers of contiguous parts, with a map from multi-index to value; one of 32 histories has up to 400 values. Non-trivial when an array had more than one value.",
        probes=["grown-in-place-of-shape", "shrunk", "copied-between-layouts", "several-callers", "contiguous-part", "summed", "large"]),
    "C07": dict(
        bins=[dict(name="c07", src="c07_sorted.cpp", variant="rel", quick=50000, thorough=5000000),
              dict(name="c07chk", src="c07_sorted.cpp", variant="chk", quick=20000, thorough=1000000)],
        rule="A run applies ~20 random operations (single and ranged insertion and removal, own elements, copies, moves, reservation) to two sorted arrays per caller (in one of 32 histories up to 400 values) and compares them with std::set after each. "
             "Non-trivial when an array had more than one value.",
        probes=["merged-range", "removed-range", "own-element", "moved-from-reused", "several-callers", "large"]),
    "C08": dict(
        bins=[dict(name="c08", src="c08_ragged.cpp", variant="rel", quick=50000, thorough=4000000),
              dict(name="c08chk", src="c08_ragged.cpp", variant="chk", quick=20000, thorough=1000000)],
        rule="A run applies ~22 random operations (34 kinds on the outer level, the inner level and through views) to two ragged arrays per caller and compares content, capacities, offsets and access paths with a vector of vectors after each; one of 32 histories has up to 60 inner arrays or up to 200 values in one. "
             "Non-trivial when an array had more than one inner array.",
        probes=["own-element", "self-assignment", "compressed", "from-capacities", "assimilated", "capacity-cut", "shrunk", "through-view", "filled-exactly", "moved-from-reused", "several-callers", "large"]),
    "C09": dict(
        bins=[dict(name="c09", src="c09_sets.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c09chk", src="c09_sets.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run applies ~22 random operations (30 kinds) to two arrays of sets per caller and compares content, answers, capacities and access paths with a vector of std::set after each; one of 32 histories has sets of up to 300 values. "
             "Non-trivial when a container had more than one set.",
        probes=["own-element", "self-assignment", "compressed", "from-capacities", "assimilated", "long-input", "duplicates", "merged-range", "removed-range", "capacity-cut", "through-view", "filled-exactly", "several-callers", "large"]),
    "C10": dict(
        bins=[dict(name="c10", src="c10_sparse.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c10chk", src="c10_sparse.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run applies ~24 random operations (36 kinds) to two patterns or matrices per caller (five entry types, four column types, rows of up to 110 entries) and compares dimensions, columns, entries, answers and access paths "
             "with a vector of maps after each. Non-trivial when a matrix had more than one row.",
        probes=["own-element", "self-assignment", "compressed", "from-capacities", "assimilated", "added", "long-row", "merged-range", "removed-range", "capacity-cut", "through-view", "filled-exactly", "several-callers"]),
    "C17": dict(
        bins=[os_bin("c17", "c17_reports.cpp", "a2l", 16000, 1500000), os_bin("c17chk", "c17_reports.cpp", "a2lchk", 8000, 700000), os_bin("c17rel", "c17_reports.cpp", "rel", 8000, 700000)],
        real=OS_REAL, stub=OS_STUB,
        rule="A run mixes stack traces, all 41 checking macros on operands of several types, signal reports and changes of the error handler, from one or several threads, while pipe, fork, exec, dup2, fdopen, read, waitpid, readlink and "
             "demangling fail and helper output is cut, garbled or empty. The printed text, the handler calls, the descriptor table, the process table and the heap are compared with the model. Non-trivial when a trace was taken or a check fired.",
        probes=["located-frame", "path-of-executable", "real-child", "trace-of-25-frames", "several-callers", "throwing-check", "stopping-check", "printing-check", "signal-report",
                "pipe-fails", "fork-fails", "exec-fails", "fdopen-fails", "read-error", "helper-killed", "waitpid-interrupted", "output-stream-failed"]),
    "C18": dict(
        bins=[os_bin("c18", "c18_signals.cpp", "rel", 60000, 6000000), os_bin("c18a2l", "c18_signals.cpp", "a2l", 12000, 1000000)],
        real=OS_REAL, stub=OS_STUB,
        rule="A run is a history of installing and restoring signal handlers, of handlers changed by the application and of signal deliveries, or a history of enabling, disabling, nested scopes (left normally or by an exception) and arithmetic "
             "in double and extended precision on the real floating point unit, on one or several threads, compared with a model after each step. Non-trivial when handlers were restored or arithmetic was executed.",
        probes=["installed-again", "restored", "traced-signal", "fatal-signal", "nested-scope", "left-by-exception", "set-fpe", "trapped", "raised-without-trap", "several-callers", "refused"]),
    "C24": dict(
        bins=[dict(name="c24", src="c24_python.cpp", variant="rel", quick=16000, thorough=1600000, wraps=PY_WRAPS, python=True),
              dict(name="c24chk", src="c24_python.cpp", variant="chk", quick=6000, thorough=600000, wraps=PY_WRAPS, python=True)],
        real=["src/python/*.cpp and *.hpp", "the LvArray containers", "CPython", "NumPy", "SciPy (csr_matrix)"],
        stub=["calls of the bindings into CPython and NumPy go through link-time wrappers and the NumPy function table, where the simulator decides whether they fail", "malloc/free/new/delete of the bindings -> simulated heap",
              "object memory of CPython -> counted, otherwise real", "RAJA -> sequential stand-in", "garbage collection -> only at points that the run chooses"],
        rule="A run exports one to three containers (arrays of up to four dimensions and several layouts, sorted arrays, ragged arrays, sets, matrices, strings; several value types) and lets C++ and Python take turns for up to 60 steps: methods with good, converted, ill-typed, ill-shaped and "
             "out-of-range arguments at every access level, views written and kept, objects copied into cycles and dropped in any order, containers destroyed first, callbacks, modules made anew, references copied and moved, objects that Python made itself. In half of the runs calls of the bindings into "
             "CPython and NumPy fail (no memory, import error). Every container is compared with a model after every step, reference counts after every call, and nothing may be left at the end. Non-trivial when a view with values or a value was compared.",
        probes=["refused", "fault-reported", "py-no-memory", "py-import-error", "written-through-view", "view-outlives", "container-destroyed", "cycle", "made-in-python", "scipy", "function-copied", "odd-layout-argument"]),
    "C21": dict(
        bins=[dict(name="c21", src="c21_sort.cpp", variant="rel", quick=30000, thorough=3000000),
              dict(name="c21dev", src="c21_sort.cpp", variant="rel", quick=20000, thorough=2000000, defs=["-DC21_DEVICE"]),
              dict(name="c21chk", src="c21_sort.cpp", variant="chk", quick=10000, thorough=1000000)],
        rule="A run lets 1 to 4 threads sort, sort in pairs, make unique and query adjacent ranges (0 to 400 values, nine input orders, five orders including an adversary that answers comparisons so that pivots are bad) of one buffer, "
             "and search, insert and remove in sorted values with exactly the room needed, with callbacks replayed on a second list. Comparisons throw in some runs. The device version of the sort is compiled too. Non-trivial when a range had more than one value.",
        probes=["adversary", "partitioned", "duplicates", "sorted-query", "container-iterators", "several-changed", "several-callers", "comparison-throws"]),
    "C19": dict(
        bins=[dict(name="c19", src="c19_input.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c19chk", src="c19_input.cpp", variant="chk", quick=15000, thorough=1500000)],
        rule="A run parses up to four texts into arrays of one to four dimensions (four value types, several layouts, heap and in-object storage, any previous content), alone or on several threads: texts written from random dimensions and values, texts that look nearly right, "
             "and texts damaged by one or several faults. An independent parser decides what each text means. Non-trivial when a text had more than three characters.",
        probes=["accepted", "refused", "null-text", "several-callers", "lenient", "text-truncated", "text-head-lost", "byte-lost", "byte-inserted", "byte-replaced", "bit-flipped", "bytes-exchanged", "part-duplicated"]),
    "C20": dict(
        bins=[dict(name="c20", src="c20_output.cpp", variant="rel", quick=40000, thorough=4000000, defs=["-fno-builtin-printf"], wraps=["printf", "puts", "putchar"]),
              dict(name="c20chk", src="c20_output.cpp", variant="chk", quick=15000, thorough=1500000, defs=["-fno-builtin-printf"], wraps=["printf", "puts", "putchar"])],
        stub=STUB + ["the stream buffer behind the std::ostream", "printf, puts, putchar -> captured"],
        rule="A run prints an array, slice, view, sorted array, ragged array, matrix (as text and as table) or c-array, from one or several threads at once, with several stream formats, compares the words with an independent rendering, parses arrays back, and prints again to streams that stop, throw, "
             "fail to flush or have failed already. Non-trivial when the container had more than one part.",
        probes=["inner-slice", "read-back", "empty", "table", "c-array", "several-callers", "stream-stops", "stream-already-failed", "stream-buffer-throws", "stream-exceptions", "flush-fails"]),
    "C02": dict(
        bins=[dict(name="c02", src="c02_disjoint.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c02chk", src="c02_disjoint.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run gives 2 to 6 threads different inner arrays, sets, rows or slices of one container and lets each apply its own random operations through views at the same time, then compares every part with the model of its own thread. "
             "Non-trivial when at least two threads modified parts of one container.",
        probes=["part-was-full", "atomic-operation"]),
    "C03": dict(
        bins=[dict(name="c03", src="c03_assembly.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c03chk", src="c03_assembly.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run adds up to ~30 contributions (four search strategies, rows of up to 130 entries, eight type combinations) to a matrix from 1 to 6 threads, from a parallel loop or through the owner, and compares every entry with the sum and the raw pattern "
             "and the unused room with what they were. Non-trivial when at least two contributions were added.",
        probes=["column-twice", "chose-binary-search", "chose-linear-search", "atomic-operation"]),
    "C04": dict(
        bins=[dict(name="c04", src="c04_bulk.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c04chk", src="c04_bulk.cpp", variant="chk", quick=15000, thorough=1000000)],
        rule="A run builds ragged arrays, sets, patterns and matrices from capacities (none to 45, often zero) over any previous content with the sequential and the parallel policy, fills them to what was asked for, fills and copies arrays of one to three dimensions, "
             "takes patterns over into matrices and turns arrays into sets, with teams of 1 to 8 simulated threads, and compares both results and the model. Non-trivial when the operation had more than one part or value to work on.",
        probes=["parallel-host-loop", "parallel-scan", "no-parts", "only-empty-parts", "assimilated", "made-sets", "made-arrays", "copied"]),
    "C11": dict(
        bins=[dict(name="c11", src="c11_lifetimes.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c11chk", src="c11_lifetimes.cpp", variant="chk", quick=12000, thorough=1000000)],
        rule="A run applies ~22 random operations to two containers of one of the eight container kinds per caller, with elements whose life is followed byte by byte, elements that own heap memory and elements that are containers. Construction over a living element, use or destruction of a dead one, "
             "the number of living elements after each operation and everything that remains at the end are checked. Non-trivial when a container held more than one element or part.",
        probes=["own-element", "self-assignment", "compressed", "from-capacities", "assimilated", "merged-range", "removed-range", "through-view", "moved-from-reused", "several-callers", "dead-slot-relocated"]),
    "C12": dict(
        bins=[dict(name="c12", src="c12_aliasing.cpp", variant="rel", quick=40000, thorough=4000000),
              dict(name="c12chk", src="c12_aliasing.cpp", variant="chk", quick=12000, thorough=1000000)],
        rule="A run applies ~20 random copies, moves, swaps, view conversions, captures, reinterpretations and writes through any of them to a few containers of one kind per caller, "
             "and compares every container and every view that is still valid with a model of what shares storage with what. Non-trivial when a container with values was copied, moved or viewed.",
        probes=["reinterpreted", "converted", "captured", "copy-assigned", "copy-constructed", "move-assigned", "move-constructed", "swapped", "view-assigned", "view-copied", "written-through-view", "several-callers"]),
    "C16": dict(
        bins=[dict(name="c16chk", src="c16_checked.cpp", variant="chk", quick=24000, thorough=2500000),
              dict(name="c16rel", src="c16_checked.cpp", variant="chkrel", quick=16000, thorough=1500000)],
        rule="A run builds one container of any kind and makes up to 14 calls on it, half of them with an index, dimension, length, column, position, count or order that is not allowed, or asking for a pointer to values that are apart. Memory that holds none of the container's values is closed to the call, "
             "the call must stop before it reads or writes any of it, valid calls must answer as without checks, and all contents must be what they were. Non-trivial when a call was stopped.",
        probes=["stopped", "valid-access", "bad-column", "absent-column", "unordered", "over-capacity", "atomic-over-capacity", "wrong-description", "slice-as-pointers", "slice-apart", "not-an-index", "odd-pairs", "sum-mismatch"]),
    "C15": dict(
        bins=[dict(name="c15", src="c15_exhaustion.cpp", variant="rel", quick=50000, thorough=5000000),
              dict(name="c15chk", src="c15_exhaustion.cpp", variant="chk", quick=24000, thorough=1500000),
              dict(name="c15dev", src="c15_chai.cpp", variant="dev", quick=16000, thorough=1000000),
              dict(name="c15chai", src="c15_chai.cpp", variant="chai", quick=8000, thorough=500000)],
        rule="A run lets one container of any kind grow up to 16 times in every way it can grow while a certain allocation fails, allocations fail at random, only small ones succeed, or the size exceeds any memory (the number of bytes may not even be representable); "
             "arrays stored in the object grow over their capacity. The operation must stop with an error exactly when it did not get the memory, and everything it was not asked to replace must still be readable in its place. "
             "With CHAI two arrays, tables, sorted or ragged arrays grow and move to the device while the allocators of Umpire throw: the exception must come out of exactly the operations that did not get the memory, all values must be what they were, everything must stay usable and releasable. Non-trivial when the program was stopped or an exception came out.",
        probes=["exception", "moved-to-device", "stopped", "over-capacity", "far-too-much", "copied", "taken-over", "malloc-null", "malloc-exhausted"]),
    "C14": dict(
        bins=[dict(name="c14dev", src="c14_memcpy.cpp", variant="dev", quick=16000, thorough=2000000),
              dict(name="c14devchk", src="c14_memcpy.cpp", variant="devchk", quick=8000, thorough=1000000),
              dict(name="c14chai", src="c14_memcpy.cpp", variant="chai", quick=10000, thorough=500000),
              dict(name="c14rel", src="c14_memcpy.cpp", variant="rel", quick=16000, thorough=500000)],
        rule="A run makes nine arrays of one to four dimensions, several layouts and element sizes in host and device memory, with and without Umpire, and performs ~18 block copies between slices of them, at once, through a host resource or on two streams "
             "whose work the simulator performs at moments it chooses, with kernels, moves, waits and byte fills in between. Arrays no work is outstanding for are compared with a model, as is everything around the copied part; slices that do not match must be refused. Non-trivial when values were copied.",
        probes=["part", "asynchronous", "several-on-one-stream", "refused", "waited", "async-early-progress", "device-kernel", "space-transfer", "memset"]),
    "C25": dict(
        bins=[dict(name="c25", src="c25_announce.cpp", variant="dev", quick=24000, thorough=2000000),
              dict(name="c25chk", src="c25_announce.cpp", variant="devchk", quick=8000, thorough=800000)],
        rule="A run keeps two containers of one kind (arrays of one and two dimensions, sorted arrays, ragged arrays, sets, patterns, matrices; or a single buffer) that exist in both memory spaces, and names, grows, copies, moves, exchanges and makes anew for ~22 operations, with moves and kernels of views in between, "
             "while standard output works or refuses everything. The text written during each operation must be one line for each transfer that the array manager recorded, with its size, target space, type and name. Every tenth run compares the text of sizes. Non-trivial when a transfer of a container with a known name was announced.",
        probes=["named", "composed", "exchanged", "megabytes", "sizes", "output-refused"]),
    "C26": dict(
        bins=[dict(name="c26", src="c26_debugger.cpp", variant="tv", quick=9000, thorough=800000),
              dict(name="c26chk", src="c26_debugger.cpp", variant="tvchk", quick=9000, thorough=800000)],
        rule="A run has a simulated debugger that opens and closes tables and lets arrays and views of one to three dimensions, several layouts, element and index types, arrays of arrays, slices (with bounds checks) and rows of the user be added, between operations on the arrays and in the middle of them "
             "(in the special functions of elements), until the table is full and beyond, or while no table is open. The table must consist of whole rows, those that were there before and those of what is shown, with the right names, types and addresses; a row that has room must be there, and the status must say whether all are. "
             "Non-trivial when something was added to a table or refused by it.",
        probes=["array", "slice", "closed", "invalid", "large", "exactly-full", "stopped-in-operation", "table-full"]),
    "C13": dict(
        bins=[dict(name="c13dev", src="c13_spaces.cpp", variant="dev", quick=44000, thorough=3000000, units=["c13_unit.cpp"]),
              dict(name="c13devchk", src="c13_spaces.cpp", variant="devchk", quick=16000, thorough=1000000, units=["c13_unit.cpp"]),
              dict(name="c13chai", src="c13_spaces.cpp", variant="chai", quick=12000, thorough=500000, units=["c13_unit.cpp"])],
        rule="A run keeps two containers of one of ten kinds (arrays of several layouts, arrays of arrays, of arrays of arrays and of ragged arrays, sorted arrays, ragged arrays, sets, patterns, matrices) and performs ~24 operations: "
             "kernels in either space that read or write through captured views, new or kept from before, explicit moves with and without touching, host modifications, copies, swaps, destructions and functions that work in a space. "
             "Every value seen is compared with a model, every access with the space it runs in, transfers to a space that has the latest values are refused, and nothing may stay allocated. A thirteenth of the runs has several host threads in two translation units. "
             "Non-trivial when a container with several values lies on the device (without a device: has several values), or several threads ran.",
        probes=["device-read", "device-write", "moved-to-device", "exchanged", "by-address", "touched-afterwards", "zeroed", "set-values", "made-in-space", "own-allocators", "const-sizes", "atomically", "assimilated", "several-callers", "other-unit", "space-transfer"]),
}