"""The checks: which harness decides which property, and what it assumes."""
TRUST = ["the compiler, and libm as reference for the values of mathematical functions",
         "the harness and its oracle (/verif/harness)",
         "inputs outside the stated alphabets and bounds are not covered"]
CHECKS = {}
EX = "bounded exhaustive exploration of the real code"


def cpp(pid, src, technique, note, **kw):
    CHECKS[pid] = dict(kind="cpp", src=src, technique=technique, note=note,
                       assumptions=TRUST + kw.pop("assumptions", []), **kw)


def py(pid, src, technique, note, **kw):
    CHECKS[pid] = dict(kind="py", module="pybuild", src=src, technique=technique, note=note,
                       assumptions=TRUST + kw.pop("assumptions", []), **kw)


def js(pid, src, technique, note, **kw):
    CHECKS[pid] = dict(kind="js", module="jsbuild", src=src, technique=technique, note=note,
                       assumptions=TRUST + kw.pop("assumptions", []), **kw)


STREAMS = ("Every sequence of observations up to the depth, over symbols resolved against the current state (ties with the "
           "thresholds, adjacent doubles, infinities, NaN, far and near excesses), x configurations (tails, discard, levels, "
           "capacities, training sets), plus long structured streams. ")

cpp("C01", "c01.cpp", EX + ": all observation sequences x configurations, step monitor",
    STREAMS + "Oracle: the verdict recomputed from the thresholds in force before the call; plus all 51^3 triples (t, z, x) of special doubles.")
cpp("C02", "c02.cpp", EX + ": all observation sequences x configurations, before/after state comparison",
    STREAMS + "Oracle: the complete detector before and after each call; counters also across every word boundary.")
cpp("C03", "c03.cpp", EX + ": all observation and push sequences against a reference queue",
    STREAMS + "Oracle: a plain list of all excesses; also all push sequences on the container for capacities 1..6 and every capacity 1..300.")
cpp("C04", "c04.cpp", EX + ": all push sequences against recomputed statistics",
    STREAMS + "Oracle: statistics recomputed in extended precision from the stored excesses, tolerance proportional to their magnitude; "
    "also all push sequences on the peaks over five value alphabets.")
cpp("C05", "c05.cpp", EX + ": all small training sets and all short histories before a new fit",
    "Every training set up to the size bound over four value alphabets x 24 configurations, every size 5..300 of nine patterns; "
    "every history of 3 operations followed by a fit, compared with a fresh detector.")
cpp("C06", "c06.cpp", EX + ": all small data sets against a branching reference model of P2",
    "Reference: the recurrence in extended precision; comparisons decided by rounding are explored both ways, so the reference "
    "is a set of admissible results. Two known findings (monotone ramps).")
cpp("C07", "c07.cpp", EX + ": all small windows of excesses x units, independent candidate estimates",
    "Every window of up to 6 excesses over five alphabets x 17 units, reached through evictions, plus streams. Oracle: independent extended-precision "
    "log-likelihood of the exponential, moment and Grimshaw candidates (found by an exhaustive scan of the profile equation).",
    assumptions=["'best' is up to the numerical noise of the library's own log-likelihood"])
cpp("C08", "c08.cpp", EX + ": all observation sequences x quantile grid, closed-form oracle",
    STREAMS + "Oracle: closed form in extended precision on every reached state and on a grid of synthetic states.")
cpp("C09", "c09.cpp", EX + ": all observation sequences x query grid, closed-form oracle",
    STREAMS + "Oracle: closed form in extended precision, range, monotony and inversion, on every reached and synthetic state.")
cpp("C10", "c10.cpp", "exhaustive enumeration of all binary exponents x a mantissa grid against libm long double",
    "All 2047 exponents, both signs, 382 mantissas (thorough: more), neighbourhoods of every multiple of log 2, special values.",
    assumptions=["between two mantissas of the grid the error does not jump"])
cpp("C11", "c11.cpp", "exhaustive exploration of all answer sequences of an adversarial environment (the function) on the real code",
    "The function is the environment: every sequence of answers (sign x magnitude, zero, NaN, infinity) for the first evaluations, then several completions.")
cpp("C12", "c12.cpp", EX + " under AddressSanitizer and UBSan: all call sequences with allocation faults",
    "Every sequence of 4 calls over 40 calls (with NaN, infinities, capacities 0 and overflowing, refused allocations), "
    "every text buffer size, every capacity; guard zones and sanitizers judge each execution.", variant="asan", env={
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=88:handle_abort=0:quarantine_size_mb=4",
        "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=88"})
cpp("C13", "c13.cpp", EX + ": all lifecycles of up to 3 detectors x allocation failures, accounting allocators",
    "Every sequence of init/fit/step/query/free/switch-allocator calls up to the bound, each allocation refused or granted; libc's own "
    "malloc is interposed to see any bypass.",
    ldflags=["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"))])
cpp("C14", "c14.cpp", EX + ": all combinations of boundary parameters and structure contents",
    "Boundary values, their neighbours, specials and a 400 x 400 grid for (level, q) x capacities x flags x previous contents x allocation outcome.")
CHECKS["C15"] = dict(
    technique="stateless model checking of the real code: all interleavings of operation scripts; all schedules of two "
    "threads with up to 2 preemptions at basic-block granularity under a controlled scheduler",
    note="Merges of scripts at call granularity; preemption at every basic block and at every access to static memory "
    "(coverage-instrumented build); compared bit by bit with solo runs. Sequential consistency is assumed (one running thread at a time).",
    assumptions=TRUST + ["sequentially consistent memory; more than 2 preemptions are not explored"], parts=[
        dict(kind="cpp", src="c15a.cpp", shared=True),
        dict(kind="cpp", src="c15b.cpp", shared=True, variant="mem", ldflags=["-rdynamic"])])
cpp("C16", "c16.cpp", EX + ": all short histories x memory contents x inserted queries, differential",
    "Every history of 3 operations x 168 configurations, run in 10 environments (contents of structure, heap and earlier use) and with queries "
    "inserted at every subset of positions; compared bit by bit.")
cpp("C17", "c17.cpp", EX + ": all training sets and streams, mirrored pair of detectors",
    "Lower-tail detector on negated data against upper-tail detector, every training set of 5 values over the alphabet x all streams.")
LONG = "".join("%03d." % i for i in range(80))
CHECKS["C18"] = dict(
    technique="exhaustive enumeration of buffer sizes x codes on the real code, guarded buffers",
    note="Every size 0..340 x 219 error codes, version and license (the release's own and texts of 320 characters given at "
    "build time); buffer content compared with the full text, guard bytes around.",
    assumptions=TRUST, parts=[
        dict(kind="cpp", src="c18.cpp"),
        dict(kind="cpp", src="c18.cpp", version="v" + LONG, cflags=['-DLICENSE="L%s"' % LONG])])
py("C19", "c19.py", EX + " (Python extension): all operation sequences against the C library",
   "The extension and a C shared library are built from the same tree; every call is made on both and every attribute, list and export compared bit by bit.")
py("C20", "c20.py", EX + " (Python extension): all pairs of misuse calls from all states, every allocation failed in turn",
   "227 calls x 7 starting states, singly, in pairs and repeated; each malloc of the extension and each allocation of the interpreter refused in turn; "
   "exceptions, detector state, block accounting with guard zones, reference counts.",
   assumptions=["interpreter allocation failures only while no Python-level code runs inside the call"])
js("C21", "c21.mjs", "conformance replay of exhaustively enumerated native traces on the real TypeScript wrapper and a wasm32 build",
   "Native C traces of every enumerated case are replayed on wasm/index.ts over a clang wasm32 build of the real sources, compared bit by bit.",
   assumptions=["clang wasm32 with a stand-in for the emscripten loader represents the emscripten build"])
js("C22", "c22.mjs", EX + " (TypeScript wrapper on an instrumented wasm32 heap): all operation sequences with heap faults",
   "Every load and store of the wasm code and every heap view access is checked against the live blocks; every heap request refused in turn; "
   "finalisation driven by the explorer, and by the engine's collector.", instrumented=True,
   assumptions=["clang wasm32 with a stand-in for the emscripten loader represents the emscripten build"])
cpp("C25", "c25.cpp", EX + ": all training sets and streams, pair of detectors in different units",
    "The same history in 22 units (powers of two, 2^-300 to 2^300) and with 7 dyadic offsets, where the transformation of the data is exact; "
    "verdicts, counters, thresholds, excesses, parameters and queries compared after every call.",
    assumptions=["two tail models whose likelihoods differ by less than the noise of the library's logarithm are interchangeable"])
cpp("C26", "c26.cpp", EX + ": all short histories and training sets over extreme values, work and stack of every call measured",
    "The library is built with a callback on every basic block; blocks and stack depth of every init, fit, step, query and free call against bounds "
    "in the number of stored excesses and the training size.", variant="cov", cflags=["-fexceptions"],
    assumptions=["work is counted in basic blocks of a clang -O1 build; the bounds leave a factor of several over the documented iteration caps"])

NOT_APPLICABLE = {
    "C23": "statistical statement about the limit of infinite random streams; no bounded enumeration of executions decides it",
    "C24": "a fact about the symbol table of the built library, not about its executions: there is nothing to explore",
}
