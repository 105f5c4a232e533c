#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe, "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}

prop("C01", "Every step verdict follows from the thresholds in force",
 "For a calibrated detector, a step on a NaN observation returns the data-is-NaN error; otherwise it returns ANOMALY exactly when anomaly discarding is enabled and the observation lies strictly beyond the current anomaly threshold on the monitored side (above it for the upper tail, below it for the lower tail), else EXCESS exactly when the observation is at or beyond the excess threshold on that side, else NORMAL. "
 "This holds for finite, infinite and boundary observations, in upper and lower mode, at every point of every stream.",
 ["inputs", "histories", "configurations"], "every stream of observations (including exact ties with the thresholds, the adjacent doubles, infinities and NaN), after every history, for both tails and both discard settings",
 "The tests count verdicts of one seeded gaussian stream in upper/discard mode with a +-30 tolerance; lower mode, discard off, ties, neighbours of a threshold and infinities are never asserted.",
 ["src/spot.c", "include/spot.h", "include/structs.h"],
 [m("spot_step comparison chain", "src/spot.c:spot_step"), m("up/down sign set at init", "src/spot.c:spot_init")],
 ["spot_step return value", "Spot.anomaly_threshold", "Spot.excess_threshold"],
 [s("anomaly_threshold/excess_threshold", "decision boundaries", "include/structs.h:struct Spot")])

prop("C02", "A step changes exactly what its verdict says, and nothing else",
 "A step that reports NaN or ANOMALY leaves the detector exactly as it was; NORMAL only counts one more observation; EXCESS counts one more observation and one more excess, adds that excess to the stored tail and refreshes the tail model and anomaly threshold. "
 "The excess threshold and the configuration (q, level, mode flags, capacity) never change after calibration, and the counters stay exact for arbitrarily long streams.",
 ["inputs", "histories", "configurations"], "every operation history (init, fit, step, queries) and every configuration, including streams longer than 2^32 observations",
 "Tests never compare the detector before and after a step; an anomaly that leaks into the model or a counter that wraps is invisible to them.",
 ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c"],
 [m("early returns before any mutation", "src/spot.c:spot_step"), m("n/Nt increments", "src/spot.c:spot_step")],
 ["all public fields of struct Spot before/after each call"],
 [s("n", "observations seen without anomalies", "include/structs.h"), s("Nt", "excesses seen", "include/structs.h")])

prop("C03", "The tail keeps exactly the most recent max_excess excesses",
 "After any history following a calibration, the stored excesses are exactly the last min(number of excesses, max_excess) excesses that occurred in the training data and the stream, oldest evicted first, each equal to the distance of its observation from the excess threshold. "
 "The storage never grows beyond max_excess and nothing else is ever stored.",
 ["histories", "configurations", "inputs"], "every sequence of excess values and every capacity, through any number of wrap-arounds",
 "Tests push one wrap-around with a constant value and check only sizes or one erased value; content and order after wrap-around are not checked.",
 ["src/ubend.c", "src/peaks.c", "src/tail.c", "src/spot.c", "python/libspotmodule.c"],
 [m("circular cursor and filled flag", "src/ubend.c:ubend_push"), m("excess computation", "src/spot.c:spot_fit, spot_step")],
 ["Spot.tail.peaks.container", "ubend_push/ubend_size", "Python Spot.excesses()"],
 [s("cursor/filled/data", "ring buffer", "include/structs.h:struct Ubend")])

prop("C04", "Tail statistics always describe exactly the stored excesses",
 "At every moment the recorded sum, sum of squares, minimum and maximum of the excesses (and hence mean and variance) are those of the excesses currently stored, up to floating-point rounding at the magnitude of the stored values. "
 "This must hold through evictions of the minimum or maximum, duplicates, values of very different magnitudes and arbitrarily long streams (no drift).",
 ["histories", "inputs", "configurations"], "every sequence of pushed excesses, every capacity (including 1) and every eviction pattern",
 "Unit tests check mean and variance before any eviction, or mean while zeros are pushed; the sum of squares after an eviction of an extreme value is never checked.",
 ["src/peaks.c", "src/ubend.c"],
 [m("incremental update", "src/peaks.c:peaks_push"), m("recomputation when an extreme leaves", "src/peaks.c:peaks_update_stats")],
 ["Peaks.e, e2, min, max", "peaks_mean, peaks_var"],
 [s("e,e2,min,max", "summary of the stored excesses", "include/structs.h:struct Peaks")])

prop("C05", "Calibration derives all of the model from the training data alone",
 "A successful fit on finite data leaves an excess threshold lying between the smallest and largest training value, an observation count equal to the training size, an excess count equal to the number of training values strictly beyond that threshold, the last max_excess of those as stored tail, and a non-NaN anomaly threshold; nothing from an earlier fit or stream survives a new fit. "
 "If no usable excess threshold exists (including fewer than five training values) or no anomaly threshold can be computed, fit returns the corresponding error code rather than success.",
 ["inputs", "histories", "configurations"], "every training set up to the bound (all orders, ties, constants), every configuration and every earlier history of the same detector",
 "Tests fit large random samples on fresh detectors and check only the return code.",
 ["src/spot.c", "src/p2.c", "src/tail.c"],
 [m("threshold estimation then tail filling", "src/spot.c:spot_fit"), m("P2 markers", "src/p2.c")],
 ["spot_fit return value", "public fields after fit"])

prop("C06", "The excess threshold is the P2 estimate of the level quantile",
 "For at least five finite observations the quantile estimate follows the five-marker P2 recurrence (piecewise-parabolic adjustment with linear fallback), where an observation outside the current extremes only moves the corresponding end marker; it is exactly the median order statistic for five observations, always lies between the smallest and largest observation, and reordering, ties and sign never produce an invalid value. "
 "Over long data sets it approaches the quantile whatever their order (known not to hold on strictly monotone ramps, see known_findings.txt). "
 "Upper mode estimates the quantile at level, lower mode at one minus level.",
 ["inputs"], "every data set up to the bound over a small value alphabet (all arrangements and ties) and every probability in the list",
 "Tests compare seeded uniform/gaussian samples of 5000 values with a loose tolerance; small samples, ties and orderings are not covered.",
 ["src/p2.c", "src/spot.c"],
 [m("sort5", "src/p2.c"), m("marker update", "src/p2.c:quantile"), m("parabolic/linear", "src/p2.c")],
 ["p2_quantile", "Spot.excess_threshold after fit"])

prop("C07", "The fitted tail is a valid GPD and the best of the candidate estimates",
 "After every fit or excess, provided some stored excess is positive, the tail parameters are finite with a positive scale, every stored excess lies inside the support of the fitted Generalized Pareto tail, and its log-likelihood on the stored excesses is (up to numerical noise) at least that of the exponential tail, of the method-of-moments tail and of Grimshaw's maximum-likelihood candidates on the negative and (when every stored excess is positive) on the positive shape side. "
 "This holds whatever the unit in which the data are expressed.",
 ["inputs", "histories"], "every multiset of stored excesses up to the bound over the value alphabet, at many scales, reached through any history",
 "Tests fit four fixed large samples with 10-30% tolerances on the parameters; small, tied, zero or tiny-scale tails are not covered.",
 ["src/tail.c", "src/estimator.c", "src/peaks.c", "src/brent.c"],
 [m("estimator comparison by log-likelihood", "src/tail.c:tail_fit"), m("Grimshaw roots", "src/estimator.c:grimshaw_estimator"), m("method of moments", "src/estimator.c:mom_estimator"), m("log_likelihood", "src/peaks.c")],
 ["Spot.tail.gamma, Spot.tail.sigma", "tail_fit return value"])

prop("C08", "Quantile queries and the anomaly threshold follow the current tail model",
 "A quantile query for probability q returns the value whose tail probability under the current model is q: the excess threshold moved towards the monitored side by scale/shape*((q*n/Nt)^(-shape)-1), or by -scale*log(q*n/Nt) for zero shape; it moves monotonically outwards as q decreases. "
 "After every successful fit and every excess the anomaly threshold equals this query at the configured q, and it is unchanged by anything else.",
 ["inputs", "histories", "configurations"], "every reachable detector state up to the bound, every q in the grid, both tails",
 "Tests check quantiles of three large samples within 10% in upper mode right after a fit, when count of excesses and stored excesses coincide.",
 ["src/spot.c", "src/tail.c", "src/xmath.c"],
 [m("spot_quantile", "src/spot.c"), m("tail_quantile", "src/tail.c"), m("threshold refresh", "src/spot.c:spot_fit, spot_step")],
 ["spot_quantile", "Spot.anomaly_threshold"])

prop("C09", "Probability queries return the model tail probability, in [0,1]",
 "For any value at or beyond the excess threshold on the monitored side, the probability query returns Nt/n times the survival function of the fitted tail at the distance from the excess threshold: a number between 0 and 1, never NaN, equal to Nt/n at the threshold, non-increasing outwards, and 0 beyond the end point of a bounded tail. "
 "Probability and quantile queries are inverse of each other.",
 ["inputs", "histories", "configurations"], "every reachable detector state up to the bound, every query value on the grid from the threshold to 1e300 and infinity, both tails",
 "The only assertion of the probability test is commented out; far, bounded-tail and lower-mode queries are not tested.",
 ["src/spot.c", "src/tail.c", "src/xmath.c"],
 [m("spot_probability", "src/spot.c"), m("tail_probability", "src/tail.c")],
 ["spot_probability"])

prop("C10", "Logarithm, exponential and power are accurate on the whole double range",
 "The library's own logarithm, exponential and power agree with the mathematical functions (error at most 1e-10 relative to max(1,|log|) for the logarithm, 1e-12 relative for the exponential wherever the result is a normal number) for every finite double including subnormals and the largest numbers, with the mathematical limits at 0, infinities, NaN, overflow and underflow. "
 "Replacing the float decomposition helpers by the C library's leaves every result unchanged.",
 ["inputs"], "all 2047 binary exponents times a grid of mantissas for both signs, plus special values and all powers in the grid",
 "Tests check about 80 values each, all with |log|<20 and |x|<=12.",
 ["src/xmath.c", "include/xmath.h"],
 [m("continued fractions", "src/xmath.c"), m("frexp/ldexp from musl", "src/xmath.c"), m("range reduction", "src/xmath.c:xexp,xlog")],
 ["xlog, xexp, xpow", "set_float_utils"])

prop("C11", "The root search never leaves its bracket and never invents a root",
 "For every function, the root search only evaluates points of the given interval, stops after a bounded number of evaluations, and reports success only with an evaluated point that is an exact zero or that lies within the tolerance of a sign change it observed. "
 "It reports failure when the values at the two ends do not bracket a root (same strict sign, or not a number) or when the function becomes NaN at a point it needs, and it does find a root of a continuous function whose signs at the ends differ, or which vanishes at an end.",
 ["inputs", "fault_sequences"], "every sequence of function answers from a small alphabet of signs and magnitudes up to the depth bound (the function is an adversarial environment), then consistent completion",
 "Tests use six smooth functions with one root each.",
 ["src/brent.c", "include/brent.h"],
 [m("bracket maintenance", "src/brent.c:brent"), m("iteration cap", "src/brent.c")],
 ["brent return value and found flag", "evaluation points seen by the callback"])

prop("C12", "No call sequence makes the library touch memory it does not own",
 "For every sequence of init, fit, step, query, text and free calls with any argument values (any capacity including 0 and overflowing ones, any buffer size including 0, NaN, infinities and extreme numbers, failed allocations), every memory access stays inside the caller's buffers and the blocks obtained from the allocator, and no undefined behaviour occurs. "
 "Freeing a detector twice, or a detector whose initialisation failed for lack of memory, is harmless.",
 ["inputs", "histories", "fault_sequences"], "every call sequence up to the bound over the argument alphabet, with allocation failure at every point",
 "The test binaries run without sanitizers, on valid arguments only.",
 ["src/ubend.c", "src/spot.c", "src/p2.c", "src/peaks.c", "src/xmath.c", "src/allocator.c"],
 [m("capacity handling", "src/ubend.c:ubend_init, ubend_push"), m("bounded copy", "src/spot.c:strncpy"), m("null check before free", "src/ubend.c:ubend_free")],
 ["AddressSanitizer/UBSan reports on each explored execution", "guard zones around every buffer"])

prop("C13", "All memory comes from the user's allocators and is returned exactly once",
 "The library obtains memory only by calling the allocation function given to it, during initialisation, once per detector and for at least max_excess values, and returns each block exactly once through the free function currently set when the detector is freed; fit, step and queries never allocate. "
 "If no allocator is set or it returns null, initialisation reports the memory error and nothing is leaked or freed.",
 ["histories", "fault_sequences", "configurations"], "every lifecycle of up to three detectors up to the depth bound, with every subset of allocation requests failing and allocators switched between detectors",
 "The tests always pass malloc/free and never count or fail allocations.",
 ["src/allocator.c", "src/ubend.c", "src/spot.c"],
 [m("function pointers", "src/allocator.c"), m("error propagation", "src/ubend.c, src/peaks.c, src/tail.c, src/spot.c")],
 ["calls received by the supplied malloc/free", "spot_init return value"])

prop("C14", "Initialisation accepts exactly the valid parameters",
 "Initialisation succeeds only if 0 <= level < 1 and 0 < q < 1-level (so NaN is refused) and the tail memory could be reserved for at least one excess; otherwise it returns the error code of the offending parameter, level being examined before q and q before memory, and a call rejected for level or q leaves an existing detector unchanged. "
 "On success the detector has exactly the given configuration (any non-zero flag counts as one), zero counters, an empty tail, and NaN thresholds and tail parameters.",
 ["inputs", "configurations"], "every combination of boundary values, their neighbouring doubles, infinities, NaN and ordinary values for all five parameters, on fresh and on already used structures",
 "Tests try two valid and two invalid combinations.",
 ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c"],
 [m("range checks", "src/spot.c:spot_init")],
 ["spot_init return value", "public fields after init"])

prop("C15", "Detectors are independent, whatever the interleaving or thread schedule",
 "Operations on one detector never influence another: for every interleaving of operations on several detectors, in one thread or in concurrent threads each using its own detector, every result and every field equals that of the same operations run alone. "
 "No call other than the two global setters modifies state shared between detectors.",
 ["schedules", "histories"], "all interleavings of two operation scripts at call granularity, and all thread schedules with a bounded number of preemptions at basic-block granularity of the real code",
 "Every test uses a single detector in a single thread.",
 ["src/spot.c", "src/tail.c", "src/estimator.c", "src/brent.c", "src/p2.c", "src/peaks.c", "src/ubend.c", "src/xmath.c", "src/allocator.c"],
 [m("no static mutable state besides the function pointers", "src/*.c")],
 ["results and fields of each detector versus its solo run"])

prop("C16", "Results depend only on the configuration and the data, and are repeatable",
 "Running the same operations with the same parameters gives bit-identical results and fields whatever the previous content of the detector structure, of the memory supplied by the allocator, or earlier use of the library (including a detector that was used, freed and initialised again); quantile and probability queries never change the detector, so inserting them anywhere changes nothing.",
 ["histories", "configurations"], "every operation sequence up to the bound, for several initial memory contents, with queries inserted at every position",
 "Tests run each scenario once, on whatever memory they get.",
 ["src/spot.c", "src/tail.c", "src/peaks.c", "src/ubend.c", "src/p2.c", "src/xmath.c"],
 [m("full initialisation", "src/spot.c:spot_init, src/ubend.c:ubend_init"), m("const queries", "src/spot.c:spot_quantile, spot_probability")],
 ["all return values and fields, bit by bit"])

prop("C17", "Lower-tail monitoring is the exact mirror image of upper-tail monitoring",
 "A lower-tail detector fed with the negated data of an upper-tail detector whose calibrated excess threshold is the opposite one gives the same verdicts, the same stored excesses, counters and tail parameters, opposite thresholds and quantiles, and the same probabilities (queried at opposite values), after every history.",
 ["inputs", "histories", "configurations"], "every training set of five values and every stream up to the bound, both discard settings",
 "Only initialisation and one fit return code are tested in lower mode.",
 ["src/spot.c"],
 [m("sign factor", "src/spot.c:spot_init, spot_fit, spot_step, spot_quantile, spot_probability")],
 ["results and fields of the two detectors"])

prop("C18", "Text queries fill any buffer with a terminated prefix of the right text",
 "For every buffer size, the version, license and error-text queries write only inside the buffer, leave a NUL-terminated prefix of the full text, as long as fits, and zero the rest; a null buffer or a size of zero writes nothing. "
 "Each documented error code has its own non-empty message, and an unknown code leaves the buffer untouched.",
 ["inputs"], "every error code from 900 to 1100 plus extremes, every buffer size from 0 to 300, for the three text queries",
 "Tests print the messages into one 256-byte buffer and compare version and license in one 64-byte buffer.",
 ["src/spot.c", "include/spot.h"],
 [m("bounded copy", "src/spot.c:strncpy"), m("error table", "src/spot.c:errors")],
 ["buffer content and guard bytes"])

prop("C19", "The Python binding behaves exactly like the C library",
 "For every sequence of operations on Python detectors, every returned value, every attribute, the stored-excess list and the dictionary export equal those of the same operations on a C detector with the same parameters and documented defaults, whatever sequence type (list, tuple, array, iterator) carries the training data. "
 "The exported verdict constants are those returned by step.",
 ["inputs", "histories", "configurations"], "every operation sequence up to the bound over the argument alphabet, every combination of constructor keywords",
 "Python tests print attributes and assert one list length and three constants.",
 ["python/libspotmodule.c", "include/structs.h"],
 [m("argument parsing and defaults", "python/libspotmodule.c:Spot_init"), m("sequence conversion", "python/libspotmodule.c:Spot_fit"), m("member table", "python/libspotmodule.c:Spot_members"), m("dict export", "python/libspotmodule.c:*_as_dict")],
 ["Python return values and attributes versus a C detector"])

prop("C20", "Python misuse raises an exception, changes nothing and leaks nothing",
 "Whatever is passed to the Python constructor or methods (wrong types, non-numeric elements, out-of-range parameters, unusable training data, failing iterators, lack of memory), the call either succeeds or raises the matching Python exception; it never crashes the interpreter, never reports a result together with an error, and a call refused for the type or range of its arguments or for lack of memory leaves the detector as it was (unusable training data may leave it uncalibrated). "
 "Every detector, training buffer and list is released: repeated use, re-initialisation and destruction do not grow memory or reference counts.",
 ["inputs", "histories", "fault_sequences"], "every call with every argument of the alphabet from every state reached by short histories, with allocation failure injected at every allocation of the extension",
 "Python tests never pass an invalid argument and never look at memory.",
 ["python/libspotmodule.c"],
 [m("error checks", "python/libspotmodule.c:Spot_init, Spot_fit, Spot_step"), m("deallocation", "python/libspotmodule.c:Spot_dealloc")],
 ["exceptions, detector state, live allocation counts, reference counts"])

prop("C21", "The JavaScript binding on the 32-bit build behaves like the C library",
 "For every sequence of operations, the JavaScript detector running on the WebAssembly (32-bit) build returns the verdicts, quantiles, probabilities, anomaly and excess thresholds of the native C library with the same parameters and documented defaults, including training data given as a view into a larger buffer; version, error texts and verdict constants are those of the C library. "
 "Negative status codes surface as exceptions.",
 ["inputs", "histories", "configurations"], "every operation sequence up to the bound over the argument alphabet and constructor options, on the real TypeScript wrapper linked to a wasm32 build of the real C sources",
 "The wasm tests need emscripten and bun, are not in the stable suite, and run one random stream.",
 ["wasm/index.ts", "wasm/main.c", "include/structs.h", "src/spot.c"],
 [m("field offsets", "wasm/index.ts:anomaly_threshold, excess_threshold"), m("argument order and defaults", "wasm/index.ts:constructor"), m("struct layout", "include/structs.h")],
 ["JS return values versus native C traces"])

prop("C22", "The JavaScript binding owns its heap memory correctly",
 "For every sequence of constructions (valid or rejected), fits (successful or failing), steps and finalisations, the JavaScript binding never reads or writes wasm memory it did not allocate, frees each allocated block exactly once, and keeps nothing allocated once a call has failed or a detector has been finalised.",
 ["histories", "fault_sequences"], "every operation sequence up to the bound, with finalisation at every point",
 "Not tested.",
 ["wasm/index.ts", "wasm/main.c", "src/ubend.c"],
 [m("malloc/free around fit", "wasm/index.ts:fit"), m("finalization registry", "wasm/index.ts")],
 ["malloc/free calls and guard bytes of the instrumented wasm heap"])

prop("C23", "On stationary data the false alarm rate is about q",
 "On an independent identically distributed stream whose tail is in the Generalized Pareto domain of attraction, the long-run fraction of observations flagged as anomalies converges to about q.",
 ["inputs"], "almost every infinite stream of each distribution",
 "Statistical: tests sample one gaussian stream.",
 ["src/spot.c", "src/tail.c", "src/estimator.c"],
 [m("POT threshold", "src/spot.c")], ["rate of ANOMALY verdicts"])

prop("C24", "The C library is freestanding",
 "The library has no dependency on the C standard library or any other external symbol: it links with -nostdlib and needs only the functions supplied by its user.",
 ["configurations"], "every build of the library",
 "The build links with -nostdlib but shared objects tolerate undefined symbols.",
 ["Makefile", "src"], [m("own math, own strncpy, allocator pointers", "src/")], ["symbol table of the library"])

prop("C25", "Verdicts do not depend on the unit or the origin of the data",
 "Expressing all the data (training and stream) in another unit or from another origin does not change what the detector reports: multiplying every observation by the same power of two multiplies the thresholds, quantiles, stored excesses and tail scale by it, adding the same number to every observation adds it to the thresholds and quantiles, and in both cases the fit result, the verdicts, the counters, the tail shape and the probabilities stay the same, after every history (as long as the transformed data are exact and the squares of the excesses stay inside the range of doubles; tail models that the likelihood cannot tell apart are interchangeable).",
 ["inputs", "histories", "configurations"], "every history up to the bound in every unit of a list from 2^-300 to 2^300 and with every offset of a list",
 "Tests use data of order one, centred on zero.",
 ["src/spot.c", "src/tail.c", "src/estimator.c", "src/brent.c", "src/p2.c", "src/peaks.c"],
 [m("bounds and tolerance of the root search", "src/estimator.c:grimshaw_estimator"), m("marker update", "src/p2.c:quantile"), m("excess", "src/spot.c:spot_fit, spot_step")],
 ["results and fields of the two detectors"])

prop("C26", "Every call ends, within work and stack bounds free of the stream's length",
 "Every call of the library returns, whatever the data (infinities, NaN, subnormal and huge numbers, constant data) and the history. "
 "A step executes an amount of work at most proportional to the number of stored excesses, a query, an initialisation or a release a constant amount (or proportional to the capacity for the initialisation), and a fit at most proportional to the training size and the stored excesses, plus the refreshes of the statistics for the excesses that did not fit into the tail; none of it grows with the number of observations seen. "
 "No call needs more than a small constant amount of stack, whatever the capacity and the training size.",
 ["inputs", "histories", "configurations"], "every history and every training set up to the bound over alphabets with extreme values, every capacity up to the bound, streams of millions of observations",
 "Tests do not measure the cost of a call, and an endless loop on a rare input never happens on their three samples.",
 ["src/spot.c", "src/brent.c", "src/estimator.c", "src/peaks.c", "src/xmath.c", "src/p2.c"],
 [m("iteration cap", "src/brent.c:brent"), m("recomputation on eviction of an extreme", "src/peaks.c:peaks_push"), m("range reduction", "src/xmath.c")],
 ["basic blocks executed and stack depth reached by each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
