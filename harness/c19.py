"""C19: the Python binding behaves exactly like the C library."""
import array, collections, fractions, itertools, math, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import Runner, Violation
from pylib import ATTRS, EXT, REF, Ref, bits, error_text, libspot, poke, same
import ctypes

try:
    import numpy
except ImportError:
    numpy = None
R = Runner(sys.argv)
Spot = libspot.Spot
NAN, INF = float("nan"), float("inf")


def check(c, msg):
    if not c:
        raise Violation(msg)


def lcg(seed):
    s = seed * 2862933555777941757 + 3037000493 & (2**64 - 1)
    while True:
        s = s * 6364136223846793005 + 1442695040888963407 & (2**64 - 1)
        yield ((s >> 11) + 0.5) / 9007199254740992.0


def gauss(n, seed):
    g = lcg(seed)
    return [math.sqrt(-2 * math.log(next(g))) * math.cos(6.283185307179586 * next(g)) for _ in range(n)]


SETS = [[1, 2, 3, 4, 5], [3, -1, 4, 1, -5, 9, 2, 6, -5, 3, 5], gauss(60, 1), [0, 0, 1, 0, 2, 2, 0, 5, 0, 100, 1, 0, -7],
        [1e6, 3e6, 2.5e6, 7e6, 1.5e6, 2e6, 4.25e6, 9e5], [2e-7, 1e-7, 3e-7, 2.5e-7, 1.5e-7, 5e-7],
        [], [1.0, 2.0], [4.0] * 6, [1.0, NAN, 3.0, 2.0, 5.0, 4.0, 9.0], [NAN] * 5, [1.0, INF, 3.0, -INF, 5.0, 2.0]]


def compare(s, r, what, deep=False):
    for a, k in ATTRS:
        v = getattr(s, a)
        check(same(float(v), r.field(k)), "%s: attribute %s is %r in Python, %r in C" % (what, a, v, r.field(k)))
    check(type(s.n) is int and type(s.Nt) is int, "counters are not integers")
    e, f = s.excesses(), r.excesses()
    check(len(e) == len(f) and all(same(a, b) for a, b in zip(e, f)),
          "%s: excesses() is %r in Python, %r in C" % (what, e[:10], f[:10]))
    R.state(tuple(bits(r.field(k)) for k in (0, 1, 4, 5, 6, 7, 8, 9)), len(f))
    if deep:
        d = s.as_dict()
        check(set(d) == {"q", "level", "discard_anomalies", "low", "anomaly_threshold", "excess_threshold", "Nt", "n",
                         "tail"}, "%s: as_dict keys %r" % (what, sorted(d)))
        t = d["tail"]
        check(set(t) == {"gamma", "sigma", "peaks"}, "%s: tail keys %r" % (what, sorted(t)))
        p = t["peaks"]
        check(set(p) == {"e", "e2", "min", "max", "container"}, "%s: peaks keys %r" % (what, sorted(p)))
        u = p["container"]
        check(set(u) == {"cursor", "capacity", "last_erased_data", "filled", "data"},
              "%s: container keys %r" % (what, sorted(u)))
        for dd, k, i in ((d, "q", 0), (d, "level", 1), (d, "discard_anomalies", 2), (d, "low", 3),
                         (d, "anomaly_threshold", 4), (d, "excess_threshold", 5), (d, "Nt", 6), (d, "n", 7),
                         (t, "gamma", 8), (t, "sigma", 9), (p, "e", 10), (p, "e2", 11), (p, "min", 12), (p, "max", 13),
                         (u, "cursor", 14), (u, "capacity", 15), (u, "last_erased_data", 16), (u, "filled", 17)):
            check(same(float(dd[k]), r.field(i)), "%s: as_dict %s is %r, %r in C" % (what, k, dd[k], r.field(i)))
        check(len(u["data"]) == len(f) and all(same(a, b) for a, b in zip(u["data"], f)),
              "%s: as_dict data is %r, %r in C" % (what, u["data"][:10], f[:10]))
        check(len(s.raw()) == REF.ref_sizeof(), "%s: raw() has %d bytes" % (what, len(s.raw())))


def both_init(kw, q, what):
    """constructs both; returns (spot, ref) or (None, None) when both refuse"""
    r = Ref()
    code = r.init(q, **{k: int(v) if k != "level" else float(v) for k, v in kw.items()})
    R.trans += 1
    try:
        s = Spot(q, **kw)
    except RuntimeError as e:
        check(code < 0, "%s: refused in Python (%s), accepted in C" % (what, e))
        check(str(e) == error_text(code), "%s: Python message %r, C message %r" % (what, str(e), error_text(code)))
        r.close()
        return None, None
    check(code == 0, "%s: accepted in Python, refused in C (%d)" % (what, code))
    return s, r


def both_fit(s, r, data, values, what):
    code = r.fit(values)
    R.trans += 1
    try:
        v = s.fit(data)
    except RuntimeError as e:
        check(code < 0, "%s: fit refused in Python (%s), accepted in C" % (what, e))
        check(str(e) == error_text(code), "%s: Python message %r, C message %r" % (what, str(e), error_text(code)))
        return code
    check(code >= 0, "%s: fit accepted in Python, refused in C (%d)" % (what, code))
    check(v is None, "%s: fit returned %r" % (what, v))
    return code


def both_step(s, r, x, what):
    a, b = s.step(x), r.step(float(x))
    R.trans += 1
    R.log("step(%r) -> %r (C: %d)" % (x, a, b))
    check(type(a) is int and a == b, "%s: step(%r) is %r in Python, %d in C" % (what, x, a, b))
    q = r.field(0)
    a1, b1 = s.quantile(q), r.quantile(q)
    check(type(a1) is float and same(a1, b1), "%s: after step(%r) quantile(%r) is %r in Python, %r in C" % (what, x, q, a1, b1))
    return b


def both_query(s, r, x, what):
    for m in ("quantile", "probability"):
        a, b = getattr(s, m)(x), getattr(r, m)(float(x))
        R.trans += 1
        check(type(a) is float and same(a, b), "%s: %s(%r) is %r in Python, %r in C" % (what, m, x, a, b))


def resolve(r, sym):
    t, z, low = r.field(5), r.field(4), r.field(3) == 1
    sg = -1.0 if low else 1.0
    w = abs(z - t)
    if not (0 < w < INF):
        w = 1.0
    if not (t == t and abs(t) < INF):
        t = 0.0
    return {"NORM": t - sg * 3 * w, "T": t, "SMALL": t + sg * w / 32, "MID": t + sg * w / 2, "Z": z,
            "ZA": math.nextafter(z, sg * INF) if z == z else t + sg, "FAR": t + sg * 7 * w, "NAN": NAN, "INF": INF,
            "MINF": -INF, "INT": int(t + sg * w) if abs(t + sg * w) < 1e15 else 3, "BOOL": True,
            "FRAC": fractions.Fraction(int(t * 8) if abs(t) < 1e10 else 1, 8), "BIG": 10**300}[sym]


# --- constants and version
def consts(i):
    b = ctypes.create_string_buffer(64)
    REF.ref_version(b, 64)
    check(libspot.__version__ == b.value.decode(), "__version__ is %r, C says %r" % (libspot.__version__, b.value))
    check((libspot.NORMAL, libspot.EXCESS, libspot.ANOMALY) == (0, 1, 2), "verdict constants %r" %
          ((libspot.NORMAL, libspot.EXCESS, libspot.ANOMALY),))
    s = Spot(0.01, level=0.75)
    s.fit(SETS[1])
    check(s.step(s.anomaly_threshold + 1) == libspot.ANOMALY, "step beyond the anomaly threshold is not ANOMALY")
    check(s.step(s.excess_threshold) == libspot.EXCESS, "step at the excess threshold is not EXCESS")
    check(s.step(s.excess_threshold - 1) == libspot.NORMAL, "step below the excess threshold is not NORMAL")
    R.trans += 4
    R.traces += 1


R.add("constants and version", 1, consts)

# --- constructor keywords
ABS = object()
LOW = [ABS, 0, 1, True, -3]
DISC = [ABS, 0, 1, False, 7]
LEVEL = [ABS, 0.5, 0.9, 0, 0.995]
CAP = [ABS, 1, 3, 700, True]
QS = [1e-4, 0.01, 0.3]
combos = list(itertools.product(QS, LOW, DISC, LEVEL, CAP))


def ctor(i):
    q, low, disc, lev, cap = combos[i]
    kw = {k: v for k, v in (("low", low), ("discard_anomalies", disc), ("level", lev), ("max_excess", cap)) if v is not ABS}
    what = "Spot(%r, %s)" % (q, ", ".join("%s=%r" % x for x in kw.items()))
    R.log(what)
    s, r = both_init(kw, q, what)
    R.traces += 1
    if s is None:
        return
    compare(s, r, what, True)
    data = gauss(80, i % 7)
    both_fit(s, r, data, data, what)
    compare(s, r, what + " after fit", True)
    for sym in ("SMALL", "MID", "ZA", "T", "NORM", "NAN", "MID", "FAR", "SMALL", "MID"):
        both_step(s, r, resolve(r, sym), what)
        compare(s, r, what)
    both_query(s, r, 1e-3, what)
    both_query(s, r, resolve(r, "MID"), what)
    compare(s, r, what, True)
    # the same by keyword
    s2 = Spot(q=q, **kw)
    s2.fit(data)
    r2 = Ref()
    r2.init(q, **{k: int(v) if k != "level" else float(v) for k, v in kw.items()})
    r2.fit(data)
    compare(s2, r2, what + " (q by keyword)", True)
    r.close()
    r2.close()


R.add("all combinations of %d q x low x discard_anomalies x level x max_excess (absent or 4 values each)" % len(QS),
      len(combos), ctor)


# --- carriers of the training data
class Seq:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __getitem__(self, i):
        return self.d[i]


class It:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)


class F:
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return float(self.x)


class Fl(float):
    pass


CARR = {"list": list, "tuple": tuple, "array": lambda d: array.array("d", d), "generator": lambda d: (x for x in d),
        "iterator": iter, "deque": collections.deque, "sequence object": Seq, "iterable object": It,
        "memoryview": lambda d: memoryview(array.array("d", d)), "objects with __float__": lambda d: [F(x) for x in d],
        "float subclass": lambda d: [Fl(x) for x in d], "dict values": lambda d: dict(enumerate(d)).values(),
        "map": lambda d: map(float, d), "list subclass": lambda d: type("L", (list,), {})(d)}
if numpy is not None:
    CARR["numpy array"] = lambda d: numpy.array(d, dtype=float)
    CARR["list of numpy.float64"] = lambda d: list(numpy.array(d, dtype=float))
    CARR["strided numpy array"] = lambda d: numpy.repeat(numpy.array(d, dtype=float), 2)[::2]
CN = list(CARR)
CFG = [dict(level=0.75, max_excess=3), dict(level=0.75, max_excess=5, low=1), dict(level=0.5, discard_anomalies=0, max_excess=1),
       dict(level=0.9, low=1, discard_anomalies=0)]


def carr(i):
    i, c = divmod(i, len(CN))
    k, n = divmod(i, len(SETS))
    d = [float(x) for x in SETS[n]]
    what = "fit(%s of %d values)" % (CN[c], len(d))
    R.log(what)
    s, r = both_init(CFG[k], 0.01, what)
    both_fit(s, r, CARR[CN[c]](d), d, what)
    compare(s, r, what, True)
    for sym in ("MID", "ZA", "SMALL"):
        both_step(s, r, resolve(r, sym), what)
    compare(s, r, what, True)
    r.close()
    R.traces += 1


R.add("%d carriers of the training data x %d data sets x %d configurations" % (len(CN), len(SETS), len(CFG)),
      len(CN) * len(SETS) * len(CFG), carr)


def ints(i):
    for d in ([1, 2, 3, 4, 5, 6, 2], range(20), b"\x01\x09\x03\x02\x08\x07", [True, 2, 3.5, fractions.Fraction(1, 3), -1],
              [-1, -1.0, -1, 4, 5, -1], [10**20, 1, 2, 3, 2**70], [2**63, 2**63 - 1, 2**64, 2**53 + 1, 5, 2**31],
              [-2**63, -2**64, -2**63 - 1, 4, 10**300, -7]):
        s, r = both_init(CFG[i % 4], 0.01, "ints")
        both_fit(s, r, d, [float(x) for x in d], "fit(%r)" % (d,))
        compare(s, r, "fit(%r)" % (d,), True)
        for x in (3, -1, -1.0, True, fractions.Fraction(7, 2), 10**18, 0, 5, 2**31, 2**53 + 1, 2**63 - 1, 2**63,
                  -2**63, -2**63 - 1, 2**64 + 3, -2**70, 10**300, -10**300):
            both_step(s, r, x, "fit(%r)" % (d,))
            both_query(s, r, x, "fit(%r)" % (d,))
            compare(s, r, "step(%r)" % (x,), True)
        r.close()
    R.traces += 1


R.add("integers, booleans, fractions and -1 (the error sentinel) as data", 4, ints)

# --- operation sequences
OPS = ["MID", "SMALL", "ZA", "Z", "T", "NORM", "NAN", "INF", "FAR", "INT", "FIT1", "FIT3", "BADFIT", "QUERY", "REINIT", "DICT"]


def sequences(i, depth, ops, cfgs):
    n = len(ops)
    i, first = divmod(i, n)
    i, second = divmod(i, n)
    kw = cfgs[i]
    for tail in itertools.product(ops, repeat=depth - 2):
        seq = (ops[first], ops[second]) + tail
        what = "Spot(0.01, %r) fit %s" % (kw, " ".join(seq))
        if R.logging:
            del R.logtext[:]
            R.log(what)
        s, r = both_init(kw, 0.01, what)
        both_fit(s, r, SETS[1], SETS[1], what)
        for o in seq:
            if o == "FIT1":
                both_fit(s, r, tuple(SETS[3]), SETS[3], what)
            elif o == "FIT3":
                both_fit(s, r, array.array("d", SETS[2]), SETS[2], what)
            elif o == "BADFIT":
                both_fit(s, r, [1.0, 2.0], [1.0, 2.0], what)
            elif o == "QUERY":
                both_query(s, r, 1e-3, what)
                both_query(s, r, resolve(r, "MID"), what)
            elif o == "DICT":
                compare(s, r, what, True)
            elif o == "REINIT":
                s.__init__(0.02, level=0.7, max_excess=4)
                r.init(0.02, level=0.7, max_excess=4)
                R.trans += 1
            else:
                both_step(s, r, resolve(r, o), what)
            compare(s, r, what)
        compare(s, r, what, True)
        r.close()
        R.traces += 1


DEPTH = 5 if R.thorough else 4
R.add("all sequences of %d operations over %d x %d configurations" % (DEPTH - 1, len(OPS), len(CFG)), len(OPS)**2 * len(CFG),
      lambda i: sequences(i, DEPTH - 1, OPS, CFG))
RED = ["MID", "ZA", "SMALL", "NORM", "FIT1", "QUERY"]
RD = 7 if R.thorough else 5
R.add("all sequences of %d operations over %d x 2 configurations" % (RD, len(RED)), len(RED)**2 * 2,
      lambda i: sequences(i, RD, RED, CFG[:2]))
# two detectors at once, and a subclass


class Sub(Spot):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.tag = 1


def multi(i):
    what = "two Python detectors and a subclass"
    a, ra = both_init(CFG[i], 0.01, what)
    b, rb = both_init(CFG[(i + 1) % 4], 0.002, what)
    c = Sub(0.01, **CFG[i])
    rc = Ref()
    rc.init(0.01, **CFG[i])
    for s, r, d in ((a, ra, SETS[1]), (b, rb, SETS[2]), (c, rc, SETS[3])):
        both_fit(s, r, d, d, what)
    for sym in OPS[:10] * 4:
        for s, r in ((a, ra), (b, rb), (c, rc)):
            both_step(s, r, resolve(r, sym), what)
            compare(s, r, what)
    for s, r in ((a, ra), (b, rb), (c, rc)):
        compare(s, r, what, True)
        r.close()
    R.traces += 1


R.add("several Python detectors alive", 4, multi)


def long(i):
    cap = 1 + i // 2
    low = i % 2
    what = "long stream, max_excess=%d low=%d" % (cap, low)
    s, r = both_init(dict(level=0.9, max_excess=cap, low=low), 1e-3, what)
    d = gauss(100, 3)
    both_fit(s, r, d, d, what)
    for k, x in enumerate(gauss(cap + 60, cap + 5)):
        both_step(s, r, resolve(r, "T") + (-1 if low else 1) * abs(x), what)
        compare(s, r, what, k % 16 == 0)
    compare(s, r, what, True)
    r.close()
    R.traces += 1


R.add("long streams: every max_excess 1..80 x tails", 160, long)


# --- counters of very long histories: the state a stream of that length leaves, written into both detectors
COUNTS = sorted({c for k in (8, 15, 16, 24, 31, 32, 33, 40, 48, 52, 53, 60, 62, 63) for c in (2**k - 1, 2**k, 2**k + 1)} | {10**6, 10**9, 10**10, 2**64 - 10})


def counters(i):
    n = COUNTS[i // 4]
    kw = CFG[i % 4]
    what = "Spot(0.01, %r) after %d observations" % (kw, n)
    R.log(what)
    for nt in sorted({min(n, 40), n // 1000 + 1, n // 50 + 1, n // 3 + 1}):
        s, r = both_init(kw, 0.01, what)
        both_fit(s, r, SETS[1], SETS[1], what)
        if not poke(s, r, n, nt):
            R.aux["counters_not_reachable"] = R.aux.get("counters_not_reachable", 0) + 1
            return

        def exact(w):
            want = (REF.ref_counter(r.p, 7), REF.ref_counter(r.p, 6))
            d = s.as_dict()
            check((s.n, s.Nt) == want, "%s: n, Nt are %r in Python, %r in C" % (w, (s.n, s.Nt), want))
            check((d["n"], d["Nt"]) == want, "%s: as_dict has n, Nt = %r, %r in C" % (w, (d["n"], d["Nt"]), want))

        exact(what)
        compare(s, r, what, True)
        for o in ("NORM", "MID", "ZA", "SMALL", "T", "NORM", "NAN", "FAR"):
            both_step(s, r, resolve(r, o), what)
            both_query(s, r, 1e-3, what)
            both_query(s, r, resolve(r, "MID"), what)
            exact("%s and %s" % (what, o))
            compare(s, r, what, True)
        r.close()
        R.traces += 1


R.add("counters of very long histories: %d lengths x 4 excess ratios x 4 configurations" % len(COUNTS), len(COUNTS) * 4, counters)


# --- large tails: the default capacity is reached and wrapped, large capacities are exported in full
def large(i):
    cap = (None, 499, 500, 501, 1000, 2047, 5000)[i // 2 % 7]
    low = i % 2
    ties = i // 14
    what = "large tail, max_excess=%r low=%d%s" % (cap, low, ", all stored values equal" if ties == 1 else ", many ties" if ties else "")
    kw = dict(level=0.9, low=low, discard_anomalies=0)
    if cap is not None:
        kw["max_excess"] = cap
    s, r = both_init(kw, 1e-3, what)
    d = gauss(3000, 3)
    both_fit(s, r, d, d, what)
    compare(s, r, what, True)
    m = cap or 500
    for k, x in enumerate(gauss(m + 20, i + 5)):
        x = 0.5 if ties == 1 else round(2 * x) / 2 if ties else x
        both_step(s, r, resolve(r, "T") + (-1 if low else 1) * abs(x), what)
        if k % 97 == 0 or k > m - 10:
            compare(s, r, what, True)
    r.close()
    R.traces += 1


R.add("large tails: default and 6 large capacities, filled and wrapped, x tails x distinct, equal, tied", 42, large)


# --- large training sets
SIZES = [1000, 4096, 4097, 16383, 16384, 16385, 20000, 32769, 65535, 65536, 65537, 70001, 131075]
LC = ["list", "tuple", "array", "generator", "numpy array"]
LC = [c for c in LC if c in CARR]


def bigfit(i):
    i, c = divmod(i, len(LC))
    i, n = divmod(i, len(SIZES))
    what = "fit(%s of %d values)" % (LC[c], SIZES[n])
    R.log(what)
    d = gauss(SIZES[n], 7)
    s, r = both_init(CFG[i], 0.01, what)
    both_fit(s, r, CARR[LC[c]](d), d, what)
    compare(s, r, what, True)
    for sym in ("MID", "ZA", "SMALL"):
        both_step(s, r, resolve(r, sym), what)
    compare(s, r, what, True)
    r.close()
    R.traces += 1


# --- windows of more than 65536 stored excesses, filled by the calibration and by observations
def hugewin(i):
    low, cap = i % 2, (65535, 65536, 65537, 70000, 200000)[i // 2]
    what = "max_excess=%d low=%d" % (cap, low)
    R.log(what)
    d = gauss(150000, 13)
    s, r = both_init(dict(level=0.25, low=low, max_excess=cap, discard_anomalies=0), 1e-3, what)
    both_fit(s, r, d, d, what)
    compare(s, r, what, True)
    for sym in ("MID", "SMALL", "T"):
        both_step(s, r, resolve(r, sym), what)
    compare(s, r, what, True)
    r.close()
    R.traces += 1


R.add("windows of 65535 to 200000 excesses x tails", 10, hugewin)
R.add("large training sets: %d sizes x %d carriers x 2 configurations" % (len(SIZES), len(LC)), len(SIZES) * len(LC) * 2, bigfit)


# --- capacities beyond 32 bits: granted (address space only) or refused, as in C
CAPS = [2**27 - 1, 2**31 - 1, 2**31, 2**31 + 3, 2**32 - 1, 2**32, 2**32 + 1, 2**32 + 3, 2**33 + 1, 2**36 + 7, 2**37 + 1,
        2**40, 2**53 + 1, 2**60, 2**61 - 1, 2**61, 2**61 + 1, 2**62, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]


def capacities(i):
    cap, low = CAPS[i // 2], i % 2
    what = "max_excess=%d low=%d" % (cap, low)
    s, r = both_init(dict(level=0.9, low=low, max_excess=cap), 1e-3, what)
    R.log(what + (" refused" if s is None else " accepted"))
    if s is not None:
        d = gauss(200, 11)
        both_fit(s, r, d, d, what)
        for k, x in enumerate(gauss(30, i + 5)):
            both_step(s, r, resolve(r, "T") + (-1 if low else 1) * abs(x), what)
        compare(s, r, what, True)
        r.close()
    R.traces += 1


R.add("capacities up to 2^64-1: %d values x tails" % len(CAPS), 2 * len(CAPS), capacities)
R.main()
