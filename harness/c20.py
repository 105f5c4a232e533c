"""C20: Python misuse raises the matching exception, changes nothing, leaks nothing."""
import array, gc, itertools, math, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pymc import Runner, Violation
from pylib import ATTRS, EXT, REF, Ref, bits, error_text, libspot, same, spot_state

try:
    import _testcapi
    SET, UNSET = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
except (ImportError, AttributeError):
    SET = UNSET = None
R = Runner(sys.argv)
Spot = libspot.Spot
NAN, INF = float("nan"), float("inf")
gc.disable()


def check(c, msg):
    if not c:
        raise Violation(msg)


class Boom(Exception):
    pass


class FRaise:
    def __float__(self):
        raise Boom("float")


class FStr:
    def __float__(self):
        return "3"


class FNone:
    def __float__(self):
        return None


class FOk:
    def __init__(self, x):
        self.x = x

    def __float__(self):
        return self.x


class IRaise:
    def __index__(self):
        raise Boom("index")

    def __float__(self):
        raise Boom("float")


class IterRaise:
    def __init__(self, at):
        self.at = at

    def __iter__(self):
        for i in range(self.at):
            yield float(i)
        raise Boom("iter")


class NoIter:
    def __iter__(self):
        raise Boom("no iter")


class BadIter:
    def __iter__(self):
        return 3


class LenRaise:
    def __len__(self):
        raise Boom("len")

    def __iter__(self):  # (whether the length is asked first is not specified)
        raise Boom("iter")


class LenHuge:
    def __length_hint__(self):
        return -5

    def __iter__(self):  # (whether the hint is asked first is not specified)
        raise ValueError


class LenLie:
    """announces one length, delivers another"""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= 7:
            raise IndexError
        return [1.0, 5.0, 2.0, 8.0, 3.0, 9.0, 4.0][i]


class ItemRaise:
    def __len__(self):
        return 6

    def __getitem__(self, i):
        if i == 4:
            raise Boom("item")
        if i >= 6:
            raise IndexError
        return float(i)


GOOD = [3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0, 6.0, -5.5, 3.5, 5.0]
BADNUM = {"None": None, "str": "1.5", "empty str": "", "bytes": b"1", "complex": 1j, "list": [1.0], "object": object(),
          "class": float, "huge int": 10**400, "-huge int": -10**400, "raising __float__": FRaise(),
          "str from __float__": FStr(), "None from __float__": FNone(), "raising __index__": IRaise(), "dict": {},
          "detector": None}
OKNUM = {"-1.0": -1.0, "-1": -1, "0": 0, "True": True, "nan": NAN, "inf": INF, "-inf": -INF, "1e308": 1e308,
         "object with __float__": FOk(7.5), "object with __float__ -1": FOk(-1.0), "5e-324": 5e-324, "7": 7}


def conv(x):
    """(value, None) or (None, exception type): how a Python number becomes a double"""
    try:
        return array.array("d", [x])[0], None
    except Exception as e:
        return None, type(e)


# --- calls: name -> (kind, payload)
CALLS = {}
for m in ("step", "quantile", "probability"):
    for k, v in list(BADNUM.items()) + list(OKNUM.items()):
        CALLS["%s(%s)" % (m, k)] = ("num", m, v if k != "detector" else "SELF")
FITS = {
    "good list": lambda: list(GOOD), "good tuple": lambda: tuple(GOOD), "good generator": lambda: (x for x in GOOD),
    "empty": lambda: [], "too short": lambda: [1.0, 2.0], "one": lambda: (4,), "constant": lambda: [4.0] * 8,
    "all nan": lambda: [NAN] * 7, "infinities": lambda: [INF, -INF] * 5, "None": lambda: None, "int": lambda: 5,
    "float": lambda: 2.5, "object": lambda: object(), "str": lambda: "12345", "empty str": lambda: "", "bytes": lambda: b"12345678",
    "dict": lambda: {1.0: 2, 3.0: 4, 5: 6, 7: 8, 9: 1, 2: 2}, "set": lambda: {1.0, 2.0, 3.0, 4.0, 5.0, 6.0}, "range": lambda: range(10),
    "type": lambda: float, "nested": lambda: [[1.0], [2.0]], "None inside": lambda: [1.0, None, 2.0], "str first": lambda: ["a"] + GOOD,
    "str last": lambda: GOOD + ["a"], "str after -1": lambda: [-1.0, "a"], "-1 inside": lambda: [1.0, -1.0, 5.0, -1.0, 7.0, 2.0],
    "complex inside": lambda: [1.0, 2j], "huge int inside": lambda: GOOD + [10**400], "raising __float__ inside": lambda: [1.0, FRaise(), 3.0],
    "str from __float__ inside": lambda: [1.0, 2.0, FStr()], "raising __index__ inside": lambda: [IRaise()],
    "iterator failing at 0": lambda: IterRaise(0), "iterator failing at 3": lambda: IterRaise(3),
    "iterator failing at 30": lambda: IterRaise(30), "raising __iter__": lambda: NoIter(), "bad __iter__": lambda: BadIter(),
    "raising __len__": lambda: LenRaise(), "negative length hint": lambda: LenHuge(), "longer than announced": lambda: LenLie(3),
    "shorter than announced": lambda: LenLie(300), "raising __getitem__": lambda: ItemRaise(), "int array": lambda: array.array("i", [1, 5, 2, 8, 3]),
    "objects": lambda: [FOk(x) for x in GOOD], "bytearray": lambda: bytearray(b"abcdefgh"), "unicode array": lambda: array.array("u", "abcdefg"),
    "infinite generator failing late": lambda: IterRaise(2000), "detector": lambda: "SELF", "map of float over junk": lambda: map(float, ["1", "x"]),
    "memoryview": lambda: memoryview(b"abcdefgh"),
}
for k, f in FITS.items():
    CALLS["fit(%s)" % k] = ("fit", f)
INIT_OK = dict(q=0.01, level=0.75, max_excess=4)
INITS = {"valid": ((0.02,), dict(level=0.5, max_excess=3)), "valid keywords": ((), dict(q=0.02, low=1, discard_anomalies=0)),
         "no q": ((), {}), "None q": ((None,), {}), "str q": (("0.1",), {}), "complex q": ((1j,), {}), "huge int q": ((10**400,), {}),
         "raising q": ((FRaise(),), {}), "str from __float__ q": ((FStr(),), {}), "-1 q": ((-1.0,), {}), "-1 from object q": ((FOk(-1.0),), {}),
         "list q": (([0.1],), {}), "dict q": (({},), {}), "positional low": ((0.01, 1), {}), "all positional": ((0.01, 0, 1, 0.98, 500), {}),
         "too many": ((1, 2, 3, 4, 5, 6, 7), {}), "unknown keyword": ((0.01,), {"foo": 1}), "q twice": ((0.01,), {"q": 0.01}),
         "q=0": ((0.0,), {}), "q=1": ((1.0,), {}), "q nan": ((NAN,), {}), "q inf": ((INF,), {}), "q=1-level": ((0.5,), dict(level=0.5)),
         "level 1": ((0.01,), dict(level=1)), "level nan": ((0.01,), dict(level=NAN)), "level -1": ((0.01,), dict(level=-1.0)),
         "level str": ((0.01,), dict(level="0.9")), "level None": ((0.01,), dict(level=None)), "level huge": ((0.01,), dict(level=10**400)),
         "level raising": ((0.01,), dict(level=FRaise())), "low str": ((0.01,), dict(low="1")), "low None": ((0.01,), dict(low=None)),
         "low float": ((0.01,), dict(low=1.0)), "low 2**40": ((0.01,), dict(low=2**40)), "low -2**40": ((0.01,), dict(low=-2**40)),
         "low raising": ((0.01,), dict(low=IRaise())), "discard str": ((0.01,), dict(discard_anomalies="1")),
         "discard 2**31": ((0.01,), dict(discard_anomalies=2**31)), "discard float": ((0.01,), dict(discard_anomalies=0.5)),
         "max_excess 0": ((0.01,), dict(max_excess=0)), "max_excess -1": ((0.01,), dict(max_excess=-1)),
         "max_excess 2**62": ((0.01,), dict(max_excess=2**62)), "max_excess 2**61": ((0.01,), dict(max_excess=2**61)),
         "max_excess 2**64-1": ((0.01,), dict(max_excess=2**64 - 1)), "max_excess 2**45": ((0.01,), dict(max_excess=2**45)),
         "max_excess str": ((0.01,), dict(max_excess="4")), "max_excess None": ((0.01,), dict(max_excess=None)),
         "max_excess float": ((0.01,), dict(max_excess=4.0)), "max_excess raising": ((0.01,), dict(max_excess=IRaise())),
         "level bad and max_excess bad": ((0.01,), dict(level=2.0, max_excess=0)), "q bad and max_excess str": ((5.0,), dict(max_excess="x"))}
for k, v in INITS.items():
    CALLS["init(%s)" % k] = ("init",) + v
for m in ("fit", "step", "quantile", "probability"):
    CALLS[m + "()"] = ("type", lambda s, m=m: getattr(s, m)())
    CALLS[m + "(two)"] = ("type", lambda s, m=m: getattr(s, m)(GOOD, 1))
    CALLS[m + "(keyword)"] = ("type", lambda s, m=m: getattr(s, m)(x=1.0))
    CALLS["Spot.%s(not a detector)" % m] = ("type", lambda s, m=m: getattr(Spot, m)(3.0, 4.0))
for m in ("raw", "excesses", "as_dict"):
    CALLS[m + "()"] = ("look", m)
    CALLS[m + "(arg)"] = ("type", lambda s, m=m: getattr(s, m)(1))
    CALLS["Spot.%s(not a detector)" % m] = ("type", lambda s, m=m: getattr(Spot, m)([]))
for a, _ in ATTRS:
    CALLS["set " + a] = ("attr", lambda s, a=a: setattr(s, a, 1.0))
    CALLS["del " + a] = ("attr", lambda s, a=a: delattr(s, a))
CALLS["Spot.__init__(not a detector)"] = ("type", lambda s: Spot.__init__(3.0, 0.1))
CALLS["Spot.__new__(wrong)"] = ("type", lambda s: Spot.__new__(int))
NAMES = list(CALLS)


def init_expect(args, kw):
    """set of acceptable exception types, C status, or None when Python refuses to parse"""
    if len(args) > 1 or set(kw) - {"q", "low", "discard_anomalies", "level", "max_excess"}:
        return (TypeError,), None
    if len(args) + ("q" in kw) != 1:
        return (TypeError,), None
    p = dict(kw)
    if args:
        p["q"] = args[0]
    exc = []
    vals = dict(low=0, discard_anomalies=1, level=0.98, max_excess=500)
    for k in ("q", "low", "discard_anomalies", "level", "max_excess"):
        if k not in p:
            continue
        if k in ("q", "level"):
            v, e = conv(p[k])
            if e:
                exc.append(e)
            else:
                vals[k] = v
        else:
            v = p[k]
            if hasattr(type(v), "__index__"):
                try:
                    v = v.__index__()
                except Exception as e:
                    exc.append(type(e))
                    exc.append(TypeError)
                    continue
                if k == "max_excess":
                    if v < 0:
                        # a negative size: whichever way it is refused
                        return (RuntimeError, OverflowError, ValueError, MemoryError), None
                elif not -2**31 <= v < 2**31:
                    exc.append(OverflowError)
                    continue
                vals[k] = v
            else:
                exc.append(TypeError)
    if exc:
        return tuple(exc), None
    r = Ref()
    q = vals.pop("q")
    code = REF.ref_init(r.p, q, vals["low"], vals["discard_anomalies"], vals["level"], vals["max_excess"]) \
        if vals["max_excess"] < 2**40 else (-1001 if not 0 <= vals["level"] < 1 else -1002 if not 0 < q < 1 - vals["level"] else -1000)
    r.close()
    if code < 0:
        return (RuntimeError, MemoryError) if code == -1000 else (RuntimeError,), code
    return None, dict(q=q, **vals)


def fit_expect(data, s):
    """(exception types or None, values)"""
    try:
        seq = list(data)
    except Exception as e:
        return (type(e),), None
    vals = []
    for x in seq:
        v, e = conv(x)
        if e:
            return (e,), None
        vals.append(v)
    return None, vals


class Pair:
    """a Python detector and the C detector that must mirror it"""

    def __init__(self, kind):
        self.r = Ref()
        if kind == "uninitialised":
            self.s = Spot.__new__(Spot)
            self.r.close()
            self.r = None  # no C counterpart: only refusals are judged until init
        else:
            self.s = (Sub if kind == "subclass" else Spot)(**INIT_OK)
            self.r.init(**INIT_OK)
            if kind in ("fitted", "full", "reinit", "subclass"):
                self.s.fit(GOOD)
                self.r.fit(GOOD)
            if kind == "full":
                for k in range(6):
                    x = self.s.excess_threshold + 0.25 * k
                    self.s.step(x)
                    self.r.step(x)
            if kind == "failedfit":
                try:
                    self.s.fit([1.0, 2.0])
                except RuntimeError:
                    pass
                self.r.fit([1.0, 2.0])
            if kind == "reinit":
                self.s.__init__(0.05, low=1, level=0.5, max_excess=2)
                self.r.init(0.05, low=1, level=0.5, max_excess=2)

    def close(self):
        if self.r:
            self.r.close()
        self.s = None


class Sub(Spot):
    pass


KINDS = ["uninitialised", "initialised", "fitted", "full", "failedfit", "reinit", "subclass"]


def mirror(p, what):
    s, r = p.s, p.r
    if r is None:
        return
    for a, k in ATTRS:
        check(same(float(getattr(s, a)), r.field(k)), "%s: attribute %s is %r, %r in C" % (what, a, getattr(s, a), r.field(k)))
    e, f = s.excesses(), r.excesses()
    check(len(e) == len(f) and all(same(a, b) for a, b in zip(e, f)), "%s: excesses differ from C" % what)


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, e


def perform(p, name, what):
    """one call on the pair, judged"""
    c = CALLS[name]
    s = p.s
    before = spot_state(s)
    live = EXT.vf_live()
    R.trans += 1
    keep = True  # the detector must be unchanged
    if c[0] == "num":
        arg = s if isinstance(c[2], str) and c[2] == "SELF" else c[2]
        v, exp = conv(arg)
        res, e = attempt(lambda: getattr(s, c[1])(arg))
        if exp:
            check(e is not None, "%s: returned %r, expected %s" % (what, res, exp.__name__))
            check(type(e) is exp, "%s: raised %s(%s), expected %s" % (what, type(e).__name__, e, exp.__name__))
        else:
            check(e is None, "%s: raised %r" % (what, e))
            if p.r is not None:
                w = getattr(p.r, c[1])(v)
                check(same(float(res), float(w)), "%s: returned %r, C gives %r" % (what, res, w))
            keep = c[1] != "step"
    elif c[0] == "fit":
        d, d2 = c[1](), c[1]()
        if isinstance(d, str) and d == "SELF":
            d = d2 = s
        exp, vals = fit_expect(d2, s)
        res, e = attempt(lambda: s.fit(d))
        if exp:
            check(e is not None, "%s: accepted, expected %s" % (what, exp[0].__name__))
            check(type(e) in exp, "%s: raised %s(%s), expected %s" % (what, type(e).__name__, e, exp[0].__name__))
        else:
            keep = False
            if p.r is not None:
                code = p.r.fit(vals)
                if code < 0:
                    check(isinstance(e, RuntimeError), "%s: gave %r %r, C refuses with %d" % (what, res, e, code))
                    check(str(e) == error_text(code), "%s: message %r, C says %r" % (what, str(e), error_text(code)))
                else:
                    check(e is None and res is None, "%s: gave %r %r, C accepts" % (what, res, e))
            else:
                check(e is None or isinstance(e, RuntimeError), "%s: raised %r" % (what, e))
    elif c[0] == "init":
        exp, info = init_expect(c[1], c[2])
        res, e = attempt(lambda: s.__init__(*c[1], **c[2]))
        if exp:
            check(e is not None, "%s: accepted, expected %s" % (what, exp[0].__name__))
            check(type(e) in exp, "%s: raised %s(%s), expected %s" % (what, type(e).__name__, e, exp[0].__name__))
            if info is not None and type(e) is RuntimeError:
                check(str(e) == error_text(info), "%s: message %r, C says %r" % (what, str(e), error_text(info)))
        else:
            check(e is None, "%s: raised %r" % (what, e))
            keep = False
            if p.r is None:
                p.r = Ref()
                live += 1
            p.r.init(**info)
    elif c[0] == "look":
        res, e = attempt(lambda: getattr(s, c[1])())
        check(e is None, "%s: raised %r" % (what, e))
    else:
        res, e = attempt(lambda: c[1](s))
        want = (TypeError,) if c[0] == "type" else (AttributeError, TypeError)
        check(isinstance(e, want), "%s: gave %r %r, expected %s" % (what, res, e, want[0].__name__))
    R.log("%s -> %s" % (name, "%s(%s)" % (type(e).__name__, e) if e is not None else repr(res)[:80]))
    if keep:
        check(spot_state(s) == before, "%s: the detector has changed" % what)
    e = res = None
    check(live == EXT.vf_live(), "%s: %d blocks held before, %d after" % (what, live, EXT.vf_live()))
    check(EXT.vf_bad() == 0, "%s: the extension wrote outside a block or freed a wrong address" % what)
    mirror(p, what)
    R.state(name if p.r is None else spot_state(s)[:2])


base_live = EXT.vf_live()


def after(p, what):
    """the detector still works like a C one, and goes away without a trace"""
    s = p.s
    if p.r is not None:
        a, e = attempt(lambda: s.fit(GOOD))
        code = p.r.fit(GOOD)
        check((e is None) == (code >= 0), "%s: a good fit afterwards gives %r" % (what, e))
        for x in (4.0, 9.5, 5.5, -7.0, 20.0):
            a, b = s.step(x), p.r.step(x)
            check(a == b, "%s: step(%r) afterwards is %r, %r in C" % (what, x, a, b))
        mirror(p, what + " and afterwards")
    e = s = None
    p.close()
    check(EXT.vf_live() == base_live, "%s: %d blocks remain after the detector is gone" % (what, EXT.vf_live() - base_live))
    check(EXT.vf_bad() == 0, "%s: the extension freed a wrong address" % what)
    R.traces += 1


def seqs(i, depth):
    k, first = divmod(i, len(NAMES))
    for tail in itertools.product(NAMES, repeat=depth - 1):
        seq = (NAMES[first],) + tail
        if R.logging:
            del R.logtext[:]
            R.log("from a %s detector" % KINDS[k])
        p = Pair(KINDS[k])
        for j, n in enumerate(seq):
            perform(p, n, "%s detector, %s" % (KINDS[k], ", ".join(seq[:j + 1])))
        after(p, "%s detector, %s" % (KINDS[k], ", ".join(seq)))


R.add("every call from every state", len(NAMES) * len(KINDS), lambda i: seqs(i, 1))
R.add("every pair of calls from every state", len(NAMES) * len(KINDS), lambda i: seqs(i, 2), 1)
if R.thorough:
    CORE = [n for n in NAMES if n in ("step(str)", "step(raising __float__)", "step(7)", "quantile(None)", "probability(huge int)",
            "fit(good list)", "fit(too short)", "fit(str last)", "fit(iterator failing at 3)", "fit(None)", "init(valid)",
            "init(valid keywords)", "init(max_excess 0)", "init(max_excess 2**62)", "init(level nan)", "init(str q)",
            "init(unknown keyword)", "as_dict()", "raw()", "set q", "del n")]

    def deep(i):
        k, first = divmod(i, len(CORE))
        for tail in itertools.product(CORE, repeat=3):
            seq = (CORE[first],) + tail
            p = Pair(KINDS[k])
            for j, n in enumerate(seq):
                perform(p, n, "%s detector, %s" % (KINDS[k], ", ".join(seq[:j + 1])))
            after(p, "%s detector, %s" % (KINDS[k], ", ".join(seq)))
    R.add("every sequence of 4 calls over a core alphabet", len(CORE) * len(KINDS), deep, 1)


# --- construction
def construct(i):
    name = list(INITS)[i]
    args, kw = INITS[name]
    for cls in (Spot, Sub):
        what = "%s(%s)" % (cls.__name__, name)
        R.log(what)
        exp, info = init_expect(args, kw)
        s, e = attempt(lambda: cls(*args, **kw))
        R.trans += 1
        if exp:
            check(e is not None and type(e) in exp, "%s: gave %r %r, expected %s" % (what, s, e, exp[0].__name__))
        else:
            check(e is None, "%s: raised %r" % (what, e))
        s = e = None
        check(EXT.vf_live() == base_live, "%s: %d blocks remain" % (what, EXT.vf_live() - base_live))
        check(EXT.vf_bad() == 0, "%s: wrong free" % what)
        for rnd in range(5):  # a leak shows in every round, warming up of the interpreter's free lists does not
            t0, n0 = sys.getrefcount(cls), sys.getallocatedblocks()
            for rep in range(40):
                attempt(lambda: cls(*args, **kw))
            t1, n1 = sys.getrefcount(cls), sys.getallocatedblocks()
            if n1 - n0 < 30 and abs(t1 - t0) < 30:
                break
            gc.collect()
            n0 = sys.getallocatedblocks()
            for rep in range(100):
                attempt(lambda: cls(*args, **kw))
            gc.collect()
            n1 = sys.getallocatedblocks()
            if n1 - n0 < 30 and abs(t1 - t0) < 30:
                break
        check(n1 - n0 < 30, "%s: 40 repetitions leave %d more objects" % (what, n1 - n0))
        check(abs(t1 - t0) < 30, "%s: 40 repetitions change the references to the class from %d to %d" % (what, t0, t1))
        R.traces += 1


R.add("every construction, once and repeated", len(INITS), construct)


# --- leaks: repeated calls
def leaks(i):
    k, n = divmod(i, len(NAMES))
    name = NAMES[n]
    c = CALLS[name]
    p = Pair(KINDS[k])
    s = p.s
    what = "%s detector, %s repeated" % (KINDS[k], name)
    R.log(what)
    persistent = []
    if c[0] == "num":
        arg = s if isinstance(c[2], str) and c[2] == "SELF" else c[2]
        call = lambda: getattr(s, c[1])(arg)
        persistent = [arg]
    elif c[0] == "fit":
        d = c[1]()
        if isinstance(d, str) and d == "SELF":
            d = s
        if not hasattr(d, "__next__"):
            persistent = [d] + (list(d) if isinstance(d, (list, tuple)) else [])
            call = lambda: s.fit(d)
        else:
            call = lambda: s.fit(c[1]())
    elif c[0] == "init":
        call = lambda: s.__init__(*c[1], **c[2])
        persistent = list(c[1]) + list(c[2].values())
    elif c[0] == "look":
        call = lambda: getattr(s, c[1])()
    else:
        call = lambda: c[1](s)

    def run(m):
        for _ in range(m):
            try:
                call()
            except Exception:
                pass
    live = EXT.vf_live()
    for rnd in range(5):
        r0 = [sys.getrefcount(x) for x in persistent]
        s0 = sys.getrefcount(s)
        n0 = sys.getallocatedblocks()
        run(60)
        n1 = sys.getallocatedblocks()
        s1 = sys.getrefcount(s)
        r1 = [sys.getrefcount(x) for x in persistent]
        if n1 - n0 < 50:
            break
        # the interpreter's free lists (thousands of tuples) may be filling: empty them and measure without them
        gc.collect()
        n0 = sys.getallocatedblocks()
        run(200)
        gc.collect()
        n1 = sys.getallocatedblocks()
        if n1 - n0 < 50:
            break
    R.trans += 60 * (rnd + 1)
    check(n1 - n0 < 50, "%s 60 times: %d more objects" % (what, n1 - n0))
    check(abs(s1 - s0) < 30, "%s 60 times: reference count of the detector goes from %d to %d" % (what, s0, s1))
    for x, a, b in zip(persistent, r0, r1):
        if x is None or isinstance(x, (bool, int, type)):
            continue
        check(abs(b - a) < 30, "%s 60 times: reference count of an argument (%s) goes from %d to %d" % (what, type(x).__name__, a, b))
    if not (KINDS[k] == "uninitialised" and c[0] == "init"):
        check(EXT.vf_live() == live, "%s: %d blocks before, %d after" % (what, live, EXT.vf_live()))
    call = s = persistent = d = arg = x = None
    p.close()
    p = None
    check(EXT.vf_live() == base_live, "%s: %d blocks remain after the detector is gone" % (what, EXT.vf_live() - base_live))
    check(EXT.vf_bad() == 0, "%s: wrong free or overrun" % what)
    R.traces += 1


R.add("every call repeated 60 times from every state: objects, references, blocks", len(NAMES) * len(KINDS), leaks)


# --- detector reached from the conversions of its own arguments
def reentrant(i):
    p = Pair("full")
    s = p.s
    acts = {"clear the list": lambda: lst.clear(), "grow the list": lambda: lst.extend([1.0] * 500), "reinit": lambda: s.__init__(0.02, level=0.5, max_excess=2),
            "fit": lambda: s.fit(GOOD), "step": lambda: s.step(5.0), "raise after reinit": None, "shrink": lambda: lst.__delitem__(slice(1, None)),
            "replace": lambda: lst.__setitem__(slice(None), [None] * len(lst))}
    an = list(acts)[i % len(acts)]
    pos = i // len(acts)

    class Act:
        def __float__(self):
            if an == "raise after reinit":
                s.__init__(0.02, level=0.5, max_excess=2)
                raise Boom
            acts[an]()
            return 2.0
    what = "argument whose conversion does: %s" % an
    R.log(what)
    lst = [float(x * x % 17) for x in range(40)]
    lst[(0, 20, 39)[pos % 3]] = Act()
    for call in (lambda: s.fit(lst), lambda: s.step(Act()), lambda: s.quantile(Act()), lambda: s.probability(Act()),
                 lambda: s.__init__(Act(), level=0.5), lambda: s.__init__(0.01, level=Act())):
        res, e = attempt(call)
        R.trans += 1
        check(not isinstance(e, SystemError), "%s: %r" % (what, e))
        check(e is None or isinstance(e, (Boom, RuntimeError, TypeError)), "%s: %r" % (what, e))
        s.as_dict()
        check(EXT.vf_bad() == 0, "%s: wrong free or overrun" % what)
    res = e = call = None
    del Act
    acts = s = None
    p.close()
    gc.collect()
    check(EXT.vf_live() == base_live, "%s: %d blocks remain" % (what, EXT.vf_live() - base_live))
    R.traces += 1


R.add("arguments whose conversion mutates the list or the detector", 8 * 3, reentrant)


# --- lack of memory
OOM = [n for n in NAMES if CALLS[n][0] in ("fit", "init", "look") or n in (
    "step(7)", "step(object with __float__)", "quantile(7)", "quantile(object with __float__)", "probability(7)", "step(str)", "quantile(None)")]


# no Python-level code may run while the interpreter lacks memory: CPython itself
# then raises SystemError now and then
OOMPY = [n for n in OOM if not any(w in n for w in ("__", "failing", "generator", "announced", "raising", "hint", "objects",
                                                     "from object", "object with"))]


def thunk(p, c):
    s = p.s
    if c[0] == "num":
        a = c[2]
        m = getattr(s, c[1])
        return lambda: m(a)
    if c[0] == "fit":
        d = c[1]()
        if isinstance(d, str) and d == "SELF":
            d = s
        return lambda: s.fit(d)
    if c[0] == "init":
        i, a, k = s.__init__, c[1], c[2]
        return lambda: i(*a, **k)
    return getattr(s, c[1])


def oom_ext(i):
    k, n = divmod(i, len(OOM))
    name = OOM[n]
    c = CALLS[name]
    for at in range(0, 6):
        p = Pair(KINDS[k])
        s = p.s
        f = thunk(p, c)
        before = spot_state(s)
        live = EXT.vf_live()
        n0 = EXT.vf_nalloc()
        EXT.vf_fail(at)
        res, e = attempt(f)
        EXT.vf_fail(-1)
        asked = EXT.vf_nalloc() - n0
        what = "%s detector, %s with request %d of the extension refused" % (KINDS[k], name, at)
        R.log("%s: %d requests, %r %r" % (what, asked, res, e))
        R.trans += 1
        hit = asked > at
        check(not isinstance(e, SystemError), "%s: %r" % (what, e))
        if hit:
            check(e is not None, "%s: reported success" % what)
            check(isinstance(e, MemoryError) or isinstance(e, RuntimeError) and str(e) == error_text(-1000) or
                  c[0] == "fit" and fit_expect(c[1]() if name != "fit(detector)" else s, s)[0] is not None,
                  "%s: raised %r" % (what, e))
            check(spot_state(s) == before, "%s: the detector has changed" % what)
            check(EXT.vf_live() == live, "%s: %d blocks before, %d after" % (what, live, EXT.vf_live()))
        res = e = s = f = None
        if hit:
            after(p, what)
        else:
            p.close()
        check(EXT.vf_live() == base_live, "%s: %d blocks remain in the end" % (what, EXT.vf_live() - base_live))
        check(EXT.vf_bad() == 0, "%s: wrong free or overrun" % what)
        R.traces += 1
        if not hit:
            break


R.add("each memory request of the extension refused in turn, every call from every state", len(OOM) * len(KINDS), oom_ext)


def oom_py(i):
    k, n = divmod(i, len(OOMPY))
    name = OOMPY[n]
    c = CALLS[name]
    bound = 60 if R.thorough else 24
    misses = 0
    for at in range(bound):
        p = Pair(KINDS[k])
        s = p.s
        f = thunk(p, c)
        before = spot_state(s)
        live = EXT.vf_live()
        res = e = None
        try:
            SET(at, at + 1)
            res = f()
        except Exception as x:
            e = x
        finally:
            UNSET()
        what = "%s detector, %s with request %d of the interpreter refused" % (KINDS[k], name, at)
        R.log("%s: %r" % (what, e))
        R.trans += 1
        check(not isinstance(e, SystemError), "%s: %r" % (what, e))
        if isinstance(e, MemoryError):
            R.aux["interpreter_oom"] = R.aux.get("interpreter_oom", 0) + 1
            if c[0] != "fit" or fit_expect(c[1]() if name != "fit(detector)" else s, s)[0] is not None:
                check(spot_state(s) == before, "%s: the detector has changed" % what)
            check(EXT.vf_live() == live, "%s: %d blocks before, %d after" % (what, live, EXT.vf_live()))
            misses = 0
        else:
            misses += 1
        res = e = s = f = None
        p.close()
        check(EXT.vf_live() == base_live, "%s: %d blocks remain in the end" % (what, EXT.vf_live() - base_live))
        check(EXT.vf_bad() == 0, "%s: wrong free or overrun" % what)
        R.traces += 1
        if misses > 8:
            break


if SET:
    R.add("each memory request of the interpreter refused in turn, every call from every state", len(OOMPY) * len(KINDS), oom_py)


# --- nothing holds the elements or the carrier of the training data after any outcome of fit
class FW(float):
    pass


class LW(list):
    pass


import weakref
HOLD = {"list": lambda d: LW(d), "tuple": tuple, "iterator": iter, "generator": lambda d: (x for x in d), "map": lambda d: map(lambda x: x, d),
        "dict values": lambda d: dict(enumerate(d)).values(), "set": lambda d: set(d)}
ENDS = ["good", "three values", "nan inside", "str at the end", "raising at the end", "-1 inside"]


def held(i):
    i, e = divmod(i, len(ENDS))
    i, h = divmod(i, len(HOLD))
    kind = KINDS[i]
    carrier = list(HOLD)[h]
    # (requests of the interpreter are not refused here: list(tuple) of CPython itself then leaks)
    for at in range(-1, 5):
        d = [FW(x) for x in (GOOD[:3] if e == 1 else GOOD)]
        if e == 2:
            d[4] = FW("nan")
        if e == 5:
            d[5] = FW(-1.0)
        refs = [weakref.ref(x) for x in d]
        if e == 3:
            d.append("x")
        if e == 4:
            x = FRaise()
            refs.append(weakref.ref(x))
            d.append(x)
            x = None
        arg = HOLD[carrier](d)
        del d
        try:
            refs.append(weakref.ref(arg))
        except TypeError:
            pass
        p = Pair(kind)
        s = p.s
        f = s.fit
        what = "%s detector, fit(%s, %s), %s" % (kind, carrier, ENDS[e], "no refusal" if at < 0 else "request %d of the extension refused" % at)
        rc = sys.getrefcount(arg)
        n0 = EXT.vf_nalloc()
        ex = None
        EXT.vf_fail(at)
        try:
            f(arg)
        except Exception as x:
            ex = type(x)
        EXT.vf_fail(-1)
        hit = EXT.vf_nalloc() - n0 > at
        R.trans += 1
        check(ex is not SystemError, "%s: SystemError" % what)
        check(sys.getrefcount(arg) == rc, "%s: reference count of the argument %d before, %d after" % (what, rc, sys.getrefcount(arg)))
        del arg
        f = s = None
        p.close()
        if any(r() is not None for r in refs):
            gc.collect()
        alive = sum(r() is not None for r in refs)
        check(alive == 0, "%s: %d elements of the training data are never released" % (what, alive))
        check(EXT.vf_live() == base_live, "%s: %d blocks remain" % (what, EXT.vf_live() - base_live))
        R.traces += 1
        if not hit:
            break


R.add("training data released: %d carriers x %d outcomes x %d states x every refused request" % (len(HOLD), len(ENDS), len(KINDS)),
      len(HOLD) * len(ENDS) * len(KINDS), held)


# --- training sets of every small size and of large ones: every byte of the buffer is inside its block
BIGSIZES = [1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100001]
SIZES = list(range(0, 600 if R.thorough else 140)) + BIGSIZES
SHAPE = ["good", "str last", "raising last", "str in the middle"]


def sizes(i):
    n, kind = SIZES[i // 2], ("initialised", "full")[i % 2]
    for shape in SHAPE:
        for carrier in (list, tuple, iter):
            d = [float((k * 7919) % 1009) + 0.25 for k in range(n)]
            vals = list(d)
            if shape == "str last":
                d.append("x")
            elif shape == "raising last":
                d.append(FRaise())
            elif shape == "str in the middle":
                d.insert(n // 2, "x")
            want = None if shape == "good" else Boom if shape == "raising last" else TypeError
            for at in range(-1, 3):
                p = Pair(kind)
                s = p.s
                arg = carrier(d)
                before = spot_state(s)
                live = EXT.vf_live()
                n0 = EXT.vf_nalloc()
                EXT.vf_fail(at)
                res, e = attempt(lambda: s.fit(arg))
                EXT.vf_fail(-1)
                hit = at >= 0 and EXT.vf_nalloc() - n0 > at
                what = "%s detector, fit(%s of %d values, %s)%s" % (kind, carrier.__name__, n, shape,
                                                                    ", request %d of the extension refused" % at if at >= 0 else "")
                R.trans += 1
                if hit:
                    check(isinstance(e, (MemoryError, RuntimeError)) or want and type(e) is want, "%s: %r" % (what, e))
                    check(spot_state(s) == before, "%s: the detector has changed" % what)
                elif want:
                    check(type(e) is want, "%s: %r, expected %s" % (what, e, want.__name__))
                    check(spot_state(s) == before, "%s: the detector has changed" % what)
                elif at < 0:
                    code = p.r.fit(vals)
                    check((e is None) == (code >= 0), "%s: %r, C returns %d" % (what, e, code))
                    mirror(p, what)
                e = res = s = arg = None
                check(EXT.vf_live() == live, "%s: %d blocks before, %d after" % (what, live, EXT.vf_live()))
                check(EXT.vf_bad() == 0, "%s: the extension wrote outside a block or freed a wrong address" % what)
                p.close()
                check(EXT.vf_live() == base_live, "%s: %d blocks remain" % (what, EXT.vf_live() - base_live))
                R.traces += 1
                if at >= 0 and not hit:
                    break
    R.log("fit of %d values ok" % n)


R.add("training sets of %d sizes up to %d x %d outcomes x 3 carriers x 2 states, each request of the extension refused in turn" % (
    len(SIZES), SIZES[-1], len(SHAPE)), 2 * len(SIZES), sizes)


# --- lack of memory while exporting a tail larger than the interpreter's free lists
def oom_big(i):
    m, size = (("excesses", 350), ("as_dict", 350), ("excesses", 130), ("as_dict", 130), ("raw", 350))[i // 2]
    low = i % 2
    s = Spot(1e-3, low=low, level=0.0, discard_anomalies=0, max_excess=size)
    s.fit([float((k * 7919) % 1009) + 0.25 for k in range(size + 50)])
    for k in range(size):
        s.step(s.excess_threshold + (-1 if low else 1) * (k % 13 + 0.5))
    check(len(s.excesses()) == size, "%d excesses expected, %d stored" % (size, len(s.excesses())))
    call = getattr(s, m)
    before = spot_state(s)
    live = EXT.vf_live()
    hits = 0
    grown = []
    for at in range(2 * size + 60):
        e = res = None
        n0 = sys.getallocatedblocks()
        try:
            SET(at, at + 1)
            res = call()
        except Exception as x:
            e = x
        finally:
            UNSET()
        failed = e is not None
        what = "%s() of %d excesses with request %d of the interpreter refused" % (m, size, at)
        R.trans += 1
        check(e is None or type(e) is MemoryError, "%s: %r" % (what, e))
        if e is None and m == "excesses":
            check(type(res) is list and len(res) == size and all(type(x) is float for x in res), "%s: %r" % (what, res[:5]))
        e = res = None
        n1 = sys.getallocatedblocks()
        if failed:
            hits += 1
            grown.append(n1 - n0)
    if sum(grown) >= 400:  # without the interpreter's free lists
        gc.collect()
        n0 = sys.getallocatedblocks()
        h0 = hits
        for at in range(3, 3 + size // 3):
            try:
                SET(at, at + 1)
                call()
            except MemoryError:
                hits += 1
            finally:
                UNSET()
        gc.collect()
        grown = [sys.getallocatedblocks() - n0]
    R.log("%s of %d: %d failures" % (m, size, hits))
    R.aux["interpreter_oom"] = R.aux.get("interpreter_oom", 0) + hits
    check(spot_state(s) == before, "%s() for lack of memory: the detector has changed" % m)
    # what a failure keeps is bounded by the interpreter's free lists (100 floats), whatever the number of failures
    check(sum(grown) < 400, "%s() of %d excesses refused memory %d times: %d more objects in the end" % (m, size, hits, sum(grown)))
    check(EXT.vf_live() == live, "%s: %d blocks before, %d after" % (m, live, EXT.vf_live()))
    call = s = None
    check(EXT.vf_live() == base_live, "%s: %d blocks remain in the end" % (m, EXT.vf_live() - base_live))
    check(EXT.vf_bad() == 0, "%s: wrong free or overrun" % m)
    R.traces += 1


if SET:
    R.add("each memory request of the interpreter refused in turn while exporting 130 and 350 excesses", 10, oom_big)
R.main()
