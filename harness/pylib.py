"""Access to the extension under test and to the reference C library."""
import ctypes, math, os, struct, sys

HERE = os.getcwd()
sys.path.insert(0, HERE)
import libspot  # noqa: E402  (built from the working tree, in the current directory)

assert os.path.dirname(os.path.abspath(libspot.__file__)) == HERE, libspot.__file__
EXT = ctypes.CDLL(libspot.__file__)
for f in ("vf_live", "vf_nalloc", "vf_bad"):
    getattr(EXT, f).restype = ctypes.c_long
EXT.vf_fail.argtypes = [ctypes.c_long]
REF = ctypes.CDLL(os.path.join(HERE, "libref.so"))
D, P, I, U = ctypes.c_double, ctypes.c_void_p, ctypes.c_int, ctypes.c_ulong
for n, r, a in (("ref_new", P, []), ("ref_delete", None, [P]), ("ref_init", I, [P, D, I, I, D, U]),
                ("ref_fit", I, [P, P, U]), ("ref_step", I, [P, D]), ("ref_quantile", D, [P, D]),
                ("ref_probability", D, [P, D]), ("ref_field", D, [P, I]), ("ref_size", U, [P]),
                ("ref_excess", D, [P, U]), ("ref_sizeof", U, []), ("ref_error", None, [I, ctypes.c_char_p, U]),
                ("ref_version", None, [ctypes.c_char_p, U]), ("ref_offset", U, [I]),
                ("ref_poke", None, [P, U, U]), ("ref_counter", U, [P, I])):
    fn = getattr(REF, n)
    fn.restype, fn.argtypes = r, a


def bits(x):
    return b"nan" if x != x else struct.pack("<d", x)


def same(a, b):
    return bits(a) == bits(b)


def error_text(code):
    b = ctypes.create_string_buffer(256)
    REF.ref_error(-code, b, 256)
    return b.value.decode()


class Ref:
    def __init__(self):
        self.p = REF.ref_new()

    def close(self):
        REF.ref_delete(self.p)
        self.p = None

    def init(self, q, low=0, discard_anomalies=1, level=0.98, max_excess=500):
        return REF.ref_init(self.p, q, low, discard_anomalies, level, max_excess)

    def fit(self, data):
        a = (ctypes.c_double * max(1, len(data)))(*[float(x) for x in data])
        return REF.ref_fit(self.p, a, len(data))

    def step(self, x):
        return REF.ref_step(self.p, x)

    def quantile(self, q):
        return REF.ref_quantile(self.p, q)

    def probability(self, z):
        return REF.ref_probability(self.p, z)

    def field(self, k):
        return REF.ref_field(self.p, k)

    def excesses(self):
        return [REF.ref_excess(self.p, i) for i in range(REF.ref_size(self.p))]


ATTRS = (("q", 0), ("level", 1), ("anomaly_threshold", 4), ("excess_threshold", 5), ("Nt", 6), ("n", 7),
         ("gamma", 8), ("sigma", 9))


def spot_state(s):
    """everything observable of a Python detector"""
    return (tuple(bits(float(getattr(s, a))) for a, _ in ATTRS), tuple(bits(x) for x in s.excesses()),
            bytes(s.raw()))


def poke(s, r, n, nt):
    """gives both detectors the counters of a long history; False if the C detector is not found inside the object"""
    raw = bytes(s.raw())
    size = type(s).__basicsize__
    at = ctypes.string_at(id(s), size).find(raw)
    if at < 0 or len(raw) != REF.ref_sizeof():
        return False
    for k, v in ((7, n), (6, nt)):
        ctypes.memmove(id(s) + at + REF.ref_offset(k), struct.pack("<Q", v), 8)
    REF.ref_poke(r.p, n, nt)
    return True
