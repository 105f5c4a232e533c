// C14: initialisation accepts exactly the valid parameters.
#include "spotx.hpp"
#include <sys/mman.h>

static int nalloc, fail_alloc;
static size_t lastsize;
static bool generous; // nothing is refused: large requests get address space only
alignas(64) static unsigned char token[4096];
static void *big;
static size_t biglen;
static void fr(void *p) {
    if (p == token)
        return;
    if (big && p == big) {
        munmap(big, biglen);
        big = nullptr;
        return;
    }
    free(p);
}
static void *al(size_t s) {
    nalloc++;
    lastsize = s;
    if (fail_alloc || (s > (1u << 20) && !generous))
        return nullptr;
    if (s > (1u << 20)) {
        biglen = s;
        big = s < (1ull << 36) ? mmap(nullptr, s, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)
                               : MAP_FAILED;
        if (big == MAP_FAILED) {
            big = nullptr;
            return token;
        }
        return big;
    }
    void *p = malloc(s);
    memset(p, 0x77, s);
    return p;
}
static const std::vector<double> &levels() {
    static std::vector<double> L;
    if (L.empty()) {
        for (double c : {0.0, 0.25, 0.5, 0.75, 0.9, 0.98, 0.995, 1.0, 1e-17, 1e-300}) {
            L.push_back(c);
            L.push_back(std::nextafter(c, INF));
            L.push_back(std::nextafter(c, -INF));
        }
        for (double c : {-0.0, -1.0, -0.5, 2.0, 1.5, -1e-300, -1e300, 1e300, INF, -INF, QNAN, -QNAN})
            L.push_back(c);
    }
    return L;
}
static std::vector<double> qs(double level) {
    std::vector<double> Q;
    for (double c : {0.0, 1.0 - level, 1.0, 1e-4, 0.5, level}) {
        Q.push_back(c);
        Q.push_back(std::nextafter(c, INF));
        Q.push_back(std::nextafter(c, -INF));
    }
    for (double c : {-0.0, 1e-300, 1e-17, 0.01, 0.3, 2.0, -1.0, -0.01, -1e-300, 1e300, INF, -INF, QNAN})
        Q.push_back(c);
    Q.push_back(0.99 * (1 - level));
    Q.push_back(1.01 * (1 - level));
    return Q;
}
static const int FLAGS[] = {0, 1, -1, 2, 256, 65536, INT32_MIN, INT32_MAX};
static const unsigned long CAPS[] = {1, 2, 200, 100000, 0, 1ul << 40, (1ul << 61) - 1, 1ul << 61,
                                     (1ul << 61) + 1, 1ul << 63, ~0ul, 4096};
enum { NF = 8, NC = 12, NPRE = 6 };

static void used(struct Spot *s, int low) {
    static const double T[] = {1, 5, 2, 8, 3, 9, 4, 4, 6, 7, 2.5, 1.5};
    spot_init(s, 0.02, low, !low, 0.7, 3);
    spot_fit(s, T, 12);
    for (int k = 0; k < 8; k++)
        spot_step(s, s->excess_threshold + (low ? -1 : 1) * 0.3 * k);
}

static void one(double level, double q, int low, int disc, unsigned long cap, int failing, int pre) {
    struct Spot s;
    double *extra = nullptr; // block of the detector that was there before
    fail_alloc = 0;
    switch (pre) {
    case 0:
        memset(&s, 0, sizeof s);
        break;
    case 1:
        memset(&s, 0xAA, sizeof s);
        break;
    case 2:
        memset(&s, 0xFF, sizeof s);
        break;
    case 3:
        memset(&s, 0, sizeof s);
        used(&s, 0);
        spot_free(&s);
        break;
    case 4:
        memset(&s, 0, sizeof s);
        used(&s, 0);
        extra = s.tail.peaks.container.data;
        break;
    default:
        memset(&s, 0x11, sizeof s);
        used(&s, 1);
        extra = s.tail.peaks.container.data;
    }
    unsigned char before[sizeof s];
    memcpy(before, &s, sizeof s);
    double content[3] = {0, 0, 0};
    if (extra)
        memcpy(content, extra, sizeof content);
    nalloc = 0;
    fail_alloc = failing;
    lastsize = 0;
    int rc = spot_init(&s, q, low, disc, level, cap);
    fail_alloc = 0;
    mc::trans();
    mc::log("spot_init(q=%.17g, low=%d, discard=%d, level=%.17g, max_excess=%lu)%s on structure %d -> %d", q,
            low, disc, level, cap, failing ? " [allocation fails]" : "", pre, rc);
    bool okl = level >= 0 && level < 1;
    // 0 < q < 1-level; when the exact comparison and the one on doubles
    // disagree, both answers are fine
    bool okq = okl && q > 0 && q < 1. - level;
    bool okx = okl && q > 0 && (long double)q < 1.0L - (long double)level;
    bool okm = !failing && cap > 0 && cap <= (generous ? ~0ul / 8 : 1u << 17);
    int want = !okl ? -ERR_LEVEL_OUT_OF_BOUNDS
                    : (!okq ? -ERR_Q_OUT_OF_BOUNDS : (!okm ? -ERR_MEMORY_ALLOCATION_FAILED : 0));
    int want2 = !okl ? -ERR_LEVEL_OUT_OF_BOUNDS
                     : (!okx ? -ERR_Q_OUT_OF_BOUNDS : (!okm ? -ERR_MEMORY_ALLOCATION_FAILED : 0));
    MC_CHECK(rc == want || rc == want2,
             "initialisation with q=%.17g level=%.17g max_excess=%lu%s returned %d, expected %d", q,
             level, cap, failing ? " (no memory)" : "", rc, want);
    if (rc == -ERR_LEVEL_OUT_OF_BOUNDS || rc == -ERR_Q_OUT_OF_BOUNDS) {
        // padding included: nothing has been written
        for (size_t i = 0; i < sizeof s; i++)
            MC_CHECK(before[i] == ((unsigned char *)&s)[i],
                     "a rejected initialisation (%d) modified byte %zu of the detector", rc, i);
        if (extra)
            MC_CHECK(!memcmp(content, extra, sizeof content),
                     "a rejected initialisation modified the stored excesses");
        MC_CHECK(nalloc == 0, "a rejected initialisation requested memory");
    }
    if (rc == 0) {
        Snap o;
        snap(&s, o);
        MC_CHECK(same_bits(o.q, q) && (same_bits(o.level, level) || o.level == level),
                 "q=%.17g level=%.17g stored as q=%.17g level=%.17g", q, level, o.q, o.level);
        MC_CHECK(o.low == (low != 0) && o.disc == (disc != 0),
                 "low=%d discard_anomalies=%d stored as %d %d", low, disc, o.low, o.disc);
        MC_CHECK(o.n == 0 && o.Nt == 0, "counters n=%lu Nt=%lu after initialisation", o.n, o.Nt);
        MC_CHECK(o.z != o.z && o.t != o.t, "thresholds t=%g z=%g after initialisation", o.t, o.z);
        MC_CHECK(o.g != o.g && o.s != o.s, "tail gamma=%g sigma=%g after initialisation", o.g, o.s);
        MC_CHECK(o.cap == cap, "capacity %lu instead of %lu", o.cap, cap);
        MC_CHECK(o.size == 0, "%lu stored excesses after initialisation", o.size);
        MC_CHECK(s.tail.peaks.container.data != nullptr && lastsize >= cap * 8,
                 "%zu bytes reserved for %lu excesses", lastsize, cap);
        // the direction is really taken into account
        MC_CHECK(peaks_size(&s.tail.peaks) == 0, "peaks_size");
        mc::state(hash(o));
        spot_free(&s);
    } else
        mc::state(mc::mixd(mc::mixd(mc::mix(mc::mix(9, pre), rc), q), level));
    if (extra)
        free(extra);
    mc::trace();
}

static void setup() {
    set_allocators(al, fr);
    size_t NL = levels().size(), NQ = qs(0.5).size();
    mc::add(mc::fmt("%zu levels x %zu q (boundaries, neighbours, specials) x %d structure contents "
                    "x %d capacities x allocation outcome",
                    NL, NQ, (int)NPRE, (int)NC),
            NL * NQ * NPRE, [=](uint64_t i) {
                mc::Digits g(i);
                int pre = g.take(NPRE);
                double q = qs(levels()[(i / NPRE) / NQ])[g.take(NQ)];
                double level = levels()[g.v];
                for (unsigned long cap : CAPS)
                    for (int f = 0; f < 2; f++)
                        one(level, q, i & 1, (i >> 1) & 1, cap, f, pre);
            });
    mc::add("all flag values x capacities x structure contents", NF * NF * NPRE, [=](uint64_t i) {
        mc::Digits g(i);
        int pre = g.take(NPRE), low = FLAGS[g.take(NF)], disc = FLAGS[g.v];
        for (unsigned long cap : CAPS)
            for (int f = 0; f < 2; f++) {
                one(0.98, 1e-4, low, disc, cap, f, pre);
                one(0.0, 0.5, low, disc, cap, f, pre);
                one(1.0, 0.5, low, disc, cap, f, pre);
                one(0.9, 0.2, low, disc, cap, f, pre);
            }
    });
    static const std::vector<unsigned long> HC = {
        0, 1, 2, 4097, 65537, (1ul << 17) + 1, (1ul << 20) + 1, (1ul << 29) - 1, 1ul << 29, (1ul << 31) - 1,
        1ul << 31, (1ul << 31) + 1, (1ul << 32) - 1, 1ul << 32, (1ul << 32) + 1, 1ul << 40, (1ul << 53) + 1, 1ul << 58,
        1ul << 60, (1ul << 61) - 1, 1ul << 61, (1ul << 61) + 1, 1ul << 63, ~0ul};
    mc::add("capacities up to 2^64-1 when memory is always granted x structure contents", HC.size() * NPRE,
            [=](uint64_t i) {
                generous = true;
                for (int k = 0; k < 4; k++) {
                    one(0.98, 1e-4, k & 1, k >> 1, HC[i / NPRE], 0, i % NPRE);
                    one(0.0, 0.5, k & 1, k >> 1, HC[i / NPRE], 0, i % NPRE);
                    one(1.0, 0.5, k & 1, k >> 1, HC[i / NPRE], 0, i % NPRE);
                    one(0.9, 0.2, k & 1, k >> 1, HC[i / NPRE], 0, i % NPRE);
                }
                generous = false;
            });
    // fine grid of (level, q)
    unsigned N = mc::thorough ? 2000 : 400;
    mc::add(mc::fmt("grid of %u x %u (level, q) over [-0.25, 1.25]^2", N, N), N, [=](uint64_t i) {
        double level = -0.25 + 1.5 * (double)i / N;
        for (unsigned k = 0; k < N; k++)
            one(level, -0.25 + 1.5 * (double)k / N, k & 1, (k >> 1) & 1, 1 + k % 7, 0, k % 3);
    });
    // the two-valued flags act as such: verdicts of a detector initialised with
    // any non-zero flag are those of flag one
    mc::add("any non-zero flag behaves like one", NF * NF, [=](uint64_t i) {
        int low = FLAGS[i % NF], disc = FLAGS[i / NF];
        Det a, b;
        if (a.init(0.01, low, disc, 0.75, 4) || b.init(0.01, low != 0, disc != 0, 0.75, 4))
            mc::fail("initialisation failed");
        static const double T[] = {1, 5, 2, 8, 3, 9, 4, 4, 6, 7, 2.5, 1.5};
        spot_fit(&a.sp, T, 12);
        spot_fit(&b.sp, T, 12);
        for (int k = -20; k < 40; k++) {
            int ra = spot_step(&a.sp, k * 0.7), rb = spot_step(&b.sp, k * 0.7);
            mc::log("low=%d discard=%d step(%g) -> %d / %d", low, disc, k * 0.7, ra, rb);
            MC_CHECK(ra == rb, "verdict %d with flags %d,%d and %d with %d,%d", ra, low, disc, rb,
                     low != 0, disc != 0);
            mc::trans(2);
        }
        Snap x, y;
        snap(&a.sp, x);
        snap(&b.sp, y);
        MC_CHECK(diff(x, y) == "", "flags %d,%d: %s", low, disc, diff(x, y).c_str());
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
