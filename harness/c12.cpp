// C12: memory safety of every call sequence. The library and this harness are
// built with AddressSanitizer and UBSan; every object handed to the library is
// a heap block of exactly the right size, so any access outside of it ends the
// execution with a report.
#include "stream.hpp"

static bool failing;
static void *al(size_t s) { return failing || s > (64u << 20) ? nullptr : malloc(s); }

struct Op {
    std::string name;
    std::function<void(struct Spot *)> run;
};
static std::vector<Op> ops;
static volatile double sink;

static void text(int kind, int code, unsigned long size, bool null) {
    char *b = null ? nullptr : (char *)malloc(size);
    if (kind == 0)
        libspot_version(b, size);
    else if (kind == 1)
        libspot_license(b, size);
    else
        libspot_error((enum LibspotError)code, b, size);
    if (b && size)
        sink = b[0] + b[size - 1];
    free(b);
}
static void fitx(struct Spot *sp, const std::vector<double> &v, bool null = false) {
    double *d = null ? nullptr : (double *)malloc(v.size() * 8);
    if (d)
        std::copy(v.begin(), v.end(), d);
    sink = spot_fit(sp, d, v.size());
    free(d);
}
static const std::vector<std::vector<double>> &sets() {
    static std::vector<std::vector<double>> S = {
        {},
        {1},
        {1, 2, 3, 4},
        {1, 2, 3, 4, 5},
        {2, 2, 2, 2, 2, 2},
        {3, -1, 4, 1, -5, 9, 2, 6, -5, 3, 5},
        {QNAN, QNAN, QNAN, QNAN, QNAN, QNAN},
        {1, QNAN, 2, 5, 4, 3, QNAN, 8},
        {1, 2, 3, 4, 5, QNAN, QNAN, 9, 10, 11},
        {INF, -INF, INF, 1, 2, 3, -INF},
        {1.7e308, -1.7e308, 1.7e308, -1.7e308, 1e308, 0, 5},
        {5e-324, 0, -5e-324, 1e-323, 0, 0, 2e-323},
        {1, 1, 1, 1, 1, 1, 1e300}};
    return S;
}
static void build() {
    for (unsigned long cap : {0ul, 1ul, 2ul, 5ul, (1ul << 29) + 1, 1ul << 32, (1ul << 32) + 2, 1ul << 61, (1ul << 61) + 1, ~0ul})
        for (int low = 0; low < 2; low++) {
            if (low && cap != 2 && cap != 5)
                continue;
            ops.push_back({mc::fmt("init(max_excess=%lu,low=%d)", cap, low), [=](struct Spot *s) {
                               sink = spot_init(s, 0.01, low, low, 0.75, cap);
                           }});
        }
    ops.push_back({"init(max_excess=3), allocation fails", [](struct Spot *s) {
                       failing = true;
                       sink = spot_init(s, 0.01, 0, 1, 0.75, 3);
                       failing = false;
                   }});
    ops.push_back({"init(q out of bounds)", [](struct Spot *s) { sink = spot_init(s, 2, 0, 1, 0.75, 3); }});
    for (size_t i = 0; i < sets().size(); i++)
        ops.push_back({mc::fmt("fit(set %zu)", i), [=](struct Spot *s) { fitx(s, sets()[i]); }});
    ops.push_back({"fit(NULL, 0)", [](struct Spot *s) { fitx(s, {}, true); }});
    for (double x : {QNAN, INF, -INF, 1.7e308, -1.7e308, 0.0, 1e-320})
        ops.push_back({mc::fmt("step(%g)", x), [=](struct Spot *s) { sink = spot_step(s, x); }});
    for (int y : {S_T, S_SMALL, S_MID, S_FAR, S_BIG})
        ops.push_back({mc::fmt("step x3 (%s)", symname(y)), [=](struct Spot *s) {
                           for (int k = 0; k < 3; k++)
                               sink = spot_step(s, resolve(s, s->low == 1, y));
                       }});
    ops.push_back({"quantiles", [](struct Spot *s) {
                       for (double q : {0.0, 1e-300, 1e-4, 0.5, 1.0, -1.0, 1e300, INF, QNAN})
                           sink = spot_quantile(s, q);
                   }});
    ops.push_back({"probabilities", [](struct Spot *s) {
                       for (double q : {0.0, 1e-300, 1e4, -0.5, 1e300, -1e308, INF, -INF, QNAN})
                           sink = spot_probability(s, q);
                   }});
    ops.push_back({"free", [](struct Spot *s) { spot_free(s); }});
}
static void play(const int *o, int len, int pre) {
    struct Spot *s = (struct Spot *)malloc(sizeof *s);
    memset(s, 0, sizeof *s);
    if (pre >= 0)
        ops[pre].run(s);
    if (mc::logging) {
        mc::logtext.clear();
        mc::log("zeroed structure");
    }
    for (int i = 0; i < len; i++) {
        if (mc::logging)
            mc::log("%s", ops[o[i]].name.c_str());
        ops[o[i]].run(s);
        mc::trans();
    }
    uint64_t h = mc::mixd(mc::mixd(mc::mix(mc::mix(1, s->n), s->Nt), s->tail.gamma), s->anomaly_threshold);
    h = mc::mix(h, s->tail.peaks.container.capacity * 7 + s->tail.peaks.container.cursor);
    mc::state(h);
    mc::trace();
    spot_free(s);
    free(s);
}

static void setup() {
    set_allocators(al, free);
    mc::case_seconds = 300;
    build();
    const int A = ops.size();
    int D = mc::thorough ? 5 : 4;
    mc::add(mc::fmt("all sequences of %d calls over %d calls from a zeroed structure", D, A), (uint64_t)A * A,
            [=](uint64_t i) {
                int o[8];
                o[0] = i % A;
                o[1] = i / A;
                for (uint64_t k = 0; k < mc::ipow(A, D - 2); k++) {
                    mc::Digits h(k);
                    for (int j = 2; j < D; j++)
                        o[j] = h.take(A);
                    play(o, D, -1);
                }
            });
    // text queries
    mc::add("text queries: every size 0..200 x 12 codes x null buffers", 201, [](uint64_t i) {
        for (int null = 0; null < 2; null++) {
            text(0, 0, i, null);
            text(1, 0, i, null);
            for (int c : {0, -1, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, INT32_MAX, INT32_MIN})
                text(2, c, i, null);
        }
        mc::log("text queries with a buffer of %llu bytes", (unsigned long long)i);
        mc::trans(28);
        mc::state(100000 + i);
        mc::trace();
    });
    // every capacity, filled and wrapped, all patterns
    unsigned long NC = mc::thorough ? 600 : 130;
    mc::add(mc::fmt("every capacity 1..%lu x %d patterns: fit, fill, wrap, refit, query, free", NC, (int)NPAT),
            NC * NPAT, [](uint64_t i) {
                int p = i % NPAT;
                unsigned long cap = 1 + i / NPAT;
                struct Spot *s = (struct Spot *)malloc(sizeof *s);
                mc::log("capacity %lu pattern %d", cap, p);
                if (spot_init(s, 1e-3, i & 1, (i >> 1) & 1, 0.9, cap))
                    mc::fail("init");
                Lcg r(i);
                for (unsigned long n : {5ul, cap, cap + 1, 10 * cap, 3ul}) {
                    std::vector<double> t;
                    for (unsigned long k = 0; k < n; k++)
                        t.push_back(pattern(p, k, r));
                    fitx(s, t);
                    for (unsigned long k = 0; k < cap + 5; k++) {
                        sink = spot_step(s, s->excess_threshold + (i & 1 ? -1 : 1) * pattern(p, k, r));
                        sink = spot_quantile(s, 1e-5);
                    }
                    mc::trans(cap);
                }
                mc::state(hash(s));
                spot_free(s);
                spot_free(s);
                free(s);
                mc::trace();
            });
    // larger capacities, filled and wrapped by the calibration, then by observations
    static const unsigned long BC[] = {255,  256,  257,  511,  512,  513,  1000,  1023,  1024,  1025,  2047, 2048,
                                       2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537};
    mc::add("25 capacities 255..65537 x tails x 2 patterns: filled and wrapped by fit, stepped, refitted, freed", 25 * 4,
            [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), p = g.take(2) ? 4 : 8;
                unsigned long cap = BC[g.v];
                struct Spot *s = (struct Spot *)malloc(sizeof *s);
                mc::log("capacity %lu pattern %d low=%d", cap, p, low);
                if (spot_init(s, 1e-3, low, 0, 0.0, cap))
                    mc::fail("init");
                Lcg r(i);
                for (unsigned long n : {cap + 2, cap + cap / 4 + 60, 40ul}) {
                    std::vector<double> t;
                    for (unsigned long k = 0; k < n; k++)
                        t.push_back((low ? -1 : 1) * pattern(p, k, r));
                    fitx(s, t);
                    for (unsigned long k = 0; k < 8; k++) {
                        sink = spot_step(s, s->excess_threshold + (low ? -1 : 1) * pattern(p, k, r));
                        sink = spot_quantile(s, 1e-5);
                    }
                    mc::trans(n);
                }
                // fill whatever is left
                for (unsigned long k = 0; k < cap + 3; k++)
                    tail_push(&s->tail, k == 5 ? 0.5 : k == 6 ? 9.0 : 1.0 + (double)(k % 5));
                mc::state(hash(s));
                spot_free(s);
                spot_free(s);
                free(s);
                mc::trace();
            });
    // quantile estimation on blocks of exactly the given size
    static const double PV[] = {0, 1, -1e308, QNAN, INF};
    int L = mc::thorough ? 8 : 7;
    for (int len = 0; len <= L; len++)
        mc::add(mc::fmt("p2_quantile: all %d values over {0,1,-1e308,NaN,inf}", len),
                std::max<uint64_t>(1, mc::ipow(5, len) / 125), [=](uint64_t i) {
                    double *d = (double *)malloc(len * 8);
                    uint64_t n = mc::ipow(5, len);
                    for (uint64_t k = i * 125; k < std::min(n, (i + 1) * 125); k++) {
                        mc::Digits h(k);
                        for (int j = 0; j < len; j++)
                            d[j] = PV[h.take(5)];
                        for (double p : {0.0, 0.02, 0.5, 0.98, 1.0, QNAN})
                            sink = p2_quantile(p, d, len);
                        mc::trans(6);
                        mc::trace();
                    }
                    free(d);
                    mc::log("p2_quantile with %d values", len);
                });
    // arithmetic on special values: no undefined conversion
    mc::add("xlog/xexp/xpow on all exponents (undefined conversions)", 2048, [](uint64_t e) {
        for (int sg = 0; sg < 2; sg++)
            for (uint64_t m : {0ull, 1ull, 1ull << 51, (1ull << 52) - 1}) {
                uint64_t u = (uint64_t)sg << 63 | (uint64_t)e << 52 | m;
                double x;
                memcpy(&x, &u, 8);
                sink = xlog(x);
                sink = xexp(x);
                for (double y : {0.0, 1e-300, 3.0, -1e10, 1e300, INF, -INF, QNAN}) {
                    sink = xpow(x, y);
                    sink = xpow(y, x);
                }
                mc::trans(18);
            }
        mc::log("exponent %llu", (unsigned long long)e);
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
