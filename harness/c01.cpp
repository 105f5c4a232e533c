// C01: every step verdict follows from the thresholds in force.
#include "stream.hpp"

struct V : Visitor {
    double t, z;
    void before(const Cfg &, struct Spot *sp, double) override {
        t = sp->excess_threshold;
        z = sp->anomaly_threshold;
    }
    void after(const Cfg &c, struct Spot *, double x, int rc) override {
        int want;
        if (x != x)
            want = -ERR_DATA_IS_NAN;
        else if (c.disc && (c.low ? x < z : x > z))
            want = ANOMALY;
        else if (c.low ? x <= t : x >= t)
            want = EXCESS;
        else
            want = NORMAL;
        MC_CHECK(rc == want,
                 "step(%.17g) returned %d, expected %d (low=%d discard=%d excess_threshold=%.17g "
                 "anomaly_threshold=%.17g)",
                 x, rc, want, c.low, c.disc, t, z);
        mc::aux(rc < 0 ? 3 : rc);
    }
};

static void setup() {
    mc::case_seconds = 600;
    set_allocators(malloc, free);
    mc::aux_names = {"NORMAL", "EXCESS", "ANOMALY", "NaN error"};
    add_streams([] { return new V; }, 4, 5, 6, 7);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
    add_units([] { return new V; }, 2, 3);
    add_verylong([] { return new V; }, 2500000, 40000000);
    // thresholds set to arbitrary values of the state space, observations on a
    // grid of special doubles and neighbours: the decision function itself
    static std::vector<double> vals;
    for (double b : {0.0, 1.0, -1.0, 0.1, 1e-300, 5e-324, 1e300, 1.7976931348623157e308, 1e16,
                     -1e-300, -5e-324, -1e300, -1.7976931348623157e308, 3.0, 1e-9, -2.5})
        for (double x : {b, std::nextafter(b, INF), std::nextafter(b, -INF)})
            vals.push_back(x);
    vals.push_back(INF);
    vals.push_back(-INF);
    vals.push_back(-0.0);
    size_t n = vals.size();
    mc::add(mc::fmt("decision for every (t, z, x) of %zu^3 special doubles x modes", n), n * n * 4,
            [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                double t = vals[g.take(n)], z = vals[g.take(n)];
                Cfg c{low, disc, 0.5, 0.1, 1, 0};
                if (t == INF || t == -INF)
                    return;
                V v;
                for (double x : vals) {
                    Det d;
                    if (d.init(0.1, low, disc, 0.5, 1))
                        mc::fail("init failed");
                    double tr[] = {1, 2, 3, 4, 5};
                    if (spot_fit(&d.sp, tr, 5))
                        return;
                    d.sp.excess_threshold = t;
                    d.sp.anomaly_threshold = z;
                    v.before(c, &d.sp, x);
                    int rc = spot_step(&d.sp, x);
                    mc::log("low=%d discard=%d t=%.17g z=%.17g step(%.17g) -> %d", low, disc, t, z,
                            x, rc);
                    mc::trans();
                    v.after(c, &d.sp, x, rc);
                    mc::state(mc::mixd(mc::mixd(mc::mixd(low * 2 + disc, t), z), x));
                }
                mc::trace();
            });
    // every verdict at every power of two and of ten of the counters
    mc::add("every symbol when a counter passes a power of two or of ten x modes", 84 * 4, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), disc = g.take(2);
        unsigned long b = 1;
        if (g.v < 64)
            b <<= g.v;
        else
            for (unsigned k = 64; k < g.v; k++)
                b *= 10;
        Cfg c{low, disc, 0.75, 0.01, 3, 1};
        for (int which = 0; which < 3; which++)
            for (unsigned long off = 0; off < 3; off++)
                for (int sym = 0; sym < S_COUNT; sym++) {
                    Det d;
                    if (d.init(c.q, low, disc, c.level, c.cap))
                        mc::fail("init failed");
                    auto &tr = trainings()[1];
                    if (spot_fit(&d.sp, tr.data(), tr.size()))
                        mc::fail("fit failed");
                    d.sp.n = which == 1 ? (b > 20 ? b : 20) * 5 : b - off;
                    d.sp.Nt = which == 0 ? (b - off) / 4 + 1 : b - off;
                    V v;
                    double x = resolve(&d.sp, low, sym);
                    v.before(c, &d.sp, x);
                    int rc = spot_step(&d.sp, x);
                    mc::trans();
                    if (mc::logging)
                        mc::log("n=%lu Nt=%lu step(%.17g) -> %d", b - off, d.sp.Nt, x, rc);
                    v.after(c, &d.sp, x, rc);
                    mc::state(mc::mix(mc::mix(b, off * 100 + sym), which * 4 + low * 2 + disc));
                }
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
