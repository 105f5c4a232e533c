// C17: lower-tail monitoring is the mirror image of upper-tail monitoring.
#include "stream.hpp"

static bool close(double a, double b, double scale) {
    return same(a, b) || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + scale);
}
static bool zexact; // thresholds are exact mirror images

static void compare(struct Spot *u, struct Spot *l, const char *when) {
    Snap a, b;
    snap(u, a);
    snap(l, b);
    MC_CHECK(a.n == b.n && a.Nt == b.Nt, "%s: counters n=%lu Nt=%lu (upper) and n=%lu Nt=%lu (lower)", when,
             a.n, a.Nt, b.n, b.Nt);
    MC_CHECK(a.size == b.size, "%s: %lu and %lu stored excesses", when, a.size, b.size);
    MC_CHECK(a.t == -b.t, "%s: excess thresholds %.17g and %.17g", when, a.t, b.t);
    for (size_t i = 0; i < a.size; i++)
        MC_CHECK(same(a.data[i], b.data[i]), "%s: stored excess %zu is %.17g (upper) and %.17g (lower)", when, i,
                 a.data[i], b.data[i]);
    double w = std::fabs(a.z - a.t);
    MC_CHECK(close(a.g, b.g, 1e-3), "%s: shapes %.17g and %.17g", when, a.g, b.g);
    MC_CHECK(close(a.s, b.s, 0), "%s: scales %.17g and %.17g", when, a.s, b.s);
    MC_CHECK(close(a.z, -b.z, w), "%s: anomaly thresholds %.17g and %.17g", when, a.z, b.z);
    zexact = same(a.z, -b.z);
    for (double q : {1e-8, 1e-3, 0.03, 0.2}) {
        double x = spot_quantile(u, q), y = spot_quantile(l, q);
        MC_CHECK(close(x, -y, std::fabs(x - a.t)), "%s: quantile(%g) %.17g (upper) and %.17g (lower)", when, q, x, y);
    }
    for (double f : {0.0, 0.01, 0.5, 1.0, 2.0, 30.0}) {
        double x = a.t + f * (w > 0 && w < INF ? w : 1);
        double p = spot_probability(u, x), r = spot_probability(l, -x);
        MC_CHECK(same(p, r) || std::fabs(p - r) <= 1e-12 * std::fabs(p) + 1e-300,
                 "%s: probability(%.17g) = %.17g (upper) and probability(%.17g) = %.17g (lower)", when, x, p, -x, r);
    }
    mc::trans(20);
    mc::state(hash(a));
}
// returns false when the pair is not comparable
static bool pair_run(const Cfg &c, const std::vector<double> &tr, const int *syms, int len) {
    Det u, l;
    if (mc::logging) {
        mc::logtext.clear();
        mc::log("%s and its mirror, %zu training values", showcfg(c).c_str(), tr.size());
    }
    if (u.init(c.q, 0, c.disc, c.level, c.cap) || l.init(c.q, 1, c.disc, c.level, c.cap))
        mc::fail("initialisation failed");
    std::vector<double> neg;
    for (double x : tr)
        neg.push_back(-x);
    int ru = spot_fit(&u.sp, tr.data(), tr.size()), rl = spot_fit(&l.sp, neg.data(), neg.size());
    mc::trans(2);
    if (!(u.sp.excess_threshold == -l.sp.excess_threshold)) {
        if (tr.size() == 5)
            mc::fail("five values: excess thresholds %.17g (upper) and %.17g (lower) are not opposite",
                     u.sp.excess_threshold, l.sp.excess_threshold);
        mc::aux(1);
        return false;
    }
    mc::aux(0);
    MC_CHECK(ru == rl, "fit returns %d (upper) and %d (lower)", ru, rl);
    if (mc::logging) {
        mc::log("upper %s", show(&u.sp).c_str());
        mc::log("lower %s", show(&l.sp).c_str());
    }
    compare(&u.sp, &l.sp, "after fit");
    if (ru)
        return false;
    for (int i = 0; i < len; i++) {
        if (!zexact && (syms[i] == S_Z || syms[i] == S_ZA))
            return true;
        double x = resolve(&u.sp, 0, syms[i]);
        int a = spot_step(&u.sp, x), b = spot_step(&l.sp, -x);
        mc::trans(2);
        if (mc::logging) {
            mc::log("step(%.17g) -> %d upper %s", x, a, show(&u.sp).c_str());
            mc::log("step(%.17g) -> %d lower %s", -x, b, show(&l.sp).c_str());
        }
        MC_CHECK(a == b, "step(%.17g) gives %d (upper), step(%.17g) gives %d (lower)", x, a, -x, b);
        compare(&u.sp, &l.sp, "after a step");
    }
    mc::trace();
    return true;
}

// two thirds of excesses, or one observation in `rare`; compared every `every` steps
static void long_pair(const Cfg &c, const std::vector<double> &tr, int p, unsigned long N, unsigned long every,
                      unsigned long rare) {
    Det u, l;
    mc::log("%s and its mirror, pattern %d, %lu observations", showcfg(c).c_str(), p, N);
    if (u.init(c.q, 0, c.disc, c.level, c.cap) || l.init(c.q, 1, c.disc, c.level, c.cap))
        mc::fail("initialisation failed");
    std::vector<double> neg;
    for (double x : tr)
        neg.push_back(-x);
    int ru = spot_fit(&u.sp, tr.data(), tr.size()), rl = spot_fit(&l.sp, neg.data(), neg.size());
    if (ru || rl || !(u.sp.excess_threshold == -l.sp.excess_threshold)) {
        mc::aux(1);
        return;
    }
    mc::aux(0);
    Lcg r(11 + p);
    for (unsigned long k = 0; k < N; k++) {
        double t = u.sp.excess_threshold, w = std::fabs(u.sp.anomaly_threshold - t), x;
        if (!(w > 0 && w < 1e6))
            w = 1;
        bool ex = rare <= 3 ? k % 3 != 0 : k % rare == 0;
        if (!ex)
            x = t - w * (0.001 + r.u());
        else if (k % 31 == 7)
            x = t + 20 * w;
        else
            x = t + 0.3 * w * pattern(p, k, r);
        int a = spot_step(&u.sp, x), b = spot_step(&l.sp, -x);
        // an observation within rounding of the anomaly threshold may fall on either side
        if (a != b && c.disc && std::fabs(x - u.sp.anomaly_threshold) <= 1e-9 * w)
            return;
        MC_CHECK(a == b, "observation %lu: step(%.17g) gives %d (upper), step(%.17g) gives %d (lower)", k, x, a, -x, b);
        if (k % every == 0 || k + 3 > N)
            compare(&u.sp, &l.sp, mc::fmt("after %lu observations", k + 1).c_str());
    }
    mc::trans(2 * N);
    mc::trace();
}

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"pairs with opposite excess thresholds", "training sets whose thresholds differ (skipped)"};
    // all trainings of five values over an alphabet
    static const double V[] = {-2, 0, 1, 3.5, 10};
    int D = mc::thorough ? 3 : 2;
    mc::add("all 5-value training sets over {-2,0,1,3.5,10} x 4 units x discard x all streams", 3125 * 2 * 4, [=](uint64_t i) {
        mc::Digits g(i);
        static const double U[] = {1, 1e-10, 1e-14, 1e9};
        double un = U[g.take(4)];
        int disc = g.take(2);
        std::vector<double> tr;
        for (int k = 0; k < 5; k++)
            tr.push_back(V[g.take(5)] * un);
        Cfg c{0, disc, 0.8, 0.01, 2 + i % 3, 0};
        int syms[8];
        for (uint64_t k = 0; k < mc::ipow(S_COUNT, D); k++) {
            mc::Digits h(k);
            for (int j = 0; j < D; j++)
                syms[j] = h.take(S_COUNT);
            if (!pair_run(c, tr, syms, D))
                break;
        }
    });
    // deeper streams
    static const std::vector<std::vector<double>> T = {{1, 2, 3, 4, 5}, {10, -3, 7.25, 0, 0.125}, {5, 5, 5, 6, 9},
                                                       {1e6, 2e6, -3e6, 0, 4e6}, {1e-7, 3e-7, 2e-7, 0, 9e-7},
                                                       {1e-11, 3e-11, 2e-11, 0, 9e-11}, {4e-15, -1e-15, 2e-15, 0, 9e-15},
                                                       {1e12, 3e12, 2e12, 0, -9e12}, {100.25, 100.5, 100.125, 101, 99}};
    int E = mc::thorough ? 5 : 4;
    mc::add(mc::fmt("all streams of %d observations over %d symbols x 9 training sets x discard x capacities", E,
                    (int)S_COUNT),
            9 * 2 * 3 * S_COUNT, [=](uint64_t i) {
                mc::Digits g(i);
                int first = g.take(S_COUNT), disc = g.take(2);
                unsigned long cap = 1 + g.take(3) * 2;
                const auto &tr = T[g.v];
                Cfg c{0, disc, 0.5, 1e-3, cap, 0};
                int syms[8];
                syms[0] = first;
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, E - 1); k++) {
                    mc::Digits h(k);
                    for (int j = 1; j < E; j++)
                        syms[j] = h.take(S_COUNT);
                    if (!pair_run(c, tr, syms, E))
                        break;
                }
            });
    // longer training sets, whenever the calibrated thresholds are opposite
    mc::add("training sets of 5..64 values x 9 patterns x 3 units x 5 levels x discard, streams of 60", 60 * NPAT * 5 * 2 * 3,
            [=](uint64_t i) {
                mc::Digits g(i);
                int disc = g.take(2);
                static const double U[] = {1, 1e-11, 1e8};
                double un = U[g.take(3)];
                static const double LV[] = {0.5, 0.75, 0.9, 0.98, 0.0};
                double lv = LV[g.take(5)];
                int p = g.take(NPAT);
                unsigned n = 5 + g.v;
                Lcg r(n * 31 + p);
                std::vector<double> tr;
                for (unsigned k = 0; k < n; k++)
                    tr.push_back(un * pattern(p, k, r) * ((k * 5) % 3 ? 1 : -1));
                int syms[60];
                for (int k = 0; k < 60; k++)
                    syms[k] = (k * 7 + i) % S_COUNT == S_BIG ? S_MID : (k * 7 + i) % S_COUNT;
                Cfg c{0, disc, lv, (1 - lv) / 50, 1 + n % 9, 0};
                pair_run(c, tr, syms, 60);
            });
    // long mirrored streams: windows filled and wrapped, counters far from zero
    static const unsigned long CP[] = {1, 7, 64, 129, 257};
    mc::add("long mirrored streams: 5 capacities x 9 patterns x discard x 3 training sets, 900 observations", 5 * NPAT * 2 * 3,
            [](uint64_t i) {
                mc::Digits g(i);
                int disc = g.take(2), p = g.take(NPAT);
                const auto &tr = T[g.take(3)];
                Cfg c{0, disc, 0.5, 1e-3, CP[g.v], 0};
                long_pair(c, tr, p, 900, 1, 3);
            });
    unsigned long NV = mc::thorough ? 8000000 : 400000;
    mc::add(mc::fmt("very long mirrored streams: %lu observations x discard x 3 training sets x 2 mixes", NV), 12, [=](uint64_t i) {
        mc::Digits g(i);
        int disc = g.take(2), mix = g.take(2);
        Cfg c{0, disc, 0.5, 1e-3, 5, 0};
        long_pair(c, T[g.v], 4, NV, 997, mix ? 5000 : 40);
    }, 1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
