// C04: tail statistics always describe exactly the stored excesses.
#include "stream.hpp"

static void check_stats(const struct Peaks *p, const char *what) {
    const struct Ubend *u = &p->container;
    unsigned long n = ubend_size(u);
    MC_CHECK(peaks_size(p) == n, "peaks_size %lu, container %lu", peaks_size(p), n);
    if (n == 0)
        return;
    long double e = 0, e2 = 0;
    double mn = INF, mx = -INF;
    for (unsigned long i = 0; i < n; i++) {
        double v = u->data[i];
        e += v;
        e2 += (long double)v * v;
        mn = std::min(mn, v);
        mx = std::max(mx, v);
    }
    MC_CHECK(p->min == mn, "%s: recorded minimum %.17g, actual %.17g", what, p->min, mn);
    MC_CHECK(p->max == mx, "%s: recorded maximum %.17g, actual %.17g", what, p->max, mx);
    long double M = std::max(std::fabs(mn), std::fabs(mx));
    if (mx == INF) {
        MC_CHECK(p->e == INF && p->e2 == INF, "%s: sum %g of squares %g with an infinite excess", what,
                 p->e, p->e2);
        return;
    }
    // rounding of at most two operations per stored slot at the magnitude of the stored values
    long double N = (long double)u->capacity;
    long double te = 4 * N * EPS * N * M + 1e-300L, te2 = 4 * N * EPS * N * M * M + 1e-300L;
    // a sum that exceeds every double is infinite
    const long double DM = std::numeric_limits<double>::max();
    auto near = [&](double got, long double want, long double tol) {
        return fabsl(got - want) <= tol || (got == INF && want + tol > DM);
    };
    MC_CHECK(near(p->e, e, te), "%s: recorded sum %.17g, actual %.17Lg", what, p->e, e);
    MC_CHECK(near(p->e2, e2, te2), "%s: recorded sum of squares %.17g, actual %.17Lg", what, p->e2, e2);
    if (M > 1e150)
        return;
    long double mean = e / n, var = e2 / n - mean * mean;
    double pm = peaks_mean(p), pv = peaks_var(p);
    MC_CHECK(fabsl(pm - mean) <= te / n + 4 * EPS * M, "%s: mean %.17g, actual %.17Lg", what, pm,
             mean);
    MC_CHECK(fabsl(pv - var) <= te2 / n + 4 * M * te / n + 16 * EPS * M * M,
             "%s: variance %.17g, actual %.17Lg", what, pv, var);
}

struct V : Visitor {
    unsigned long k = 0;
    void fitted(const Cfg &, struct Spot *sp, const std::vector<double> &, int rc) override {
        if (!rc)
            check_stats(&sp->tail.peaks, "after fit");
        k = 0;
    }
    void after(const Cfg &, struct Spot *sp, double, int) override {
        check_stats(&sp->tail.peaks, "after step");
    }
};

static void setup() {
    mc::case_seconds = 600;
    set_allocators(malloc, free);
    add_streams([] { return new V; }, 4, 5, 6, 7);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
    add_units([] { return new V; }, 2, 3);
    add_verylong([] { return new V; }, 800000, 16000000);
    struct Alpha {
        const char *name;
        std::vector<double> v;
        int dq, dt;
    };
    static std::vector<Alpha> as = {
        {"4 small integers", {0, 1, 2, 3}, 8, 10},
        {"mixed magnitudes", {1, 1e-3, 1e8, 1e16, 0, 12345.678}, 6, 8},
        {"non dyadic", {0.1, 0.2, 0.3}, 9, 12},
        {"huge and infinite", {1, 1e100, 1e-100, INF, 3}, 6, 7},
        {"5 values", {5, 4, 3, 2, 1}, 7, 9},
        {"overflowing values", {1.7e308, 1e308, 0.5, 1.2e154, 1e154, INF}, 6, 7},
        {"tiny values", {5e-324, 1e-320, 3e-308, 1e-310, 1e-200}, 6, 7},
    };
    for (auto &a : as) {
        int depth = mc::thorough ? a.dt : a.dq;
        size_t m = a.v.size();
        uint64_t cont = mc::ipow(m, depth - 1);
        Alpha *pa = &a;
        mc::add(mc::fmt("peaks: all sequences of %d pushes over %s x capacities 1..6", depth,
                        a.name),
                6 * m, [=](uint64_t i) {
                    mc::Digits g(i);
                    unsigned long cap = 1 + g.take(6);
                    int first = g.v;
                    for (uint64_t k = 0; k < cont; k++) {
                        if (mc::logging)
                            mc::logtext.clear();
                        struct Peaks p;
                        if (peaks_init(&p, cap))
                            mc::fail("peaks_init failed");
                        mc::Digits h(k);
                        for (int j = 0; j < depth; j++) {
                            double x = pa->v[j == 0 ? first : h.take(m)];
                            peaks_push(&p, x);
                            mc::trans();
                            mc::log("capacity %lu push(%.17g): e=%.17g e2=%.17g min=%.17g max=%.17g",
                                    cap, x, p.e, p.e2, p.min, p.max);
                            check_stats(&p, "after push");
                            mc::state(mc::mixd(mc::mixd(mc::mix(mc::mix(cap, k * 31 + first), j),
                                                        p.e),
                                               p.e2));
                        }
                        peaks_free(&p);
                        mc::trace();
                    }
                },
                1);
    }
    // long streams of many magnitudes: no drift
    static const unsigned long caps[] = {1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100, 200, 257};
    mc::add("peaks: long streams, 14 capacities x 9 patterns x 5 magnitude mixes", 14 * NPAT * 5,
            [=](uint64_t i) {
                mc::Digits g(i);
                unsigned long cap = caps[g.take(14)];
                int pat = g.take(NPAT), mag = g.v;
                struct Peaks p;
                if (peaks_init(&p, cap))
                    mc::fail("peaks_init failed");
                Lcg r(i + 3);
                unsigned long N = mc::thorough ? 40000 : 3000;
                for (unsigned long k = 0; k < N; k++) {
                    double x = pattern(pat, k, r);
                    if (mag == 1)
                        x *= std::pow(10.0, (double)(k % 13) - 6);
                    if (mag == 2 && k % (cap + 3) == 0)
                        x *= 1e14;
                    if (mag == 3)
                        x *= 1e-120;
                    if (mag == 4)
                        x *= std::pow(10.0, 12.0 - 24.0 * k / N);
                    peaks_push(&p, x);
                    mc::trans();
                    if (k + 5 > N)
                        mc::log("capacity %lu push %lu (%.17g): e=%.17g e2=%.17g min=%.17g max=%.17g",
                                cap, k, x, p.e, p.e2, p.min, p.max);
                    if (cap < 20 || k % 13 == 0)
                        check_stats(&p, "after push");
                    mc::state(mc::mixd(mc::mixd(mc::mix(cap, i), p.e), p.e2));
                }
                peaks_free(&p);
                mc::trace();
            },
            2);
    // large capacities: extremes enter, stay for the whole window and leave
    static const unsigned long big[] = {500,   1000,  1023,  1024,  1025,  4096,  4097, 10000,
                                        32768, 65535, 65536, 65537, 131073};
    mc::add("peaks: 13 large capacities up to 2^17+1, extremes through the window", 13,
            [=](uint64_t i) {
                unsigned long cap = big[i];
                struct Peaks p;
                if (peaks_init(&p, cap))
                    mc::fail("peaks_init failed");
                unsigned long N = 2 * cap + cap / 2;
                for (unsigned long k = 0; k < N; k++) {
                    double x = 1.0 + ((k * 2654435761ul) % 4093) / 4096.0;
                    if (k % (cap / 3) == 17)
                        x = k % 2 ? 8.0 + k / (double)cap : 0.125 / (1 + k / (double)cap);
                    peaks_push(&p, x);
                    if (k % (cap / 7) < 2 || k + 3 > N || (k >= cap && k % (cap / 3) < 20 && k % (cap / 3) > 15))
                        check_stats(&p, "after push");
                }
                mc::trans(N);
                mc::log("capacity %lu: %lu pushes e=%.17g e2=%.17g min=%.17g max=%.17g", cap, N, p.e,
                        p.e2, p.min, p.max);
                mc::state(mc::mixd(cap, p.e));
                peaks_free(&p);
                mc::trace();
            },
            1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
