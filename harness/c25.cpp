// C25: verdicts do not depend on the unit or the origin of the data.
// Two detectors with the same configuration: one is fed with the data, the
// other with the data times a power of two (exact in floating point) or plus
// an offset on a dyadic grid (exact too).
#include "gpd.hpp"
#include "stream.hpp"

enum { A_SAME, A_TIE, A_OUT };

// the likelihood cannot tell the two models apart, or cannot be decided here
static bool tie(const Snap &a, double g2, double s2) {
    double mx = 0;
    for (double d : a.data)
        mx = std::max(mx, d);
    if (!(mx > 0) || !(mx < 1e150))
        return true;
    ld L1 = ref_llhood(a.data.data(), a.size, a.g, a.s), L2 = ref_llhood(a.data.data(), a.size, g2, s2);
    if (L1 != L1 || L2 != L2) {
        // rounding decides at the end point of a bounded tail
        ld e1 = 1 + (ld)a.g / a.s * mx, e2 = 1 + (ld)g2 / s2 * mx;
        return fabsl(e1) < 1e-9L || fabsl(e2) < 1e-9L || (L1 != L1 && L2 != L2);
    }
    ld top = std::min(1 + (ld)a.g / a.s * mx, 1 + (ld)g2 / s2 * mx);
    if (top < 1e-9L)
        return true;
    ld tol = 10 * (llhood_tol(a.size, L1, a.g, 0) + llhood_tol(a.size, L2, g2, 0));
    tol += 8 * a.size * (ld)EPS / std::min<ld>(1, top) * (1 + 1 / (fabsl((ld)a.g) + 1e-300L) + 1 / (fabsl((ld)g2) + 1e-300L));
    tol += 4e-10L * a.size * (1 + fabsl(logl(a.s)) + 300);
    return fabsl(L1 - L2) <= tol;
}

// 0: different beyond rounding (fails), 1: follow, 2: stop following
static bool compare(struct Spot *u, struct Spot *v, int k, double off, const char *when) {
    Snap a, b;
    snap(u, a);
    snap(v, b);
    auto up = [&](double x) { return std::ldexp(x, k); };
    MC_CHECK(a.n == b.n && a.Nt == b.Nt && a.size == b.size,
             "%s: n=%lu Nt=%lu stored=%lu, and n=%lu Nt=%lu stored=%lu for the data times 2^%d plus %g", when, a.n, a.Nt,
             a.size, b.n, b.Nt, b.size, k, off);
    double sc = 0;
    for (double d : a.data)
        if (d < INF)
            sc = std::max(sc, d);
    double ref = std::fabs(a.t) + sc;
    MC_CHECK(same(up(a.t) + off, b.t) || std::fabs(b.t - (up(a.t) + off)) <= 1e-12 * up(ref),
             "%s: excess threshold %.17g, and %.17g for the data times 2^%d plus %g", when, a.t, b.t, k, off);
    if (!same(up(a.t) + off, b.t))
        return false;
    for (size_t i = 0; i < a.size; i++)
        MC_CHECK(same(up(a.data[i]), b.data[i]) || std::fabs(b.data[i] - up(a.data[i])) <= 1e-12 * up(ref),
                 "%s: stored excess %zu is %.17g, and %.17g for the data times 2^%d plus %g", when, i, a.data[i], b.data[i],
                 k, off);
    for (size_t i = 0; i < a.size; i++)
        if (!same(up(a.data[i]), b.data[i]))
            return false;
    double s2 = std::ldexp(b.s, -k);
    if (!same(a.g, b.g) || !same(a.s, s2)) {
        mc::aux(A_TIE);
        MC_CHECK(tie(a, b.g, s2),
                 "%s: fitted tail gamma=%.17g sigma=%.17g, and gamma=%.17g sigma=%.17g (sigma back in the first unit %.17g) "
                 "for the data times 2^%d plus %g",
                 when, a.g, a.s, b.g, b.s, s2, k, off);
        return false;
    }
    mc::aux(A_SAME);
    double w = std::fabs(a.z - a.t), noise = 4 * EPS * std::fabs(off);
    // a product on the way to a quantile may leave the range of doubles in one unit only
    double ag = std::fabs(a.g), stretch = std::max({1.0, ag, ag > 0 ? 1 / ag : 1.0});
    auto beyond = [&](double x, double y) { return !(std::max(std::fabs(x), std::fabs(y)) <= 1e290 / stretch); };
    if (!same(up(a.z) + off, b.z) && beyond(a.z, b.z) && beyond(up(a.z), b.z))
        return false;
    MC_CHECK(same(up(a.z) + off, b.z) || std::fabs(b.z - (up(a.z) + off)) <= up(1e-12 * (std::fabs(a.t) + w)) + noise,
             "%s: anomaly threshold %.17g, and %.17g for the data times 2^%d plus %g", when, a.z, b.z, k, off);
    for (double q : {1e-6, 1e-3, 0.03, 0.2}) {
        double x = spot_quantile(u, q), y = spot_quantile(v, q);
        MC_CHECK(same(up(x) + off, y) || (beyond(x, y) && beyond(up(x), y)) ||
                     std::fabs(y - (up(x) + off)) <= up(1e-12 * (std::fabs(a.t) + std::fabs(x - a.t))) + noise,
                 "%s: quantile(%g) is %.17g, and %.17g for the data times 2^%d plus %g", when, q, x, y, k, off);
    }
    if (off == 0)
        for (double f : {0.0, 0.5, 1.0, 3.0}) {
            double x = a.t + (a.low ? -f : f) * (w > 0 && w < INF ? w : 1);
            double p = spot_probability(u, x), r = spot_probability(v, up(x));
            MC_CHECK(same(p, r) || std::fabs(p - r) <= 1e-12 * std::fabs(p) + 1e-300,
                     "%s: probability(%.17g) is %.17g, and probability(%.17g) %.17g for the data times 2^%d", when, x, p,
                     up(x), r, k);
        }
    mc::trans(16);
    mc::state(hash(b));
    return true;
}

static double grid(double x) { return std::nearbyint(x * 1024) / 1024; }

static bool pair_run(const Cfg &c, const std::vector<double> &tr, int k, double off, const int *syms, int len) {
    Det u, v;
    if (mc::logging) {
        mc::logtext.clear();
        std::string s;
        for (size_t i = 0; i < tr.size() && i < 30; i++)
            s += mc::fmt("%s%.17g", i ? "," : "", tr[i]);
        mc::log("%s, and the same with all data times 2^%d plus %g; training data {%s} (%zu)", showcfg(c).c_str(), k, off,
                s.c_str(), tr.size());
    }
    if (u.init(c.q, c.low, c.disc, c.level, c.cap) || v.init(c.q, c.low, c.disc, c.level, c.cap))
        mc::fail("initialisation failed");
    std::vector<double> t2;
    for (double x : tr)
        t2.push_back(std::ldexp(x, k) + off);
    int ru = spot_fit(&u.sp, tr.data(), tr.size()), rv = spot_fit(&v.sp, t2.data(), t2.size());
    mc::trans(2);
    if (mc::logging) {
        mc::log("%d %s", ru, show(&u.sp).c_str());
        mc::log("%d %s", rv, show(&v.sp).c_str());
    }
    MC_CHECK(ru == rv, "fit returns %d, and %d for the data times 2^%d plus %g", ru, rv, k, off);
    if (ru || !compare(&u.sp, &v.sp, k, off, "after fit"))
        return false;
    for (int i = 0; i < len; i++) {
        double x = resolve(&u.sp, c.low, syms[i]);
        if (off != 0) {
            if (!(std::fabs(x) < 1e9))
                return true;
            x = grid(x);
        }
        double y = std::ldexp(x, k) + off;
        // stay well inside the range of doubles, squares included
        double ex = std::fabs(x - u.sp.excess_threshold), xe = std::ldexp(ex, k);
        if (x == x && std::fabs(x) < INF && ex != 0 &&
            (xe > 0x1p440 || xe < 0x1p-440 || ex > 0x1p440 || ex < 0x1p-440 || std::ldexp(y - off, -k) != x)) {
            mc::aux(A_OUT);
            return true;
        }
        // rounding of the anomaly threshold decides
        if (off != 0 && std::fabs(x - u.sp.anomaly_threshold) <= 8 * EPS * (std::fabs(off) + std::fabs(x)))
            continue;
        int a = spot_step(&u.sp, x), b = spot_step(&v.sp, y);
        mc::trans(2);
        if (mc::logging) {
            mc::log("step(%.17g) -> %d %s", x, a, show(&u.sp).c_str());
            mc::log("step(%.17g) -> %d %s", y, b, show(&v.sp).c_str());
        }
        // the thresholds were the same, so must the verdict be (infinities included)
        MC_CHECK(a == b, "step(%.17g) gives %d, step(%.17g) gives %d for the data times 2^%d plus %g", x, a, y, b, k, off);
        if (x - x != 0 && a == EXCESS)
            return true; // an infinite excess: nothing finite to compare
        if (!compare(&u.sp, &v.sp, k, off, "after a step"))
            return true;
        // rounded thresholds may order the next observation differently
        if (off == 0 && !same(std::ldexp(u.sp.anomaly_threshold, k), v.sp.anomaly_threshold))
            return true;
    }
    mc::trace();
    return true;
}

static const int K[] = {-300, -200, -100, -64, -53, -40, -30, -20, -10, -3, -1, 1, 2, 5, 10, 20, 30, 40, 64, 100, 200, 300};
enum { NK = sizeof K / sizeof *K };

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"states that agree exactly", "states that differ by a tie of the likelihood",
                     "histories left at the edge of the range of doubles"};
    mc::case_seconds = 600;
    auto cs = std::make_shared<std::vector<Cfg>>(configs(false));
    int D = mc::thorough ? 4 : 3;
    mc::add(mc::fmt("%d units x %zu configurations: all sequences of %d observations over %d symbols", (int)NK, cs->size(), 2,
                    (int)S_COUNT),
            NK * cs->size(), [=](uint64_t i) {
                mc::Digits g(i);
                int k = K[g.take(NK)];
                const Cfg &c = (*cs)[g.v];
                int syms[8];
                for (uint64_t j = 0; j < mc::ipow(S_COUNT, 2); j++) {
                    mc::Digits h(j);
                    syms[0] = h.take(S_COUNT);
                    syms[1] = h.take(S_COUNT);
                    if (!pair_run(c, trainings()[c.train], k, 0, syms, 2))
                        break;
                }
            });
    auto sm = std::make_shared<std::vector<Cfg>>(configs(true));
    mc::add(mc::fmt("6 units x %zu configurations: all sequences of %d observations over %d symbols", sm->size(), D,
                    (int)S_COUNT),
            6 * sm->size() * S_COUNT, [=](uint64_t i) {
                mc::Digits g(i);
                static const int k6[] = {-300, -37, -20, 20, 37, 300};
                int k = k6[g.take(6)], first = g.take(S_COUNT);
                const Cfg &c = (*sm)[g.v];
                int syms[8] = {first};
                for (uint64_t j = 0; j < mc::ipow(S_COUNT, D - 1); j++) {
                    mc::Digits h(j);
                    for (int m = 1; m < D; m++)
                        syms[m] = h.take(S_COUNT);
                    if (!pair_run(c, trainings()[c.train], k, 0, syms, D))
                        break;
                }
            });
    mc::add(mc::fmt("training sets of 22 sizes 5..2000 x 9 patterns x %d units x tails x 3 levels, streams of 60", (int)NK),
            22 * NPAT * NK * 2 * 3, [=](uint64_t i) {
                mc::Digits g(i);
                int k = K[g.take(NK)], low = g.take(2), p = g.take(NPAT);
                static const double LV[] = {0.5, 0.9, 0.98};
                double lv = LV[g.take(3)];
                static const unsigned SZ[] = {5,  6,  7,  8,  9,  10, 12,  15,  20,  25,  31,
                                              32, 33, 50, 64, 99, 128, 200, 255, 500, 1000, 2000};
                unsigned n = SZ[g.v];
                Lcg r(n * 31 + p);
                std::vector<double> tr;
                for (unsigned j = 0; j < n; j++)
                    tr.push_back(pattern(p, j, r) * ((j * 5) % 3 ? 1 : -1));
                int syms[60];
                for (int j = 0; j < 60; j++)
                    syms[j] = (j * 7 + i) % S_COUNT == S_BIG || (j * 7 + i) % S_COUNT == S_PINF ? S_MID : (j * 7 + i) % S_COUNT;
                Cfg c{low, (int)(i & 1), lv, (1 - lv) / 50, 1 + n % 37, 0};
                pair_run(c, tr, k, 0, syms, 60);
            });
    // offsets: the excess threshold of five values is one of them, all is exact
    static const double V[] = {-2, 0, 1, 3.5, 10};
    static const double O[] = {1, -1, -3.5, 1024, -65536, 0x1p30, -0x1p38};
    mc::add("all 5-value training sets over {-2,0,1,3.5,10} x 4 offsets x tails x discard x all streams of 2", 3125 * 4 * 4,
            [=](uint64_t i) {
                mc::Digits g(i);
                double off = O[3 + g.take(4)];
                int low = g.take(2), disc = g.take(2);
                std::vector<double> tr;
                for (int k = 0; k < 5; k++)
                    tr.push_back(V[g.take(5)]);
                Cfg c{low, disc, 0.8, 0.01, 2 + i % 3, 0};
                int syms[8];
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, 2); k++) {
                    mc::Digits h(k);
                    for (int j = 0; j < 2; j++)
                        syms[j] = h.take(S_COUNT);
                    if (!pair_run(c, tr, 0, off, syms, 2))
                        break;
                }
            });
    mc::add(mc::fmt("4 training sets x 7 offsets x tails x discard x 3 capacities: all streams of %d", D + 1), 4 * 7 * 4 * 3 * S_COUNT,
            [=](uint64_t i) {
                mc::Digits g(i);
                double off = O[g.take(7)];
                int low = g.take(2), disc = g.take(2), first = g.take(S_COUNT);
                unsigned long cap = 1 + 2 * g.take(3);
                static const std::vector<std::vector<double>> T = {
                    {1, 2, 3, 4, 5}, {10, -3, 7.25, 0, 0.125}, {5, 5, 4, 6, 9}, {100.25, 100.5, 100.125, 101, 99}};
                Cfg c{low, disc, 0.5, 1e-3, cap, 0};
                int syms[8] = {first};
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, D); k++) {
                    mc::Digits h(k);
                    for (int j = 1; j <= D; j++)
                        syms[j] = h.take(S_COUNT);
                    if (!pair_run(c, T[g.v], 0, off, syms, D + 1))
                        break;
                }
            });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
