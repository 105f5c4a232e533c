// C09: probability queries return the model tail probability, in [0,1].
#include "query.hpp"
#include "stream.hpp"

static void check_queries(const struct Spot *sp, int low, bool many) {
    double g = sp->tail.gamma, s = sp->tail.sigma, t = sp->excess_threshold;
    if (!(s > 0) || !(s < INF) || !(std::fabs(g) < INF) || sp->Nt == 0 || sp->n == 0 ||
        sp->Nt > sp->n || !(std::fabs(t) < INF))
        return;
    ld ratio = (ld)sp->Nt / (ld)sp->n;
    double dir = low ? -1 : 1;
    std::vector<double> zs = {t, std::nextafter(t, dir * INF)};
    for (double f : {1e-6, 1e-3, 0.1, 0.5, 1.0, 2.0, 5.0, 20.0, 100.0, 1e4, 1e8, 1e15})
        zs.push_back(t + dir * f * s);
    if (g < 0) {
        double end = -s / g;
        for (double f : {0.5, 0.9, 0.999, 0.999999, 1.0, 1.000001, 1.1, 3.0})
            zs.push_back(t + dir * f * end);
        zs.push_back(std::nextafter(t + dir * end, dir * INF));
        zs.push_back(std::nextafter(t + dir * end, -dir * INF));
    }
    zs.push_back(dir * 1e100);
    zs.push_back(dir * 1e300);
    zs.push_back(dir * 1.7976931348623157e308);
    zs.push_back(dir * INF);
    std::sort(zs.begin(), zs.end(), [&](double a, double b) { return dir * a < dir * b; });
    double prev = QNAN;
    ld ptol = 0;
    for (double z : zs) {
        if (dir * z < dir * t)
            continue;
        double p = spot_probability(sp, z);
        mc::trans();
        MC_CHECK(p == p, "probability(%.17g) is NaN (t=%.17g gamma=%.17g sigma=%.17g Nt=%lu n=%lu "
                         "low=%d)",
                 z, t, g, s, sp->Nt, sp->n, low);
        MC_CHECK(p >= 0 && p <= 1 + 1e-12, "probability(%.17g) = %.17g is not in [0,1]", z, p);
        double dd = low ? t - z : z - t;
        if (z == t)
            MC_CHECK(fabsl(p - ratio) <= 1e-12L * ratio,
                     "probability at the excess threshold is %.17g instead of Nt/n = %.17Lg", p,
                     ratio);
        ld tol = 0;
        if (dd < INF) {
            Bounded b = ref_probability(g, s, ratio, dd);
            // the end point itself moves by rounding
            ld one = g < 0 ? 1 + (ld)dd * ((ld)g / s) : 1;
            if (g < 0 && one <= 0) {
                if (one < -8 * EPS * (1 + fabsl((ld)dd * g / s)))
                    MC_CHECK(p == 0, "probability(%.17g) = %.17g beyond the end point of the tail",
                             z, p);
                tol = ratio;
            } else {
                tol = 2 * b.tol;
                MC_CHECK(fabsl(p - b.v) <= tol,
                         "probability(%.17g) = %.17g, the model (t=%.17g gamma=%.17g sigma=%.17g "
                         "Nt=%lu n=%lu low=%d) gives %.17Lg (tolerance %Lg)",
                         z, p, t, g, s, sp->Nt, sp->n, low, b.v, tol);
            }
            if (g < 0 && one < 1e-9L)
                tol = std::max<ld>(tol, powl(1e-9L, -1 / (ld)g) * ratio * 2);
        } else
            MC_CHECK(p == 0, "probability(%g) = %.17g", z, p);
        if (prev == prev)
            MC_CHECK(p <= prev + tol + ptol, "probability increases from %.17g to %.17g at %.17g",
                     prev, p, z);
        prev = p;
        ptol = tol;
    }
    // inverse of the quantile
    if (many && s > 1e-290)
        for (double q : {1e-10, 1e-6, 1e-4, 1e-3, 0.01, 0.1}) {
            if (q > 0.9 * (double)ratio)
                continue;
            Bounded bq = ref_quantile(g, s, ratio, q);
            if (!(bq.v < 1e280L) || !(bq.tol < 1e-3L * bq.v))
                continue;
            // conditioning: dp/p = dd * f/S
            ld one = g == 0 ? 1 : powl(q / ratio, -(ld)g);
            ld hz = 1 / ((ld)s * one); // hazard rate
            ld rel = (2 * bq.tol + 8 * EPS * (fabsl((ld)t) + bq.v)) * hz;
            Bounded bp = ref_probability(g, s, ratio, bq.v);
            if (!(one > 1e-14L) || !(rel < 1e-2L) || !(bp.tol < 1e-2L * q))
                continue;
            double z = spot_quantile(sp, q);
            double p = spot_probability(sp, z);
            mc::trans(2);
            MC_CHECK(fabsl(p - q) <= 4 * (rel * q + bp.tol),
                     "probability(quantile(%g)) = %.17g (quantile %.17g, gamma=%.17g sigma=%.17g)",
                     q, p, z, g, s);
            mc::aux(0);
        }
}

struct V : Visitor {
    unsigned long k = 0;
    void fitted(const Cfg &c, struct Spot *sp, const std::vector<double> &, int rc) override {
        if (!rc && k++ % 50 == 0)
            check_queries(sp, c.low, true);
    }
    void finish(const Cfg &c, struct Spot *sp) override { check_queries(sp, c.low, true); }
};

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"inverse checks"};
    add_streams([] { return new V; }, 3, 5, 4, 6);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
    static const std::vector<double> G = {-5,   -2,   -1,   -0.5, -0.1, -1e-3, -1e-6, 0,
                                          1e-6, 1e-3, 0.1,  0.3,  0.5,  1,     2,     5};
    static const std::vector<double> S = {1e-12, 1e-6, 0.01, 1, 3.7, 100, 1e6, 1e12};
    static const std::vector<double> T = {0, 1, -1, 12.5, -1e6, 1e9};
    static const std::vector<std::pair<unsigned long, unsigned long>> R = {
        {1, 5}, {2, 100}, {1, 1}, {1000, 50000}, {4000000000ul, 200000000000ul}, {1, 1ul << 40},
        {5000000000ul, 5000000007ul}, {3, 4294967296ul + 5}};
    mc::add(mc::fmt("synthetic states: %zu shapes x %zu scales x %zu thresholds x %zu counts x "
                    "tails",
                    G.size(), S.size(), T.size(), R.size()),
            G.size() * S.size() * T.size() * R.size() * 2, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2);
                double ga = G[g.take(G.size())], s = S[g.take(S.size())], t = T[g.take(T.size())];
                auto r = R[g.take(R.size())];
                Det d;
                if (d.init(0.001, low, 1, 0.9, 2))
                    mc::fail("init failed");
                tail_push(&d.sp.tail, 1);
                tail_push(&d.sp.tail, 2);
                d.sp.excess_threshold = t;
                d.sp.tail.gamma = ga;
                d.sp.tail.sigma = s;
                d.sp.Nt = r.first;
                d.sp.n = r.second;
                mc::log("low=%d t=%g gamma=%g sigma=%g Nt=%lu n=%lu: probability(t+2*sigma)=%.17g",
                        low, t, ga, s, r.first, r.second,
                        spot_probability(&d.sp, t + (low ? -2 : 2) * s));
                check_queries(&d.sp, low, true);
                mc::state(i + 1);
                mc::trace();
            });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
