// C08: quantile queries and the anomaly threshold follow the current tail model.
#include "query.hpp"
#include "stream.hpp"

static void check_queries(const struct Spot *sp, int low, bool wide) {
    double g = sp->tail.gamma, s = sp->tail.sigma, t = sp->excess_threshold;
    if (!(s > 0) || !(s < INF) || !(std::fabs(g) < INF) || sp->Nt == 0 || sp->n == 0 || t != t)
        return;
    ld ratio = (ld)sp->Nt / (ld)sp->n;
    static const double Q[] = {1e-300, 1e-100, 1e-30, 1e-12, 1e-8, 1e-5, 1e-4, 1e-3, 0.01,
                               0.02,   0.05,   0.1,   0.2,   0.5,  0.9,  1.0};
    double prev = QNAN;
    ld ptol = 0;
    for (double q : Q) {
        if (!wide && q < 1e-30)
            continue;
        double z = spot_quantile(sp, q);
        mc::trans();
        Bounded b = ref_quantile(g, s, ratio, q);
        ld want = low ? t - b.v : t + b.v;
        ld tol = b.tol * 2 + 4 * EPS * fabsl(t) + 4 * EPS * fabsl(want) + 1e-300L;
        if (!(fabsl(want) < 1e300L) || !(tol < 1e300L))
            continue;
        MC_CHECK(fabsl(z - want) <= tol,
                 "quantile(%g) = %.17g, the model (t=%.17g gamma=%.17g sigma=%.17g Nt=%lu n=%lu "
                 "low=%d) gives %.17Lg (tolerance %Lg)",
                 q, z, t, g, s, sp->Nt, sp->n, low, want, tol);
        if (prev == prev)
            MC_CHECK((low ? -1 : 1) * (prev - (ld)z) >= -(tol + ptol),
                     "quantile(%g) = %.17g lies further out than the quantile of a smaller "
                     "probability, %.17g",
                     q, z, prev);
        prev = z;
        ptol = tol;
    }
}

struct V : Visitor {
    double z0;
    bool quiet; // no query before the end of the history
    explicit V(bool q = false) : quiet(q) {}
    void fresh(struct Spot *sp, const char *what) {
        if (quiet)
            return;
        double z = spot_quantile(sp, sp->q), a = sp->anomaly_threshold;
        double w = std::fabs(z - sp->excess_threshold);
        MC_CHECK(same(z, a) || (w < INF && std::fabs(z - a) <= 1e-9 * w + 1e-300),
                 "%s: the anomaly threshold is %.17g, the quantile of the current model at q=%g is "
                 "%.17g",
                 what, a, sp->q, z);
    }
    // the anomaly threshold itself follows the formula
    void formula(const Cfg &c, struct Spot *sp, const char *what) {
        double g = sp->tail.gamma, s = sp->tail.sigma, t = sp->excess_threshold;
        if (!(s > 0 && s < INF && std::fabs(g) < INF) || sp->Nt == 0)
            return;
        Bounded b = ref_quantile(g, s, (ld)sp->Nt / (ld)sp->n, sp->q);
        ld want = c.low ? t - b.v : t + b.v;
        ld tol = 2 * b.tol + 8 * EPS * (fabsl(t) + fabsl(want)) + 1e-300L;
        if (tol < 1e300L && fabsl(want) < 1e300L)
            MC_CHECK(fabsl(sp->anomaly_threshold - want) <= tol,
                     "after %s the anomaly threshold is %.17g, the model gives %.17Lg", what, sp->anomaly_threshold,
                     want);
    }
    void fitted(const Cfg &c, struct Spot *sp, const std::vector<double> &, int rc) override {
        if (rc)
            return;
        formula(c, sp, "fit");
        fresh(sp, "after fit");
        if (!quiet)
            check_queries(sp, c.low, false);
    }
    void before(const Cfg &, struct Spot *sp, double) override { z0 = sp->anomaly_threshold; }
    void after(const Cfg &c, struct Spot *sp, double x, int rc) override {
        if (rc == EXCESS) {
            fresh(sp, "after an excess");
            formula(c, sp, mc::fmt("step(%.17g)", x).c_str());
        } else
            MC_CHECK(same_bits(z0, sp->anomaly_threshold),
                     "step(%.17g) (verdict %d) moved the anomaly threshold from %.17g to %.17g", x,
                     rc, z0, sp->anomaly_threshold);
    }
    void finish(const Cfg &c, struct Spot *sp) override {
        double z = sp->anomaly_threshold;
        check_queries(sp, c.low, false);
        MC_CHECK(same_bits(z, sp->anomaly_threshold), "a query moved the anomaly threshold");
    }
};

static void setup() {
    mc::case_seconds = 600;
    set_allocators(malloc, free);
    add_streams([] { return new V; }, 4, 5, 5, 7);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
    add_refits([] { return new V(true); }, 4, 6);
    add_verylong([] { return new V; }, 1500000, 30000000);
    // synthetic model states: the whole grid of parameters
    static const std::vector<double> G = {-5,   -2,    -1,   -0.5,  -0.1, -1e-3, -1e-6, -1e-9, 0,
                                          1e-9, 1e-6,  1e-3, 0.1,   0.3,  0.5,   1,     2,     5};
    static const std::vector<double> S = {1e-12, 1e-6, 0.01, 1, 3.7, 100, 1e6, 1e12};
    static const std::vector<double> T = {0, 1, -1, 12.5, -1e6, 1e9};
    static const std::vector<std::pair<unsigned long, unsigned long>> R = {
        {1, 5},           {2, 100},          {20, 1000},        {1, 1},
        {1000, 50000},    {4000000000ul, 200000000000ul},       {1, 1ul << 40},
        {5000000000ul, 5000000007ul}, {3, 4294967296ul + 5},    {1ul << 33, 1ul << 34}};
    mc::add(mc::fmt("synthetic states: %zu shapes x %zu scales x %zu thresholds x %zu counts x "
                    "tails, 16 probabilities",
                    G.size(), S.size(), T.size(), R.size()),
            G.size() * S.size() * T.size() * R.size() * 2, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2);
                double ga = G[g.take(G.size())], s = S[g.take(S.size())], t = T[g.take(T.size())];
                auto r = R[g.take(R.size())];
                Det d;
                if (d.init(0.001, low, 1, 0.9, 2))
                    mc::fail("init failed");
                // some stored excesses: the answer must not depend on them
                tail_push(&d.sp.tail, 1);
                tail_push(&d.sp.tail, 2);
                d.sp.excess_threshold = t;
                d.sp.tail.gamma = ga;
                d.sp.tail.sigma = s;
                d.sp.Nt = r.first;
                d.sp.n = r.second;
                mc::log("low=%d t=%g gamma=%g sigma=%g Nt=%lu n=%lu: quantile(1e-4)=%.17g", low, t,
                        ga, s, r.first, r.second, spot_quantile(&d.sp, 1e-4));
                check_queries(&d.sp, low, true);
                mc::state(i + 1);
                mc::trace();
            });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
