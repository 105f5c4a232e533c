// C02: a step changes exactly what its verdict says, and nothing else.
#include "gpd.hpp"
#include "stream.hpp"

struct V : Visitor {
    Snap pre, post;
    bool have = false;
    Snap conf;
    bool heavy;
    explicit V(bool h) : heavy(h) {}
    void fitted(const Cfg &, struct Spot *sp, const std::vector<double> &, int) override {
        snap(sp, conf);
    }
    void before(const Cfg &, struct Spot *sp, double) override { snap(sp, pre); }
    void after(const Cfg &c, struct Spot *sp, double x, int rc) override {
        snap(sp, post);
        // configuration and excess threshold never change
        MC_CHECK(same_bits(post.q, conf.q) && same_bits(post.level, conf.level) &&
                     post.disc == conf.disc && post.low == conf.low && post.cap == conf.cap &&
                     same_bits(post.t, conf.t),
                 "step(%.17g) (verdict %d) changed the configuration or the excess threshold: "
                 "%s -> %s",
                 x, rc, show(conf).c_str(), show(post).c_str());
        if (rc < 0 || rc == ANOMALY) {
            std::string d = diff(pre, post);
            MC_CHECK(d.empty(), "step(%.17g) returned %d but modified the detector: %s", x, rc,
                     d.c_str());
        } else if (rc == NORMAL) {
            MC_CHECK(post.n == pre.n + 1, "NORMAL step(%.17g): n went from %lu to %lu", x, pre.n,
                     post.n);
            Snap p = pre;
            p.n = post.n;
            std::string d = diff(p, post);
            MC_CHECK(d.empty(), "NORMAL step(%.17g) modified more than the count: %s", x,
                     d.c_str());
        } else if (rc == EXCESS) {
            MC_CHECK(post.n == pre.n + 1 && post.Nt == pre.Nt + 1,
                     "EXCESS step(%.17g): n %lu -> %lu, Nt %lu -> %lu", x, pre.n, post.n, pre.Nt,
                     post.Nt);
            // the excess is in the stored tail: same multiset plus x-t, minus one if full
            double ex = c.low ? pre.t - x : x - pre.t;
            MC_CHECK(post.size == std::min(pre.cap, pre.size + 1),
                     "EXCESS step(%.17g): %lu stored excesses before, %lu after (capacity %lu)", x,
                     pre.size, post.size, pre.cap);
            std::vector<double> a = pre.data, b = post.data;
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            auto it = std::find_if(b.begin(), b.end(), [&](double y) { return same(y, ex); });
            MC_CHECK(it != b.end(), "EXCESS step(%.17g): the excess %.17g is not stored", x, ex);
            b.erase(it);
            // what is left was there before
            MC_CHECK(std::includes(a.begin(), a.end(), b.begin(), b.end()),
                     "EXCESS step(%.17g): stored excesses other than the new one changed (%s -> %s)",
                     x, show(pre).c_str(), show(post).c_str());
            // refreshed model: it describes the stored excesses of now
            if (heavy && ex < 1e100)
                model_is_fresh(sp);
            double zz = spot_quantile(sp, sp->q);
            double w = std::fabs(zz - post.t);
            MC_CHECK(same(zz, post.z) || (w < INF && std::fabs(zz - post.z) <= 1e-9 * w),
                     "EXCESS step(%.17g): anomaly threshold %.17g was not refreshed (quantile of "
                     "the current model %.17g)",
                     x, post.z, zz);
        } else
            mc::fail("step(%.17g) returned an unknown verdict %d", x, rc);
        mc::aux(rc < 0 ? 3 : rc);
    }
};

static void counters() {
    // counters across the 2^31, 2^32, 2^53 and 2^63 boundaries
    static const unsigned long B[] = {1ul << 31, 1ul << 32, (1ul << 32) * 5, 1ul << 53, 1ul << 62,
                                      1ul << 63, 1ul << 16, 1ul << 24};
    mc::add("counters across word boundaries: 8 boundaries x offsets x modes", 8 * 3 * 4,
            [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                unsigned long b = B[g.take(8)], off = g.take(3) + 1;
                Cfg c{low, disc, 0.75, 0.01, 3, 1};
                for (unsigned long nt : {5ul, b / 50, b - off - 1}) {
                    Det d;
                    if (d.init(c.q, low, disc, c.level, c.cap))
                        mc::fail("init failed");
                    auto &tr = trainings()[1];
                    if (spot_fit(&d.sp, tr.data(), tr.size()))
                        mc::fail("fit failed");
                    d.sp.n = b - off;
                    d.sp.Nt = nt;
                    MC_CHECK(d.sp.n == b - off && d.sp.Nt == nt,
                             "a counter cannot hold the value %lu", b - off);
                    V v(true);
                    v.fitted(c, &d.sp, tr, 0);
                    for (int k = 0; k < 6; k++) {
                        int sym = (k % 3 == 1) ? S_SMALL : (k % 3 == 2) ? S_T : S_NORM;
                        double x = resolve(&d.sp, low, sym);
                        if (x != x)
                            break;
                        v.before(c, &d.sp, x);
                        unsigned long n0 = d.sp.n, nt0 = d.sp.Nt;
                        int rc = spot_step(&d.sp, x);
                        mc::log("n=%lu Nt=%lu step(%.17g) -> %d n=%lu Nt=%lu", n0, nt0, x, rc,
                                d.sp.n, d.sp.Nt);
                        mc::trans();
                        v.after(c, &d.sp, x, rc);
                        mc::state(hash(&d.sp));
                    }
                    mc::trace();
                }
            });
    // the refresh does not depend on how many excesses there have been
    unsigned long NC = mc::thorough ? 200000 : 20000;
    mc::add(mc::fmt("every excess count 1..%lu, and 10^k, 2^k -3..+3: six steps x modes", NC), (NC / 100 + 60) * 4,
            [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                std::vector<unsigned long> L;
                if (g.v < NC / 100)
                    for (unsigned long k = 1; k <= 100; k++)
                        L.push_back(g.v * 100 + k);
                else {
                    unsigned long k = g.v - NC / 100, b = k < 16 ? (unsigned long)std::pow(10.0, k + 1) : 1ul << (k - 16 + 10);
                    if (k >= 16 && k - 16 + 10 > 56)
                        return;
                    for (long o = -3; o <= 3; o++)
                        if ((long)b + o > 0)
                            L.push_back(b + o);
                }
                Cfg c{low, disc, 0.75, 0.01, 5, 1};
                auto &tr = trainings()[1];
                Det d0;
                if (d0.init(c.q, low, disc, c.level, c.cap))
                    mc::fail("init failed");
                for (unsigned long nt : L) {
                    if (spot_fit(&d0.sp, tr.data(), tr.size()))
                        mc::fail("fit failed");
                    d0.sp.Nt = nt;
                    d0.sp.n = nt < (1ul << 58) / 5 ? 5 * nt : nt;
                    V v(true);
                    v.fitted(c, &d0.sp, tr, 0);
                    if (mc::logging)
                        mc::logtext.clear();
                    for (int k = 0; k < 6; k++) {
                        double x = resolve(&d0.sp, low, k == 0 || k == 3 ? S_SMALL : k == 4 ? S_NORM : k == 5 ? S_T : S_MID);
                        if (x != x)
                            break;
                        v.before(c, &d0.sp, x);
                        unsigned long n0 = d0.sp.n, nt0 = d0.sp.Nt;
                        int rc = spot_step(&d0.sp, x);
                        mc::log("n=%lu Nt=%lu step(%.17g) -> %d n=%lu Nt=%lu", n0, nt0, x, rc, d0.sp.n, d0.sp.Nt);
                        mc::trans();
                        v.after(c, &d0.sp, x, rc);
                    }
                    mc::state(hash(&d0.sp));
                    mc::trace();
                }
            });
    if (mc::thorough)
        mc::add("2^32 + 7 real NORMAL steps", 2, [](uint64_t i) {
            int low = i;
            Det d;
            if (d.init(0.01, low, 1, 0.75, 3))
                mc::fail("init failed");
            auto &tr = trainings()[1];
            if (spot_fit(&d.sp, tr.data(), tr.size()))
                mc::fail("fit failed");
            double x = resolve(&d.sp, low, S_NORM);
            unsigned long n0 = d.sp.n;
            unsigned long N = (1ul << 32) + 7;
            for (unsigned long k = 0; k < N; k++)
                spot_step(&d.sp, x);
            mc::trans(N);
            mc::trace();
            mc::log("2^32+7 NORMAL steps: n %lu -> %lu", n0, d.sp.n);
            MC_CHECK(d.sp.n == n0 + N, "after %lu NORMAL steps n went from %lu to %lu", N, n0,
                     d.sp.n);
        });
}

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"NORMAL", "EXCESS", "ANOMALY", "NaN error"};
    mc::case_seconds = 600;
    add_streams([] { return new V(true); }, 4, 5, 5, 7);
    add_long([] { return new V(true); });
    add_refits([] { return new V(true); }, 4, 5);
    add_units([] { return new V(false); }, 2, 3);
    add_verylong([] { return new V(false); }, 1200000, 20000000);
    counters();
}
int main(int c, char **v) { return mc::main(c, v, setup); }
