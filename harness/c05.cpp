// C05: calibration derives all of the model from the training data alone.
#include "stream.hpp"

static void check_fit(const Cfg &c, const std::vector<double> &d, const struct Spot *sp, int rc) {
    MC_CHECK(rc == 0 || rc == -ERR_EXCESS_THRESHOLD_IS_NAN || rc == -ERR_ANOMALY_THRESHOLD_IS_NAN,
             "fit returned the unknown code %d", rc);
    if (d.size() < 5) {
        MC_CHECK(rc == -ERR_EXCESS_THRESHOLD_IS_NAN,
                 "fit on %zu values returned %d: no excess threshold can be estimated", d.size(),
                 rc);
        return;
    }
    MC_CHECK(rc != -ERR_EXCESS_THRESHOLD_IS_NAN,
             "fit on %zu finite values found no excess threshold", d.size());
    double mn = INF, mx = -INF;
    for (double x : d) {
        mn = std::min(mn, x);
        mx = std::max(mx, x);
    }
    double t = sp->excess_threshold;
    double slack = 1e-12 * std::max(std::fabs(mn), std::fabs(mx)) + 1e-322;
    MC_CHECK(t >= mn - slack && t <= mx + slack,
             "excess threshold %.17g is not between the extremes %.17g and %.17g of the training "
             "data",
             t, mn, mx);
    MC_CHECK(sp->n == d.size(), "n=%lu after a fit on %zu values", sp->n, d.size());
    std::deque<double> w;
    unsigned long nt = 0;
    for (double x : d)
        if (c.low ? x < t : x > t) {
            nt++;
            w.push_back(c.low ? t - x : x - t);
            if (w.size() > c.cap)
                w.pop_front();
        }
    MC_CHECK(sp->Nt == nt, "Nt=%lu but %lu training values are strictly beyond the threshold %.17g",
             sp->Nt, nt, t);
    unsigned long n = stored(sp);
    MC_CHECK(n == w.size(), "%lu excesses stored, expected %zu", n, w.size());
    std::vector<double> a(sp->tail.peaks.container.data, sp->tail.peaks.container.data + n),
        b(w.begin(), w.end());
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    for (size_t i = 0; i < n; i++)
        MC_CHECK(a[i] == b[i] || std::fabs(a[i] - b[i]) <= 4 * EPS * (std::fabs(t) + mx - mn),
                 "stored excess %.17g, expected %.17g (rank %zu)", a[i], b[i], i);
    bool nan = sp->anomaly_threshold != sp->anomaly_threshold;
    if (rc == 0)
        MC_CHECK(!nan, "fit succeeded with a NaN anomaly threshold");
    else
        MC_CHECK(nan, "fit reported a NaN anomaly threshold but it is %.17g",
                 sp->anomaly_threshold);
    if (nt == 0)
        MC_CHECK(rc == -ERR_ANOMALY_THRESHOLD_IS_NAN,
                 "no training value is beyond the excess threshold but fit returned %d", rc);
    mc::aux(rc == 0 ? 0 : 1);
}

static int do_fit(const Cfg &c, struct Spot *sp, const std::vector<double> &d) {
    // exact-size copy: the data are read only
    std::vector<double> copy = d;
    int rc = spot_fit(sp, copy.data(), copy.size());
    mc::trans();
    MC_CHECK(copy.size() == d.size() &&
                 (d.empty() || memcmp(copy.data(), d.data(), d.size() * sizeof(double)) == 0),
             "fit modified the training data");
    if (mc::logging) {
        std::string s;
        for (size_t i = 0; i < d.size() && i < 30; i++)
            s += mc::fmt("%s%.17g", i ? "," : "", d[i]);
        mc::log("fit({%s}) size %zu -> %d %s", s.c_str(), d.size(), rc, show(sp).c_str());
    }
    (void)c;
    return rc;
}

static void one(const Cfg &c, const std::vector<double> &d) {
    Det det;
    if (mc::logging)
        mc::logtext.clear();
    mc::log("%s", showcfg(c).c_str());
    if (det.init(c.q, c.low, c.disc, c.level, c.cap))
        mc::fail("initialisation failed");
    int rc = do_fit(c, &det.sp, d);
    check_fit(c, d, &det.sp, rc);
    mc::state(hash(&det.sp));
    mc::trace();
}

static std::vector<Cfg> cfgs() {
    std::vector<Cfg> o;
    for (double lv : {0.0, 0.5, 0.75, 0.98})
        for (unsigned long cap : {1ul, 2ul, 10ul})
            for (int low = 0; low < 2; low++)
                o.push_back({low, 1, lv, (1 - lv) / 8, cap, 0});
    return o;
}

static void setup() {
    mc::case_seconds = 900;
    set_allocators(malloc, free);
    mc::aux_names = {"successful fits", "fits without anomaly threshold"};
    auto cf = std::make_shared<std::vector<Cfg>>(cfgs());
    struct A {
        const char *name;
        std::vector<double> v;
        int q, t;
    };
    static std::vector<A> as = {{"{0,1,2,3}", {0, 1, 2, 3}, 7, 9},
                                {"{-1,0.1,5}", {-1, 0.1, 5}, 9, 11},
                                {"{7}", {7}, 30, 60},
                                {"{-2e6,3e6,1e6,0,1e-3}", {-2e6, 3e6, 1e6, 0, 1e-3}, 6, 8}};
    for (auto &a : as) {
        A *pa = &a;
        size_t m = a.v.size();
        int L = mc::thorough ? a.t : a.q;
        for (int len = 0; len <= L; len++) {
            uint64_t n = mc::ipow(m, len);
            uint64_t block = 256, cases = (n + block - 1) / block;
            mc::add(mc::fmt("all training sets of %d values over %s x %zu configurations", len,
                            a.name, cf->size()),
                    cases * cf->size(), [=](uint64_t i) {
                        mc::Digits g(i);
                        const Cfg &c = (*cf)[g.take(cf->size())];
                        for (uint64_t k = g.v * block; k < std::min(n, (g.v + 1) * block); k++) {
                            mc::Digits h(k);
                            std::vector<double> d;
                            for (int j = 0; j < len; j++)
                                d.push_back(pa->v[h.take(m)]);
                            one(c, d);
                        }
                    });
        }
    }
    // extreme units: all training sets of 6 values over {-1,0,1,3} in every unit
    mc::add(mc::fmt("all training sets of 6 values over {-1,0,1,3} x %zu units x 6 configurations", units().size()),
            units().size() * 6 * 16, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2);
                static const double LV[] = {0.5, 0.75, 0.98};
                double lv = LV[g.take(3)], u = units()[g.take(units().size())];
                static const double A[] = {-1, 0, 1, 3};
                for (int k = 0; k < 256; k++) {
                    mc::Digits h(k + 256 * g.v);
                    std::vector<double> d;
                    for (int j = 0; j < 6; j++)
                        d.push_back(A[h.take(4)] * u);
                    one({low, 1, lv, (1 - lv) / 8, 3, 0}, d);
                }
            });
    // large training sets
    static const unsigned long LS[] = {1000,  4096,  4097,  16384, 16385,  32767,  32768,   32769,
                                       65535, 65536, 65537, 70000, 131073, 300000, 1000001, 16777219};
    mc::add("16 sizes of training sets around powers of two x 9 patterns x tails x 3 capacities",
            16 * NPAT * 2 * 3, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), pat = g.take(NPAT);
                static const unsigned long CAP[] = {7, 200, 70000};
                unsigned long cap = CAP[g.take(3)], n = LS[g.v];
                if (n > 200000 && pat != 4 && pat != 8)
                    return;
                if (n > 2000000 && !mc::thorough && (low || pat != 8 || cap != 200))
                    return;
                std::vector<double> d;
                Lcg r(n);
                for (unsigned long k = 0; k < n; k++)
                    d.push_back((low ? -1 : 1) * pattern(pat, k, r) * ((k * 13) % 7 ? 1 : -1));
                one({low, 0, n % 2 ? 0.98 : 0.5, 0.001, cap, 0}, d);
            },
            1);
    // larger training sets
    unsigned long maxn = mc::thorough ? 1200 : 300;
    mc::add(mc::fmt("structured training sets: every size 5..%lu x patterns x tails", maxn),
            (maxn - 4) * NPAT * 2, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), pat = g.take(NPAT);
                unsigned long n = 5 + g.v;
                static const unsigned long caps[] = {1, 3, 7, 20, 64, 200, 500};
                for (double lv : {0.5, 0.9, 0.98}) {
                    std::vector<double> d;
                    Lcg r(n);
                    for (unsigned long k = 0; k < n; k++)
                        d.push_back((low ? -1 : 1) * pattern(pat, k, r) * ((k * 13) % 7 ? 1 : -1));
                    one({low, 0, lv, 0.001, caps[n % 7], 0}, d);
                }
            });
    // a fit on a used detector is a fit on a fresh one
    static std::vector<std::vector<double>> B;
    B = trainings();
    B.push_back({5, 5, 5, 5, 5, 5});
    B.push_back({1, 2, 3});
    B.push_back({});
    B.push_back({0, 0, 0, 0, 0, 0, 0, 9});
    B.push_back({QNAN, 1, 2, 3, 4, 5, 6});
    B.push_back({1, 2, 3, 4, 5, INF});
    {
        Lcg r(5);
        std::vector<double> v;
        for (int i = 0; i < 120; i++)
            v.push_back(10 * r.gauss());
        B.push_back(v);
    }
    size_t nb = B.size();
    int H = mc::thorough ? 4 : 3; // length of the history before
    // history symbols: 0..nb-1 fit on B[k]; nb..nb+5: step(s)
    uint64_t hs = nb + 6;
    uint64_t hist = mc::ipow(hs, H);
    mc::add(mc::fmt("every history of %d operations (fits, steps, queries) then a new fit, against "
                    "a fresh detector",
                    H),
            hist * 12, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                static const unsigned long CP[] = {1, 2, 7};
                unsigned long cap = CP[g.take(3)];
                Cfg c{low, disc, 0.75, 0.01, cap, 0};
                uint64_t h0 = g.v;
                for (size_t fin = 0; fin < nb; fin += 1) {
                    if (mc::logging)
                        mc::logtext.clear();
                    Det a, b;
                    mc::log("%s", showcfg(c).c_str());
                    if (a.init(c.q, low, disc, c.level, cap) || b.init(c.q, low, disc, c.level, cap))
                        mc::fail("initialisation failed");
                    mc::Digits h(h0);
                    for (int k = 0; k < H; k++) {
                        uint64_t s = h.take(hs);
                        if (s < nb)
                            do_fit(c, &a.sp, B[s]);
                        else {
                            for (int r = 0; r < 3; r++) {
                                double x = resolve(&a.sp, low,
                                                   s == nb       ? S_NORM
                                                   : s == nb + 1 ? S_MID
                                                   : s == nb + 2 ? S_ZA
                                                   : s == nb + 3 ? S_SMALL
                                                   : s == nb + 4 ? S_T
                                                   : low         ? S_MINF
                                                                 : S_PINF);
                                if (s == nb + 3)
                                    spot_quantile(&a.sp, 1e-5);
                                int rc = spot_step(&a.sp, x);
                                mc::trans();
                                mc::log("step(%.17g) -> %d", x, rc);
                            }
                        }
                    }
                    mc::log("-- new fit, on the used detector then on a fresh one");
                    int ra = do_fit(c, &a.sp, B[fin]), rb = do_fit(c, &b.sp, B[fin]);
                    MC_CHECK(ra == rb, "fit returns %d on a used detector, %d on a fresh one", ra,
                             rb);
                    if (ra == -ERR_EXCESS_THRESHOLD_IS_NAN)
                        continue;
                    for (int k = 0;; k++) {
                        Snap x, y;
                        snap(&a.sp, x);
                        snap(&b.sp, y);
                        std::string df = diff(x, y);
                        MC_CHECK(df.empty(),
                                 "something of an earlier history survives a new fit: %s (used "
                                 "detector vs fresh one, %d steps after the fit)",
                                 df.c_str(), k);
                        if (k == 4)
                            break;
                        double v = resolve(&a.sp, low, k == 1 ? S_ZA : k == 3 ? S_NORM : S_MID);
                        int sa = spot_step(&a.sp, v), sb = spot_step(&b.sp, v);
                        mc::trans(2);
                        mc::log("step(%.17g) -> %d / %d", v, sa, sb);
                        MC_CHECK(sa == sb, "step(%.17g) after a new fit: %d vs %d", v, sa, sb);
                    }
                    mc::state(hash(&a.sp));
                    mc::trace();
                }
            });
    // a fit after a very long stream
    mc::add("streams of 2^8, 2^16, 2^20 and 2^22 (thorough: 2^33) observations, then a new fit", 5 * 4,
            [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), mix = g.take(2);
                static const unsigned long L[] = {1ul << 8, 1ul << 16, 1ul << 20, 1ul << 22, 1ul << 33};
                unsigned long N = L[g.v] + 3;
                if (N > (1ul << 30) && (!mc::thorough || mix))
                    return;
                Cfg c{low, 1, 0.75, 0.01, 7, 0};
                Det a;
                if (a.init(c.q, low, 1, c.level, c.cap))
                    mc::fail("initialisation failed");
                if (do_fit(c, &a.sp, B[1]))
                    mc::fail("fit failed");
                double x = resolve(&a.sp, low, S_NORM);
                for (unsigned long k = 0; k < N; k++)
                    spot_step(&a.sp, mix && k % 5 == 1 ? resolve(&a.sp, low, S_SMALL) : x);
                mc::trans(N);
                mc::log("%lu observations: n=%lu Nt=%lu", N, a.sp.n, a.sp.Nt);
                for (size_t fin : {0ul, 1ul, 3ul, B.size() - 1}) {
                    Det b;
                    if (b.init(c.q, low, 1, c.level, c.cap))
                        mc::fail("initialisation failed");
                    int ra = do_fit(c, &a.sp, B[fin]), rb = do_fit(c, &b.sp, B[fin]);
                    MC_CHECK(ra == rb, "fit returns %d on a used detector, %d on a fresh one", ra, rb);
                    Snap x, y;
                    snap(&a.sp, x);
                    snap(&b.sp, y);
                    std::string df = diff(x, y);
                    MC_CHECK(df.empty(), "something of a stream of %lu observations survives a new fit: %s", N,
                             df.c_str());
                    mc::state(hash(&a.sp));
                }
                mc::trace();
            },
            1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
