// C07: the fitted tail is a valid GPD and the best of the candidate estimates.
#include "gpd.hpp"
#include "stream.hpp"

static ld W(ld x, const double *d, size_t n) {
    ld u = 0, v = 0;
    for (size_t i = 0; i < n; i++) {
        u += 1 / (1 + x * d[i]);
        v += log1pl(x * d[i]);
    }
    return (u / n) * (1 + v / n) - 1;
}
static ld llroot(ld x, const double *d, size_t n) {
    ld v = 0;
    for (size_t i = 0; i < n; i++)
        v += log1pl(x * d[i]);
    ld g = v / n;
    return ref_llhood(d, n, g, g / x);
}
// log-likelihood every root search on [a,b] must at least reach; NaN if it is
// not certain that the ends bracket a root
static ld root_bound(const std::vector<ld> &grid, const double *d, size_t n) {
    std::vector<ld> w;
    for (ld x : grid)
        w.push_back(W(x, d, n));
    ld a = w.front(), b = w.back();
    // the end close to zero is a hundred times closer in the search, hence W ten
    // thousand times smaller there: beyond the rounding of a sum of n terms
    ld need = std::min<ld>(1e-9L, 5e-12L * n);
    if (!(fabsl(a) > need && fabsl(b) > need) || (a > 0) == (b > 0))
        return NAN;
    ld worst = NAN;
    for (size_t i = 0; i + 1 < w.size(); i++) {
        if (w[i] != w[i] || w[i + 1] != w[i + 1])
            return NAN;
        if ((w[i] > 0) == (w[i + 1] > 0))
            continue;
        ld lo = grid[i], hi = grid[i + 1];
        bool s = w[i] > 0;
        for (int k = 0; k < 70; k++) {
            ld m = (lo + hi) / 2;
            if ((W(m, d, n) > 0) == s)
                lo = m;
            else
                hi = m;
        }
        ld L = llroot((lo + hi) / 2, d, n);
        if (L != L)
            return NAN;
        if (worst != worst || L < worst)
            worst = L;
    }
    return worst;
}

static void check_tail(const struct Tail *tl, double ret, bool has_ret, bool roots) {
    const struct Ubend *u = &tl->peaks.container;
    size_t n = ubend_size(u);
    const double *d = u->data;
    double mx = 0, mn = INF;
    ld sum = 0, sum2 = 0;
    for (size_t i = 0; i < n; i++) {
        mx = std::max(mx, d[i]);
        mn = std::min(mn, d[i]);
        sum += d[i];
        sum2 += (ld)d[i] * d[i];
    }
    if (!(mx > 0) || !(mx < 1e150) || mx < 1e-140)
        return;
    double g = tl->gamma, s = tl->sigma;
    MC_CHECK(std::fabs(g) < INF, "shape %g is not finite", g);
    MC_CHECK(s > 0 && s < INF, "scale %g is not positive and finite (shape %g)", s, g);
    ld top = 1 + (ld)g / s * mx;
    // (evaluated exactly or in double precision: rounding decides at the end point)
    MC_CHECK(top > 0 || 1 + (g / s) * mx > 0, "the excess %.17g is outside the support of the fitted tail (gamma=%.17g "
                      "sigma=%.17g, end point %.17Lg)",
             mx, g, s, -(ld)s / g);
    if (top < 1e-12L)
        return; // the likelihood is dominated by rounding
    ld L = ref_llhood(d, n, g, s);
    MC_CHECK(L == L && fabsl(L) < INFINITY, "the likelihood of the fitted tail is %Lg", L);
    ld mean = sum / n;
    // noise of 1+x*max near the end point of a bounded tail
    ld near = top < 1 ? 8 * n * (ld)EPS / top * (1 + 1 / fabsl((ld)g)) : 0;
    ld Le = ref_llhood(d, n, 0, mean);
    ld tol = llhood_tol(n, L, g, 0) + near;
    MC_CHECK(L >= Le - tol,
             "log-likelihood %.12Lg (gamma=%.17g sigma=%.17g) is below that of the exponential "
             "tail, %.12Lg (sigma=%.17Lg)",
             L, g, s, Le, mean);
    ld var = sum2 / n - mean * mean;
    if (var > 1e-9L * mean * mean) {
        ld R = mean * mean / var, mg = (1 - R) / 2, ms = mean * (1 + R) / 2;
        ld mtop = 1 + mg / ms * mx;
        if (mtop > 1e-9L && fabsl(mg) > 1e-9L) {
            ld Lm = ref_llhood(d, n, mg, ms);
            ld tolm = llhood_tol(n, Lm, g, mg) + near + 64 * n * (ld)EPS * R / mtop * (1 + 1 / fabsl(mg));
            MC_CHECK(L >= Lm - tolm,
                     "log-likelihood %.12Lg (gamma=%.17g sigma=%.17g) is below that of the method "
                     "of moments, %.12Lg (gamma=%.12Lg sigma=%.12Lg)",
                     L, g, s, Lm, mg, ms);
            mc::aux(0);
        }
    }
    if (has_ret) {
        ld tr = llhood_tol(n, L, g, 0) + near;
        MC_CHECK(fabsl(ret - L) <= 10 * tr,
                 "tail_fit returned the log-likelihood %.17g, it is %.12Lg (gamma=%.17g "
                 "sigma=%.17g)",
                 ret, L, g, s);
    }
    if (!roots)
        return;
    const int G = mc::thorough ? 120 : 70;
    // left side: from close to -1/max to close to 0
    {
        std::vector<ld> grid;
        ld e1 = 1e-6L / mean, a1 = -1 / (ld)mx + e1, a2 = -1 / (ld)mx + 2e-8L / mx;
        ld w1 = W(a1, d, n), w2 = W(a2, d, n), z1 = W(-1e-4L / mean, d, n);
        if (a1 < -1e-3L / mean && (w1 > 0) == (w2 > 0) && fabsl(w1) > 1e-6L && fabsl(z1) > 1e-11L) {
            // distances to the asymptote, geometric, then to zero, geometric
            for (int k = 0; k < G; k++)
                grid.push_back(-1 / (ld)mx * (1 - powl(10.0L, -5.5L * (1 - k / (ld)G)) * 0.5L));
            grid.front() = a1;
            for (int k = 1; k <= G; k++)
                grid.push_back(-1 / (ld)mx * 0.5L * powl(2e-4L * mx / mean, k / (ld)G));
            // keep it sorted and inside
            std::sort(grid.begin(), grid.end());
            std::vector<ld> gg;
            for (ld x : grid)
                if (x >= a1 && x <= -1e-4L / mean)
                    gg.push_back(x);
            ld Lr = gg.size() > 10 ? root_bound(gg, d, n) : (ld)NAN;
            if (Lr == Lr) {
                mc::aux(1);
                MC_CHECK(L >= Lr - tol - 1e-8L * n,
                         "log-likelihood %.12Lg (gamma=%.17g sigma=%.17g) is below that of the "
                         "negative-side root of Grimshaw's equation, %.12Lg",
                         L, g, s, Lr);
            }
        }
    }
    if (mn > 0) {
        ld b = 2 * (mean - mn) / ((ld)mn * mn);
        if (b * mean > 1e-2L && b * mean < 1e12L) {
            std::vector<ld> grid;
            ld lo = 1e-4L / mean;
            for (int k = 0; k <= 2 * G; k++)
                grid.push_back(lo * powl(b / lo, k / (2.0L * G)));
            ld Lr = root_bound(grid, d, n);
            if (Lr == Lr) {
                mc::aux(2);
                MC_CHECK(L >= Lr - tol - 1e-8L * n,
                         "log-likelihood %.12Lg (gamma=%.17g sigma=%.17g) is below that of the "
                         "positive-side root of Grimshaw's equation, %.12Lg",
                         L, g, s, Lr);
            }
        }
    }
}

struct V : Visitor {
    void fitted(const Cfg &, struct Spot *sp, const std::vector<double> &, int rc) override {
        if (!rc)
            check_tail(&sp->tail, 0, false, false);
    }
    unsigned long k = 0;
    void after(const Cfg &c, struct Spot *sp, double, int rc) override {
        if (rc == EXCESS && (c.cap < 40 || k++ % 17 == 0))
            check_tail(&sp->tail, 0, false, c.train < 0 && c.cap < 30);
    }
};

static void fit_window(const double *v, size_t n, size_t extra, double scale,
                       bool roots = true) {
    // extra older values are pushed first and evicted
    struct Tail t;
    if (tail_init(&t, n))
        mc::fail("tail_init failed");
    std::string s;
    for (size_t i = 0; i < extra; i++)
        tail_push(&t, scale * (i % 2 ? 9.0 : 0.01));
    for (size_t i = 0; i < n; i++) {
        tail_push(&t, v[i] * scale);
        if (mc::logging)
            s += mc::fmt("%s%.17g", i ? "," : "", v[i] * scale);
    }
    double r = tail_fit(&t);
    mc::trans(n + 1);
    mc::log("excesses {%s} (after %zu evicted): gamma=%.17g sigma=%.17g llhood=%.17g", s.c_str(),
            extra, t.gamma, t.sigma, r);
    check_tail(&t, r, true, roots);
    mc::state(mc::mixd(mc::mixd(mc::mix(n, extra), t.gamma), t.sigma));
    tail_free(&t);
    mc::trace();
}

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"fits compared with the method of moments",
                     "fits compared with a negative-side root",
                     "fits compared with a positive-side root"};
    struct A {
        const char *name;
        std::vector<double> v;
        int q, t;
    };
    static std::vector<A> as = {
        {"{1,2,3,5,8}", {1, 2, 3, 5, 8}, 6, 8},
        {"{0,1,2,10}", {0, 1, 2, 10}, 6, 8},
        {"{0.1,0.2,0.3,0.7}", {0.1, 0.2, 0.3, 0.7}, 6, 8},
        {"{1e-3,1,50,1000}", {1e-3, 1, 50, 1000}, 6, 8},
        {"{1,1.0000001,0.9999999}", {1, 1.0000001, 0.9999999}, 5, 7},
    };
    static std::vector<double> scales = {1.0,     1e3,    1e-3,   1e6,  1e-6, 1e9,
                                         1e-9,    1e12,   1e-12,  1e30, 1e-30, 1e100,
                                         1e-100,  0x1p40, 0x1p-40, 7e7, 3e-8};
    for (auto &a : as) {
        A *pa = &a;
        size_t m = a.v.size();
        int L = mc::thorough ? a.t : a.q;
        for (int len = 1; len <= L; len++) {
            // all multisets (non decreasing sequences) and their reversal
            uint64_t n = mc::ipow(m, len);
            uint64_t block = 16, cases = (n + block - 1) / block;
            mc::add(mc::fmt("all windows of %d excesses over %s x %zu units x evictions", len,
                            a.name, scales.size()),
                    cases, [=](uint64_t i) {
                        for (uint64_t k = i * block; k < std::min(n, (i + 1) * block); k++) {
                            mc::Digits h(k);
                            double v[16], r[16];
                            bool ok = true;
                            int prev = 0;
                            for (int j = 0; j < len; j++) {
                                int x = h.take(m);
                                if (x < prev)
                                    ok = false;
                                prev = x;
                                v[j] = pa->v[x];
                                r[len - 1 - j] = v[j];
                            }
                            if (!ok)
                                continue;
                            for (size_t sc = 0; sc < scales.size(); sc++) {
                                if (mc::logging)
                                    mc::logtext.clear();
                                bool roots = mc::thorough || (sc + k) % 3 == 0;
                                fit_window(v, len, 0, scales[sc], roots);
                                fit_window(r, len, sc < 4 ? len + 1 : 1, scales[sc], false);
                            }
                        }
                    });
        }
    }
    // structured windows of many sizes: GPD quantiles of every shape
    static std::vector<double> shapes = {-0.9, -0.6, -0.4, -0.2, -0.05, 0.0, 0.05, 0.2,
                                         0.4,  0.7,  1.0,  1.5, 2.5};
    unsigned long maxn = mc::thorough ? 200 : 60;
    mc::add(mc::fmt("GPD quantile samples: sizes 2..%lu x 13 shapes x units", maxn),
            (maxn - 1) * shapes.size(), [=](uint64_t i) {
                mc::Digits g(i);
                double sh = shapes[g.take(shapes.size())];
                unsigned long n = 2 + g.v;
                for (double sc : {1.0, 1e-9, 1e9, 123.456}) {
                    if (mc::logging)
                        mc::logtext.clear();
                    std::vector<double> v;
                    for (unsigned long k = 0; k < n; k++) {
                        double p = (k * 37 % n + 0.5) / n; // a permutation when gcd(37,n)=1
                        double x = sh == 0 ? -std::log(1 - p) : (std::pow(1 - p, -sh) - 1) / sh;
                        v.push_back(x);
                    }
                    fit_window(v.data(), n, n % 3, sc);
                }
            });
    // small shapes (the root is close to zero) and large windows
    static std::vector<double> shapes2 = {-0.03, -0.01, -0.006, -0.001, 0.001, 0.006, 0.01, 0.03, 0.1, -0.1,
                                          -0.3,  0.3,   0.6,    1.2, -0.7, 2.0};
    static const unsigned long sizes2[] = {12, 40, 64, 100, 127, 128, 200, 201, 255, 257, 400, 500, 513, 1000, 2000};
    const size_t NS2 = mc::thorough ? 15 : 14;
    mc::add(mc::fmt("GPD quantile samples: %zu sizes up to %lu x 16 shapes x units", NS2, sizes2[NS2 - 1]),
            NS2 * shapes2.size() * 2, [=](uint64_t i) {
                mc::Digits g(i);
                double sh = shapes2[g.take(shapes2.size())];
                bool cut = g.take(2);
                unsigned long n = sizes2[g.v];
                for (double sc : {1.0, 3e-8}) {
                    if (mc::logging)
                        mc::logtext.clear();
                    std::vector<double> v;
                    unsigned long step = 37;
                    while (n % step == 0)
                        step += 2;
                    for (unsigned long k = 0; k < n; k++) {
                        double p = ((k * step) % n + (cut ? 0.9 : 0.5)) / n;
                        v.push_back(sh == 0 ? -std::log(1 - p) : (std::pow(1 - p, -sh) - 1) / sh);
                    }
                    fit_window(v.data(), n, n % 3, sc);
                }
            });
    // shapes around zero, finely: the roots come close to zero from both sides
    static const unsigned long sizes3[] = {10, 25, 60, 150, 400, 1000, 3000};
    const size_t NS3 = mc::thorough ? 7 : 6;
    mc::add(mc::fmt("GPD quantile samples, shapes -0.1..0.1 by 0.002 x %zu sizes x 3 offsets", NS3), NS3 * 101 * 3,
            [=](uint64_t i) {
                mc::Digits g(i);
                double sh = (g.take(101) - 50.0) * 0.002, off = 0.3 + 0.3 * g.take(3);
                unsigned long n = sizes3[g.v];
                std::vector<double> v;
                for (unsigned long k = 0; k < n; k++) {
                    double p = (k + off) / n;
                    v.push_back(sh == 0 ? -std::log(1 - p) : (std::pow(1 - p, -sh) - 1) / sh);
                }
                if (mc::logging)
                    mc::logtext.clear();
                fit_window(v.data(), n, 0, 1.0);
            });
    // the root passes through zero where the second moment is twice the squared
    // mean: shapes on both sides of that point
    static const unsigned long sizes5[] = {100, 300, 1000, 3000, 10000};
    const size_t NS5 = mc::thorough ? 5 : 4;
    mc::add(mc::fmt("roots next to zero: %zu sizes x 40 shapes x 2 units", NS5), NS5 * 40 * 2, [=](uint64_t i) {
        mc::Digits g(i);
        double delta = ((int)g.take(40) - 19.5) * 1e-4, sc = g.take(2) ? 1.0 : 5e6;
        unsigned long n = sizes5[g.v];
        auto make = [&](double sh) {
            std::vector<double> v;
            for (unsigned long k = 0; k < n; k++) {
                double p = (k + 0.5) / n;
                v.push_back(std::fabs(sh) < 1e-12 ? -std::log(1 - p) : std::expm1(-sh * std::log(1 - p)) / sh);
            }
            return v;
        };
        double lo = -0.5, hi = 0.5;
        for (int it = 0; it < 50; it++) {
            double m = (lo + hi) / 2;
            ld s1 = 0, s2 = 0;
            for (double x : make(m)) {
                s1 += x;
                s2 += (ld)x * x;
            }
            (s2 * n < 2 * s1 * s1 ? lo : hi) = m;
        }
        std::vector<double> v = make(lo + delta);
        fit_window(v.data(), n, 0, sc);
    });
    // every window size
    unsigned long every = mc::thorough ? 1100 : 600;
    mc::add(mc::fmt("every window size 1..%lu x 4 patterns", every), every * 4, [=](uint64_t i) {
        mc::Digits g(i);
        static const double SH[] = {-0.5, 0.15, 0.9, -0.12};
        double sh = SH[g.take(4)];
        unsigned long n = 1 + g.v, step = 37;
        while (n > 1 && n % step == 0)
            step += 2;
        std::vector<double> v;
        for (unsigned long k = 0; k < n; k++)
            v.push_back((std::pow(1 - ((k * step) % n + 0.5) / n, -sh) - 1) / sh);
        fit_window(v.data(), n, n % 4, 1.0);
    });
    // bounded tails in large windows: the root comes close to the end of its interval
    static const unsigned long sizes6[] = {500, 1000, 2000, 5000, 10000, 20000, 50000};
    const size_t NS6 = mc::thorough ? 7 : 5;
    mc::add(mc::fmt("bounded tails: %zu sizes up to %lu x 8 shapes -0.98..-0.3 x 3 offsets x 2 units", NS6, sizes6[NS6 - 1]),
            NS6 * 8 * 3 * 2, [=](uint64_t i) {
                mc::Digits g(i);
                static const double SH[] = {-0.98, -0.95, -0.9, -0.85, -0.8, -0.65, -0.5, -0.3};
                double sh = SH[g.take(8)], off = 0.3 + 0.3 * g.take(3), sc = g.take(2) ? 1.0 : 7e8;
                unsigned long n = sizes6[g.v];
                std::vector<double> v;
                for (unsigned long k = 0; k < n; k++)
                    v.push_back((std::pow(1 - (k + off) / n, -sh) - 1) / sh);
                if (mc::logging)
                    mc::logtext.clear();
                fit_window(v.data(), n, 0, sc);
            }, 1);
    // windows dominated by their largest value
    static const unsigned long sizes4[] = {1500, 3000, 10000, 30000};
    mc::add("windows dominated by one value: 4 sizes up to 30000 x 6 shapes x 2 units", 4 * 6 * 2, [=](uint64_t i) {
        mc::Digits g(i);
        static const double SH[] = {0.8, 1.0, 1.3, 1.6, 2.0, 2.5};
        double sh = SH[g.take(6)], sc = g.take(2) ? 1.0 : 4e-7;
        unsigned long n = sizes4[g.v];
        std::vector<double> v;
        for (unsigned long k = 0; k < n; k++)
            v.push_back((std::pow(1 - ((k * 37) % n + 0.8) / n, -sh) - 1) / sh);
        fit_window(v.data(), n, 3, sc);
    }, 1);
    mc::add("one value a million times the mean: 4 windows of 1200000", 4, [=](uint64_t i) {
        unsigned long n = 1200000;
        std::vector<double> v;
        double M = i % 2 ? 1e12 : 1e9;
        for (unsigned long k = 0; k < n; k++)
            v.push_back(i / 2 ? 1 + (k % 7) * 0.25 : std::pow(1 - (k + 0.5) / n, -0.3) - 0.999);
        v[n / 3] = M;
        fit_window(v.data(), n, 0, 1.0, mc::thorough);
    }, 1);
    // the likelihood used to compare the candidates
    mc::add("log-likelihood on a grid of parameters x samples", 13 * 9 * 6, [=](uint64_t i) {
        mc::Digits g(i);
        double sh = shapes[g.take(13)];
        static const double sg[] = {0.01, 0.1, 0.5, 1, 2, 5, 30, 1e3, 1e6};
        double s = sg[g.take(9)];
        int smp = g.v;
        struct Peaks p;
        if (peaks_init(&p, 5 + smp))
            mc::fail("peaks_init failed");
        Lcg r(smp + 1);
        for (int k = 0; k < 8 + smp; k++)
            peaks_push(&p, smp == 5 ? 1e4 * r.expo() : r.expo() * (smp + 0.5));
        double L = log_likelihood(&p, sh, s);
        mc::trans();
        ld R = ref_llhood(p.container.data, ubend_size(&p.container), sh, s);
        mc::log("log_likelihood(gamma=%g, sigma=%g, sample %d) = %.17g (reference %.17Lg)", sh, s,
                smp, L, R);
        if (R != R)
            MC_CHECK(L != L || L == -INF, "log-likelihood %g of excesses outside the support", L);
        else
            MC_CHECK(fabsl(L - R) <= 1e-8L * (1 + fabsl(R)) * (1 + 1 / fabsl((ld)sh + (sh == 0))),
                     "log_likelihood(gamma=%g, sigma=%g) = %.17g, expected %.17Lg", sh, s, L, R);
        peaks_free(&p);
        mc::trace();
        mc::state(mc::mixd(mc::mixd(smp, sh), s));
    });
    add_streams([] { return new V; }, 3, 5, 5, 7);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
