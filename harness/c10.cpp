// C10: logarithm, exponential and power on the whole double range.
#include "spotx.hpp"
typedef long double ld;

static double mk(int sign, unsigned e, uint64_t m) {
    uint64_t u = ((uint64_t)sign << 63) | ((uint64_t)e << 52) | m;
    double d;
    memcpy(&d, &u, 8);
    return d;
}
// mantissas: ends, bit patterns around every power of two, regular grid
static const std::vector<uint64_t> &mants() {
    static std::vector<uint64_t> M;
    if (M.empty()) {
        const uint64_t top = 1ull << 52;
        std::set<uint64_t> s = {0, 1, 2, 3, top - 1, top - 2, top / 2, top / 2 - 1, top / 2 + 1};
        for (int b = 0; b < 52; b++) {
            s.insert(1ull << b);
            s.insert(top - (1ull << b));
        }
        unsigned n = mc::thorough ? 65536 : 4096;
        for (unsigned k = 0; k < n; k++)
            s.insert(top / n * k + (k * 2654435761ull) % (top / n));
        // sqrt(2)/... neighbourhoods: where range reductions usually switch
        for (double c : {std::sqrt(2.0), std::sqrt(0.5) * 2, 1.3862943611198906, 4.0 / 3, 5.0 / 3}) {
            uint64_t u = mc::bits(c) & (top - 1);
            for (int k = -2; k <= 2; k++)
                s.insert((u + k) & (top - 1));
        }
        M.assign(s.begin(), s.end());
    }
    return M;
}

static void ck_log(double x) {
    double r = xlog(x);
    mc::trans();
    ld w = logl((ld)x);
    ld tol = 1e-10L * std::max<ld>(1, fabsl(w));
    if (!(fabsl(r - w) <= tol))
        mc::fail("xlog(%.17g [%a]) = %.17g, expected %.17Lg (error %Lg)", x, x, r, w, r - w);
}
static void ck_exp(double x) {
    double r = xexp(x);
    mc::trans();
    ld w = expl((ld)x);
    if (w > 1.7976931348623157e308L * (1 + 1e-12L)) {
        MC_CHECK(r == INF, "xexp(%.17g) = %.17g, expected +inf", x, r);
        return;
    }
    if (w >= 2.2250738585072014e-308L * (1 + 1e-12L)) {
        if (w > 1.7976931348623157e308L * (1 - 1e-12L) && r == INF)
            return;
        MC_CHECK(fabsl(r - w) <= 1e-12L * w, "xexp(%.17g [%a]) = %.17g, expected %.17Lg (relative %Lg)",
                 x, x, r, w, (r - w) / w);
        return;
    }
    // underflow
    MC_CHECK(r >= 0 && r <= 2.2250738585072014e-308 * (1 + 1e-11),
             "xexp(%.17g) = %.17g, expected about %Lg", x, r, w);
}
static void ck_pow(double a, double x) {
    double r = xpow(a, x);
    mc::trans();
    ld l = logl((ld)a), e = (ld)x * l;
    // error of the exponent: that of the logarithm, times x
    ld de = fabsl((ld)x) * 1e-10L * std::max<ld>(1, fabsl(l)) + 4 * EPS * fabsl(e);
    if (a == 1)
        de = 0;
    ld lo = expl(e - de) * (1 - 1e-11L), hi = expl(e + de) * (1 + 1e-11L);
    if (x == 0) {
        MC_CHECK(r == 1, "xpow(%.17g, 0) = %.17g", a, r);
        return;
    }
    ld rl = r;
    if (r == INF) {
        MC_CHECK(hi > 1.797e308L, "xpow(%.17g, %.17g) = inf, expected about %Lg", a, x, expl(e));
        return;
    }
    if (r == 0 || r < 2.3e-308) {
        MC_CHECK(r >= 0 && lo < 2.3e-308L, "xpow(%.17g, %.17g) = %.17g, expected about %Lg", a, x, r,
                 expl(e));
        return;
    }
    MC_CHECK(rl >= lo && rl <= hi, "xpow(%.17g, %.17g) = %.17g, expected %.17Lg (in [%.17Lg, %.17Lg])",
             a, x, r, expl(e), lo, hi);
}

static std::vector<double> basegrid() {
    std::vector<double> b;
    for (unsigned e = 1; e < 2047; e += mc::thorough ? 1 : 13)
        for (uint64_t m : {0ull, 1ull, (1ull << 51), (1ull << 52) - 1, 0x5555555555555ull})
            b.push_back(mk(0, e, m));
    for (unsigned e = 1013; e < 1034; e++)
        for (int k = 0; k < 64; k++)
            b.push_back(mk(0, e, (uint64_t)k << 46));
    b.push_back(mk(0, 0, 1));
    b.push_back(mk(0, 0, (1ull << 52) - 1));
    for (int k = 1; k < 40; k++) {
        b.push_back(1.0 + k * EPS * (1 << (k % 30)));
        b.push_back(1.0 - k * EPS * (1 << (k % 30)));
    }
    return b;
}
static std::vector<double> powgrid() {
    std::vector<double> b = {0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 1e-3, -1e-3, 0.1, -0.1, 7.25, -7.25,
                             100, -100, 709, -745, 1e4, -1e4, 1e6, -1e6, 1e12, -1e12, 1e-12, -1e-12,
                             1e-300, -1e-300, 1e100, -1e100, 1.7976931348623157e308,
                             -1.7976931348623157e308, 1.0 / 3, -1.0 / 3, 20, -20, 333.3, -333.3};
    return b;
}

static void setup() {
    set_allocators(malloc, free);
    const auto &M = mants();
    mc::add(mc::fmt("xlog: 2047 exponents x %zu mantissas", M.size()), 2047, [&M](uint64_t e) {
        double prev = -INF;
        bool mono = true;
        for (uint64_t m : M) {
            double x = mk(0, e, m);
            if (x == 0)
                continue;
            mc::log("xlog(%a) = %.17g", x, xlog(x));
            ck_log(x);
            // increasing, up to the accuracy
            double r = xlog(x);
            if (r < prev - 2e-10 * std::max(1.0, std::fabs(r)))
                mono = false;
            prev = r;
        }
        MC_CHECK(mono, "xlog is not increasing at exponent %llu", (unsigned long long)e);
        mc::state(e + 1);
        mc::trace();
    });
    mc::add(mc::fmt("xexp: both signs x 2047 exponents x %zu mantissas", M.size()), 2047 * 2,
            [&M](uint64_t i) {
                for (uint64_t m : M) {
                    double x = mk(i % 2, i / 2, m);
                    mc::log("xexp(%a) = %.17g", x, xexp(x));
                    ck_exp(x);
                }
                mc::state(10000 + i);
                mc::trace();
            });
    // the range where the exponential is finite, on a regular grid and around
    // every multiple of log 2
    mc::add("xexp: around every multiple of log(2) in [-760, 720]", 760 + 720 + 800, [](uint64_t i) {
        double c = ((int)i - 1100) * 0.6931471805599453;
        double a = c, b = c;
        for (int k = 0; k < 40; k++) {
            ck_exp(a);
            ck_exp(b);
            a = std::nextafter(a, INF);
            b = std::nextafter(b, -INF);
        }
        for (int k = -50; k <= 50; k++)
            ck_exp(c + k * 0.0069314718);
        for (int k = 1; k < 50; k++) {
            ck_exp(c + std::ldexp(1, -k));
            ck_exp(c - std::ldexp(1, -k));
        }
        mc::log("xexp around %.17g: %.17g", c, xexp(c));
        mc::state(20000 + i);
        mc::trace();
    });
    auto B = std::make_shared<std::vector<double>>(basegrid());
    auto X = std::make_shared<std::vector<double>>(powgrid());
    mc::add(mc::fmt("xpow: %zu bases x %zu exponents", B->size(), X->size()), B->size(),
            [=](uint64_t i) {
                for (double x : *X) {
                    mc::log("xpow(%a, %.17g) = %.17g", (*B)[i], x, xpow((*B)[i], x));
                    ck_pow((*B)[i], x);
                }
                mc::state(30000 + i);
                mc::trace();
            });
    mc::add("special values", 1, [](uint64_t) {
        mc::log("specials");
        MC_CHECK(xlog(0.0) == -INF, "xlog(0) = %g", xlog(0.0));
        MC_CHECK(xlog(-0.0) == -INF, "xlog(-0) = %g", xlog(-0.0));
        MC_CHECK(xlog(INF) == INF, "xlog(inf) = %g", xlog(INF));
        MC_CHECK(std::isnan(xlog(QNAN)), "xlog(nan) = %g", xlog(QNAN));
        for (double x : {-1.0, -1e-300, -4.9406564584124654e-324, -1e308, -INF})
            MC_CHECK(std::isnan(xlog(x)), "xlog(%g) = %g", x, xlog(x));
        MC_CHECK(std::fabs(xlog(1.0)) == 0, "xlog(1) = %g", xlog(1.0));
        MC_CHECK(xexp(0.0) == 1, "xexp(0) = %g", xexp(0.0));
        MC_CHECK(xexp(-0.0) == 1, "xexp(-0) = %g", xexp(-0.0));
        MC_CHECK(xexp(INF) == INF, "xexp(inf) = %g", xexp(INF));
        MC_CHECK(xexp(-INF) == 0, "xexp(-inf) = %g", xexp(-INF));
        MC_CHECK(std::isnan(xexp(QNAN)), "xexp(nan) = %g", xexp(QNAN));
        MC_CHECK(std::isnan(xpow(-1, 0.5)), "xpow(-1,.5)");
        MC_CHECK(std::isnan(xpow(QNAN, 0.5)), "xpow(nan,.5)");
        MC_CHECK(std::isnan(xpow(2, QNAN)), "xpow(2,nan)");
        MC_CHECK(xpow(0, 2) == 0, "xpow(0,2) = %g", xpow(0, 2));
        MC_CHECK(xpow(0, -2) == INF, "xpow(0,-2) = %g", xpow(0, -2));
        MC_CHECK(xpow(INF, 2) == INF, "xpow(inf,2) = %g", xpow(INF, 2));
        MC_CHECK(xpow(INF, -2) == 0, "xpow(inf,-2) = %g", xpow(INF, -2));
        MC_CHECK(xpow(2, INF) == INF, "xpow(2,inf) = %g", xpow(2, INF));
        MC_CHECK(xpow(2, -INF) == 0, "xpow(2,-inf) = %g", xpow(2, -INF));
        MC_CHECK(xpow(0.5, INF) == 0, "xpow(.5,inf) = %g", xpow(0.5, INF));
        MC_CHECK(is_nan(QNAN) && is_nan(-QNAN) && !is_nan(0) && !is_nan(INF) && !is_nan(-INF) &&
                     !is_nan(4.9e-324) && !is_nan(1.7e308),
                 "is_nan");
        for (double a : {0.0, -1.0, 1.0, INF, -INF, 1e-308, QNAN})
            for (double b : {0.0, -1.0, 1.0, INF, -INF, 1e-308, QNAN}) {
                double r = xmin(a, b);
                if (a != a || b != b)
                    MC_CHECK(r != r, "xmin(%g,%g) = %g", a, b, r);
                else
                    MC_CHECK(r == (a < b ? a : b), "xmin(%g,%g) = %g", a, b, r);
            }
        mc::trans(100);
        mc::trace();
        mc::state(1);
    });
    // replaced helpers: same results, bit by bit
    mc::add("float helpers replaced by the C library's: 2047 exponents", 2047, [&M](uint64_t e) {
        std::vector<double> r1, r2, r3;
        auto eval = [&](std::vector<double> &o) {
            for (size_t k = 0; k < M.size(); k += 3) {
                double x = mk(0, e, M[k]);
                o.push_back(xlog(x));
                o.push_back(xexp(x));
                o.push_back(xexp(-x));
                o.push_back(xpow(x, 0.25));
                o.push_back(xpow(x, -1.5));
            }
        };
        eval(r1);
        set_float_utils(ldexp, frexp);
        eval(r2);
        set_float_utils(nullptr, nullptr); // ignored
        eval(r3);
        set_float_utils(ldexp, nullptr);
        eval(r3);
        mc::log("exponent %llu: %zu results", (unsigned long long)e, r1.size());
        for (size_t k = 0; k < r1.size(); k++) {
            MC_CHECK(same_bits(r1[k], r2[k]),
                     "result %zu at exponent %llu is %.17g with the built-in helpers and %.17g "
                     "with the C library's",
                     k, (unsigned long long)e, r1[k], r2[k]);
            MC_CHECK(same_bits(r2[k], r3[k]) && same_bits(r2[k], r3[k + r1.size()]),
                     "null helpers change the results");
        }
        mc::trans(r1.size() * 4);
        mc::state(40000 + e);
        mc::trace();
    }, 1);
    // the installed helpers are really called, whichever subset was installed and
    // in whatever order: every sequence of setter calls, then the calls seen by
    // the helpers that should be in force
    mc::add("all sequences of 4 set_float_utils calls over 9 argument pairs: the last non-null helpers are in force",
            9 * 9 * 9 * 9, [](uint64_t i) {
        static int nl[2], nf[2];
        static double (*L[3])(double, int) = {nullptr,
                                              [](double x, int n) -> double { nl[0]++; return ldexp(x, n); },
                                              [](double x, int n) -> double { nl[1]++; return ldexp(x, n); }};
        static double (*F[3])(double, int *) = {nullptr,
                                                [](double x, int *n) -> double { nf[0]++; return frexp(x, n); },
                                                [](double x, int *n) -> double { nf[1]++; return frexp(x, n); }};
        // a neutral starting point
        set_float_utils(ldexp, frexp);
        mc::Digits g(i);
        int cl = 0, cf = 0;
        for (int k = 0; k < 4; k++) {
            int a = g.take(3), b = g.take(3);
            set_float_utils(L[a], F[b]);
            mc::log("set_float_utils(%s, %s)", a ? (a == 1 ? "ldexp A" : "ldexp B") : "NULL",
                    b ? (b == 1 ? "frexp A" : "frexp B") : "NULL");
            if (a)
                cl = a;
            if (b)
                cf = b;
            nl[0] = nl[1] = nf[0] = nf[1] = 0;
            double x = xlog(12345.678), y = xexp(23.5), z = xpow(7.5, 3.25);
            MC_CHECK(std::fabs(x - std::log(12345.678)) < 1e-9 && std::fabs(y / std::exp(23.5) - 1) < 1e-11 &&
                         std::fabs(z / std::pow(7.5, 3.25) - 1) < 1e-9,
                     "wrong result with custom helpers");
            for (int h = 0; h < 2; h++) {
                MC_CHECK((nl[h] > 0) == (cl == h + 1), "ldexp helper %c called %d times, helper in force: %s", 'A' + h,
                         nl[h], cl == 0 ? "none" : cl == 1 ? "A" : "B");
                MC_CHECK((nf[h] > 0) == (cf == h + 1), "frexp helper %c called %d times, helper in force: %s", 'A' + h,
                         nf[h], cf == 0 ? "none" : cf == 1 ? "A" : "B");
            }
            mc::trans(4);
        }
        mc::state(50000 + cl * 3 + cf);
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
