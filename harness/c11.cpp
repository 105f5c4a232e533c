// C11: the root search. The function is an adversarial environment: every
// answer comes from an alphabet, for every evaluation up to the depth; after
// that the answers are those of a function consistent with what was said.
#include "spotx.hpp"

static const double ANS[] = {-1e-3, 1e-3, -1.0, 1.0, 0.0, -1e300, 1e300, QNAN,
                             -1e-300, 1e-300, INF, -INF,
                             // close magnitudes: interpolation steps of all kinds
                             -0.125, 0.125, -0.5, 0.5, -0.25, 0.25, -1, 1};
enum { NANS = 12, CLOSE = 8, MAXEVAL = 2000 };

struct Env {
    const int *script = nullptr; // answers of the first evaluations
    const double *values = nullptr;
    int depth;
    int tail;          // completion policy
    double lo, hi;
    std::vector<std::pair<double, double>> ev; // all evaluations
    int calls = 0;
    bool outside = false, toomany = false;
    bool nanstart = false;
    void *self;
};
struct Stop {};

static double answer(double x, void *p) {
    Env *e = (Env *)p;
    e->calls++;
    if (e->calls > MAXEVAL)
        throw Stop{};
    if (!(x >= e->lo && x <= e->hi))
        e->outside = true;
    for (auto &q : e->ev)
        if (q.first == x) {
            double y = q.second;
            e->ev.push_back({x, y});
            return y;
        }
    double y;
    size_t k = e->ev.size();
    if ((int)k < e->depth)
        y = e->values ? e->values[k] : ANS[e->script[k]];
    else {
        // nearest evaluated points on each side
        double ya = 0, yb = 0, xa = -INF, xb = INF;
        for (auto &q : e->ev) {
            if (q.first < x && q.first > xa)
                xa = q.first, ya = q.second;
            if (q.first > x && q.first < xb)
                xb = q.first, yb = q.second;
        }
        switch (e->tail) {
        case 0: // a step: the sign of the left neighbour, its magnitude
            y = xa > -INF ? ya : yb;
            break;
        case 1:
            y = xb < INF ? yb : ya;
            break;
        case 2: // linear in between
            y = (xa > -INF && xb < INF) ? ya + (yb - ya) * ((x - xa) / (xb - xa)) : (xa > -INF ? ya : yb);
            break;
        default: // alternating signs, shrinking slowly
            y = ((k % 2) ? -1.0 : 1.0) / (1.0 + 0.01 * (double)k);
        }
    }
    e->ev.push_back({x, y});
    return y;
}

static void examine(double x1, double x2, double tol, Env &e) {
    int found = -12345;
    double r = 0;
    mc::trans();
    bool stopped = false;
    e.lo = std::min(x1, x2);
    e.hi = std::max(x1, x2);
    try {
        r = brent(&found, x1, x2, answer, &e, tol);
    } catch (Stop &) {
        stopped = true;
    }
    if (mc::logging) {
        mc::logtext.clear();
        mc::log("brent on [%.17g, %.17g] tol=%g -> %.17g found=%d (%d evaluations)", x1, x2, tol, r,
                found, e.calls);
        for (size_t i = 0; i < e.ev.size() && i < 40; i++)
            mc::log("  f(%.17g) = %.17g", e.ev[i].first, e.ev[i].second);
    }
    MC_CHECK(!stopped, "more than %d evaluations", (int)MAXEVAL);
    MC_CHECK(!e.outside, "a point outside the interval is evaluated");
    MC_CHECK(found == 0 || found == 1 || found == -1 || found > 0, "found flag not set");
    mc::trans(e.calls);
    double f1 = QNAN, f2 = QNAN;
    bool s1 = false, s2 = false;
    for (auto &q : e.ev) {
        if (!s1 && q.first == x1)
            f1 = q.second, s1 = true;
        if (!s2 && q.first == x2)
            f2 = q.second, s2 = true;
    }
    MC_CHECK(s1 && s2, "the ends of the interval are not evaluated");
    bool bracket = (f1 <= 0 && f2 >= 0) || (f1 >= 0 && f2 <= 0);
    if (!bracket)
        MC_CHECK(!found, "success although f(x1)=%g and f(x2)=%g do not bracket a root", f1, f2);
    if (bracket && (f1 == 0 || f2 == 0))
        MC_CHECK(found, "f(x1)=%g, f(x2)=%g: the root at the end of the interval is not reported", f1, f2);
    if (found) {
        MC_CHECK(r == r, "the reported root is NaN");
        bool ok = false, seen = false;
        double width = 1.05 * (4 * 2e-8 * std::fabs(r) + tol) + 1e-300, near = INF, fr = QNAN;
        for (auto &q : e.ev)
            if (q.first == r) {
                seen = true;
                fr = q.second;
            }
        MC_CHECK(seen, "the reported root %.17g was never evaluated", r);
        MC_CHECK(fr == fr, "the function is NaN at the reported root %.17g", r);
        if (fr == 0)
            ok = true;
        for (auto &q : e.ev)
            if (q.second == q.second && ((q.second <= 0 && fr >= 0) || (q.second >= 0 && fr <= 0)))
                near = std::min(near, std::fabs(q.first - r));
        if (near <= width)
            ok = true;
        MC_CHECK(ok,
                 "reported root %.17g (f=%g): no evaluated point of the opposite sign within %g "
                 "(nearest at %g)",
                 r, fr, width, near);
    }
    uint64_t h = mc::mix(mc::mixd(mc::mixd(3, x1), x2), found);
    for (auto &q : e.ev)
        h = mc::mixd(mc::mixd(h, q.first), q.second);
    mc::state(h);
    mc::trace();
    if (found)
        mc::aux(0);
    else
        mc::aux(1);
}

// real functions with a bracketed root: it is found, close to a sign change
struct Fn {
    const char *name;
    double (*f)(double, void *);
    double a, b;
};
static int ncalls;
static double flo, fhi;
static bool fout;
static double fscale = 1;
static void *cur;
template <int K> static double fn(double x, void *) {
    ncalls++;
    if (!(x >= flo && x <= fhi))
        fout = true;
    double y = 0;
    switch (K) {
    case 0: y = x - 0.3; break;
    case 1: y = x * x * x - 0.001; break;
    case 2: y = std::exp(x) - 2; break;
    case 3: y = std::atan(1e6 * (x - 0.7)); break;
    case 4: y = x < 0.123456789 ? -1.0 : 1.0; break; // jump
    case 5: y = std::pow(x - 0.5, 9); break;         // flat
    case 6: y = std::log(x + 1.0000001) + 0.5; break;
    case 7: y = std::sin(40 * x + 0.5) + 0.01 * x; break;
    case 8: y = x == 0.25 ? 0 : (x < 0.25 ? -1e-300 : 1e300); break;
    case 9: y = 1 / (x - 0.37) * ((x < 0.37) ? 1 : 1); break; // pole with a sign change
    case 10: y = x * 1e-290; break;
    default: y = std::cbrt(x - 0.61); break;
    }
    return fscale * y;
}

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"searches that succeeded", "searches that failed"};
    struct Iv {
        double a, b;
    };
    static const std::vector<Iv> IV = {{0, 1},      {1, 0},        {-1, 1},       {-1e-8, 1e-8},
                                       {1e-300, 1}, {-5, -2},      {0.5, 0.5},    {1e6, 1e6 + 1},
                                       {1, 1 + 1e-7}, {-1e100, 1e100}, {0, 1e-320}};
    static const std::vector<double> TOL = {2e-8, 0, 1e-3, 10};
    int D = mc::thorough ? 6 : 5;
    uint64_t block = mc::ipow(NANS, D - 2);
    mc::add(mc::fmt("adversarial function: all %d answers to %d evaluations x 4 completions x %zu "
                    "intervals x %zu tolerances",
                    (int)NANS, D, IV.size(), TOL.size()),
            (uint64_t)NANS * NANS * 4 * IV.size() * TOL.size(), [=](uint64_t i) {
                mc::Digits g(i);
                int sc[16];
                sc[0] = g.take(NANS);
                sc[1] = g.take(NANS);
                int tail = g.take(4);
                Iv iv = IV[g.take(IV.size())];
                double tol = TOL[g.take(TOL.size())];
                for (uint64_t k = 0; k < block; k++) {
                    mc::Digits h(k);
                    for (int j = 2; j < D; j++)
                        sc[j] = h.take(NANS);
                    Env e;
                    e.script = sc;
                    e.depth = D;
                    e.tail = tail;
                    examine(iv.a, iv.b, tol, e);
                    if (e.ev.size() <= 2)
                        break; // the search stopped before: the rest is not asked
                }
            });
    // deeper, smaller alphabet, bracketing ends
    int D2 = mc::thorough ? 15 : 12;
    uint64_t n2 = mc::ipow(3, D2 - 2), split = 81;
    mc::add(mc::fmt("adversarial function: signs and zero of the first %d evaluations, bracketing "
                    "ends, 3 magnitudes x 4 completions x 6 intervals",
                    D2),
            4 * 6 * 3 * split, [=](uint64_t i) {
                mc::Digits g(i);
                int tail = g.take(4);
                Iv iv = IV[g.take(6)];
                int mag = g.take(3);
                static const int MS[3][3] = {{0, 1, 4}, {2, 1, 0}, {0, 6, 9}};
                int sc[32];
                for (uint64_t k = g.v; k < n2; k += split) {
                    mc::Digits h(k);
                    sc[0] = MS[mag][0];
                    sc[1] = mag == 1 ? 3 : MS[mag][1];
                    for (int j = 2; j < D2; j++)
                        sc[j] = MS[mag][h.take(3)];
                    Env e;
                    e.script = sc;
                    e.depth = D2;
                    e.tail = tail;
                    examine(iv.a, iv.b, 2e-8, e);
                }
            });
    // answers of comparable magnitude: all interpolation steps
    int D3 = mc::thorough ? 8 : 6;
    uint64_t n3 = mc::ipow(CLOSE, D3 - 2);
    mc::add(mc::fmt("adversarial function: %d answers of comparable magnitude to the first %d "
                    "evaluations x 4 completions x %zu intervals x 3 tolerances",
                    (int)CLOSE, D3, IV.size()),
            (uint64_t)CLOSE * CLOSE * 4 * IV.size(), [=](uint64_t i) {
                mc::Digits g(i);
                int sc[32];
                sc[0] = NANS + g.take(CLOSE);
                sc[1] = NANS + g.take(CLOSE);
                if (ANS[sc[0]] * ANS[sc[1]] > 0)
                    return;
                int tail = g.take(4);
                Iv iv = IV[g.take(IV.size())];
                for (uint64_t k = 0; k < n3; k++) {
                    mc::Digits h(k);
                    for (int j = 2; j < D3; j++)
                        sc[j] = NANS + h.take(CLOSE);
                    for (double tol : {2e-8, 0.0, 1e-3}) {
                        Env e;
                        e.script = sc;
                        e.depth = D3;
                        e.tail = tail;
                        examine(iv.a, iv.b, tol, e);
                    }
                }
            });
    // uneven ratios: interpolation steps of every length, chained
    static const double UN[] = {-1, 1, -0.95, 0.95, -0.7, 0.7, -0.45, 0.45, -0.2, 0.2, -0.05, 0.05};
    const int NU = 12, D4 = mc::thorough ? 7 : 6;
    uint64_t n4 = mc::ipow(NU, D4 - 2);
    mc::add(mc::fmt("adversarial function: %d answers with uneven ratios to the first %d evaluations x 2 completions x "
                    "5 intervals",
                    NU, D4),
            (uint64_t)NU * NU * 2 * 5, [=](uint64_t i) {
                mc::Digits g(i);
                double v[16];
                v[0] = UN[g.take(NU)];
                v[1] = UN[g.take(NU)];
                if (v[0] * v[1] > 0)
                    return;
                static const Iv I5[] = {{0, 1}, {1, 0}, {-1e-8, 1e-8}, {1e6, 1e6 + 1}, {-1e100, 1e100}};
                int tail = g.take(2) ? 2 : 0;
                Iv iv = I5[g.take(5)];
                for (uint64_t k = 0; k < n4; k++) {
                    mc::Digits h(k);
                    for (int j = 2; j < D4; j++)
                        v[j] = UN[h.take(NU)];
                    Env e;
                    e.values = v;
                    e.depth = D4;
                    e.tail = tail;
                    examine(iv.a, iv.b, 2e-8, e);
                }
            });
    // fewer evaluations, finer answers (the scale does not matter: f(x1) = 1)
    const int NM = mc::thorough ? 40 : 20;
    mc::add(mc::fmt("adversarial function: f(x1) = 1, then answers k/%d, k = -%d .. %d, to 4 evaluations x 2 completions "
                    "x 4 intervals",
                    NM, NM, NM),
            (uint64_t)NM * (2 * NM + 1) * 4, [=](uint64_t i) {
                mc::Digits g(i);
                double v[8];
                v[0] = 1;
                v[1] = -(double)(1 + g.take(NM)) / NM;
                v[2] = (double)((int)g.take(2 * NM + 1) - NM) / NM;
                static const Iv I4[] = {{0, 1}, {1, 0}, {-3, 5}, {-1e-8, 1e-8}};
                Iv iv = I4[g.take(4)];
                for (int a = -NM; a <= NM; a++)
                    for (int b = -NM; b <= NM; b++)
                        for (int tail = 0; tail < 3; tail += 2) {
                            v[3] = (double)a / NM;
                            v[4] = (double)b / NM;
                            Env e;
                            e.values = v;
                            e.depth = 5;
                            e.tail = tail;
                            examine(iv.a, iv.b, 2e-8, e);
                        }
            });
    static const std::vector<Fn> F = {
        {"x-0.3", fn<0>, 0, 1},     {"x^3-0.001", fn<1>, -1, 1}, {"exp(x)-2", fn<2>, -30, 30},
        {"atan", fn<3>, -2, 5},     {"jump", fn<4>, -1, 1},      {"(x-.5)^9", fn<5>, -1, 3},
        {"log", fn<6>, -1, 10},     {"sin", fn<7>, -1, 1},       {"exact", fn<8>, 0, 1},
        {"pole", fn<9>, 0, 1},      {"tiny", fn<10>, -3, 7},     {"cbrt", fn<11>, -1, 1}};
    // a function that stops being defined after some evaluations
    mc::add("the 12 functions answering NaN at the k-th evaluation, k = 1..60, once or for ever x 9 intervals x order",
            F.size() * 60 * 2, [](uint64_t i) {
                mc::Digits g(i);
                const Fn &f = F[g.take(F.size())];
                bool forever = g.take(2);
                int k = 1 + g.v;
                for (int u = 0; u < 3; u++)
                    for (int v = 0; v < 3; v++)
                        for (int rev = 0; rev < 2; rev++)
                            for (double tol : {2e-8, 1e-14}) {
                                double x1 = f.a + (f.b - f.a) * u / 11.0, x2 = f.b - (f.b - f.a) * v / 13.0;
                                if (rev)
                                    std::swap(x1, x2);
                                fscale = 1;
                                struct Late {
                                    const Fn *f;
                                    int n, k;
                                    bool forever, given, outside;
                                    double lo, hi;
                                    std::vector<std::pair<double, double>> ev;
                                    static double call(double x, void *p) {
                                        Late *l = (Late *)p;
                                        l->n++;
                                        if (l->n > 2000)
                                            throw Stop{};
                                        if (!(x >= l->lo && x <= l->hi))
                                            l->outside = true;
                                        double y = l->f->f(x, 0);
                                        if (l->n == l->k || (l->forever && l->n > l->k)) {
                                            l->given = true;
                                            y = QNAN;
                                        }
                                        l->ev.push_back({x, y});
                                        return y;
                                    }
                                } l = {&f, 0, k, forever, false, false, std::min(x1, x2), std::max(x1, x2), {}};
                                int found = -1;
                                double r = 0;
                                bool stopped = false;
                                try {
                                    r = brent(&found, x1, x2, Late::call, &l, tol);
                                } catch (Stop &) {
                                    stopped = true;
                                }
                                mc::trans(l.n);
                                mc::log("%s on [%.17g,%.17g] tol=%g, NaN at evaluation %d%s -> %.17g found=%d (%d "
                                        "evaluations)",
                                        f.name, x1, x2, tol, k, forever ? " and after" : "", r, found, l.n);
                                MC_CHECK(!stopped, "%s: more than 2000 evaluations", f.name);
                                MC_CHECK(!l.outside, "%s: evaluated outside [%g,%g]", f.name, x1, x2);
                                if (found) {
                                    // a defined value there, and a sign change next to it
                                    double w = 1.05 * (4 * 2e-8 * std::fabs(r) + tol) + 1e-300, fr = QNAN, near = INF;
                                    for (auto &q : l.ev)
                                        if (q.first == r && (fr != fr))
                                            fr = q.second;
                                    MC_CHECK(fr == fr, "%s: the function is not defined at the reported root %.17g",
                                             f.name, r);
                                    for (auto &q : l.ev)
                                        if ((q.second <= 0 && fr >= 0) || (q.second >= 0 && fr <= 0))
                                            near = std::min(near, std::fabs(q.first - r));
                                    MC_CHECK(near <= w,
                                             "%s: reported root %.17g of [%g,%g]: no evaluated point of the opposite "
                                             "sign within %g (nearest at %g)",
                                             f.name, r, x1, x2, w, near);
                                }
                                mc::trace();
                                mc::state(mc::mixd(mc::mixd(mc::mix(i, found), x1), x2));
                            }
            });
    mc::add("bracketed roots of 12 functions x 400 intervals x 3 tolerances x 3 scales x order",
            F.size() * 400, [](uint64_t i) {
                mc::Digits g(i);
                const Fn &f = F[g.take(F.size())];
                int u = g.take(20), v = g.take(20);
                for (double tol : {2e-8, 1e-12, 1e-4})
                    for (double sc : {1.0, -1.0, 1e-200})
                        for (int rev = 0; rev < 2; rev++) {
                            // sub-interval of [a,b]
                            double m = f.a + (f.b - f.a) * 0.0625 * 0.0625;
                            double x1 = f.a + (f.b - f.a) * u / 41.0, x2 = f.b - (f.b - f.a) * v / 41.0;
                            (void)m;
                            if (rev)
                                std::swap(x1, x2);
                            fscale = sc;
                            flo = std::min(x1, x2);
                            fhi = std::max(x1, x2);
                            fout = false;
                            double f1 = f.f(x1, 0), f2 = f.f(x2, 0);
                            if (!((f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0)))
                                continue;
                            ncalls = 0;
                            fout = false;
                            int found = -1;
                            double r = brent(&found, x1, x2, f.f, 0, tol);
                            mc::trans(ncalls);
                            mc::log("%s on [%.17g,%.17g] tol=%g scale=%g -> %.17g found=%d (%d evaluations)",
                                    f.name, x1, x2, tol, sc, r, found, ncalls);
                            MC_CHECK(!fout, "%s: evaluated outside [%g,%g]", f.name, x1, x2);
                            MC_CHECK(found, "%s: bracketed root in [%.17g,%.17g] (tol %g) not found", f.name,
                                     x1, x2, tol);
                            double w = 1.05 * (4 * 2e-8 * std::fabs(r) + tol) + 1e-300;
                            double l = std::max(flo, r - w), h = std::min(fhi, r + w);
                            double fr = f.f(r, 0), fl = f.f(l, 0), fh = f.f(h, 0);
                            MC_CHECK(fr == 0 || fl * 1e300 * fr <= 0 || fh * 1e300 * fr <= 0,
                                     "%s: reported root %.17g of [%g,%g] is not within %g of a sign change",
                                     f.name, r, x1, x2, w);
                            mc::aux(0);
                            mc::trace();
                            mc::state(mc::mixd(mc::mixd(mc::mixd(i, tol), sc), r));
                        }
            });
    // the same functions stretched and moved: roots far from zero, tolerances of
    // every kind (the search stops at a relative distance of 4e-8 in any case)
    static const std::vector<double> ST = {1e-12, 1e-6, 1e-3, 1, 1e3, 1e6, 1e9, 1e12, 1e100};
    static const std::vector<double> MV = {0, 10, -1e4, 1e7};
    mc::add(mc::fmt("bracketed roots of 12 functions x %zu stretches x %zu offsets x 25 intervals x 5 tolerances x order",
                    ST.size(), MV.size()),
            F.size() * ST.size() * MV.size(), [](uint64_t i) {
                mc::Digits g(i);
                struct Map {
                    const Fn *f;
                    double st, mv, lo, hi;
                    int n;
                    bool out;
                    std::vector<std::pair<double, double>> ev;
                    static double call(double x, void *p) {
                        Map *m = (Map *)p;
                        m->n++;
                        if (m->n > 2000)
                            throw Stop{};
                        if (!(x >= m->lo && x <= m->hi))
                            m->out = true;
                        double y = m->f->f(x / m->st - m->mv, 0);
                        m->ev.push_back({x, y});
                        return y;
                    }
                } m;
                m.f = &F[g.take(F.size())];
                m.st = ST[g.take(ST.size())];
                m.mv = MV[g.v];
                fscale = 1;
                for (int u = 0; u < 5; u++)
                    for (int v = 0; v < 5; v++)
                        for (double tol : {0.0, 2e-8, 1e-300, 2e-8 * m.st, 1e-3 * m.st})
                            for (int rev = 0; rev < 2; rev++) {
                                double x1 = (m.f->a + (m.f->b - m.f->a) * u / 13.0 + m.mv) * m.st,
                                       x2 = (m.f->b - (m.f->b - m.f->a) * v / 13.0 + m.mv) * m.st;
                                if (rev)
                                    std::swap(x1, x2);
                                m.lo = std::min(x1, x2);
                                m.hi = std::max(x1, x2);
                                m.n = 0;
                                double f1 = Map::call(x1, &m), f2 = Map::call(x2, &m);
                                if (!((f1 < 0 && f2 > 0) || (f1 > 0 && f2 < 0)))
                                    continue;
                                // a root next to zero is beyond the reach of a relative tolerance
                                if (tol < 1e-9 * m.st && m.lo < 1e-3 * m.st && m.hi > -1e-3 * m.st)
                                    continue;
                                m.n = 0;
                                m.out = false;
                                m.ev.clear();
                                int found = -1;
                                double r = 0;
                                bool stopped = false;
                                try {
                                    r = brent(&found, x1, x2, Map::call, &m, tol);
                                } catch (Stop &) {
                                    stopped = true;
                                }
                                int n = m.n;
                                mc::trans(n);
                                mc::log("%s stretched %g moved %g on [%.17g,%.17g] tol=%g -> %.17g found=%d (%d evaluations)",
                                        m.f->name, m.st, m.mv, x1, x2, tol, r, found, n);
                                MC_CHECK(!stopped, "%s: more than 2000 evaluations", m.f->name);
                                MC_CHECK(!m.out, "%s: evaluated outside [%g,%g]", m.f->name, x1, x2);
                                MC_CHECK(found, "%s (x %g, + %g): bracketed root in [%.17g,%.17g] (tol %g) not found",
                                         m.f->name, m.st, m.mv, x1, x2, tol);
                                double w = 1.05 * (4 * 2e-8 * std::fabs(r) + tol) + 1e-300, fr = QNAN, near = INF;
                                for (auto &q : m.ev)
                                    if (q.first == r)
                                        fr = q.second;
                                MC_CHECK(fr == fr, "%s: the reported root %.17g was never evaluated", m.f->name, r);
                                for (auto &q : m.ev)
                                    if ((q.second <= 0 && fr >= 0) || (q.second >= 0 && fr <= 0))
                                        near = std::min(near, std::fabs(q.first - r));
                                MC_CHECK(near <= w, "%s: reported root %.17g of [%g,%g]: no evaluated point of the opposite sign "
                                         "within %g (nearest at %g)", m.f->name, r, x1, x2, w, near);
                                mc::aux(0);
                                mc::trace();
                                mc::state(mc::mixd(mc::mixd(mc::mixd(i, tol), x1), r));
                            }
            });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
