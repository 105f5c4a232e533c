// C06: the excess threshold is the P2 estimate of the level quantile.
//
// Reference: the five-marker recurrence in extended precision. A comparison
// whose outcome depends on rounding (margin below the noise) is explored both
// ways, so the reference is a set of results and any legitimate evaluation
// order of the recurrence is accepted.
#include "stream.hpp"
typedef long double ld;

struct Ref {
    ld q[5], n[5], np[5];
    // no evaluation order rounds this height: an observation, or the result of
    // divisions by powers of two of small dyadic heights
    bool exact[5];
};
struct P2Ref {
    ld p, dn[5];
    const std::vector<double> *x;
    std::vector<ld> out;
    ld scale;
    bool overflow;
    bool dyadic;
    unsigned branches;
    unsigned ties; // exact ties between the parabolic value and a neighbour

    void run(double prob, const std::vector<double> &data) {
        p = prob;
        x = &data;
        out.clear();
        overflow = false;
        branches = 0;
        ties = 0;
        dn[0] = 0;
        dn[1] = p / 2;
        dn[2] = p;
        dn[3] = (1 + p) / 2;
        dn[4] = 1;
        dyadic = std::floor(prob * 1024) == prob * 1024;
        Ref r;
        std::vector<double> f(data.begin(), data.begin() + 5);
        std::sort(f.begin(), f.end());
        double mn = INF, mx = -INF;
        for (double d : data) {
            mn = std::min(mn, d);
            mx = std::max(mx, d);
        }
        scale = mx - (ld)mn;
        ld np0[5] = {0, 2 * p, 4 * p, 2 + 2 * p, 4};
        for (int i = 0; i < 5; i++) {
            r.q[i] = f[i];
            r.n[i] = i;
            r.np[i] = np0[i];
            r.exact[i] = true;
        }
        // depth first over the readings, without recursion: a task resumes the
        // recurrence at observation j, marker i (0: the observation is not
        // counted yet)
        todo.clear();
        todo.push_back({r, 5, 0});
        while (!todo.empty() && !overflow) {
            Task t = todo.back();
            todo.pop_back();
            step(t.r, t.j, t.i);
        }
    }
    struct Task {
        Ref r;
        size_t j;
        int i;
    };
    std::vector<Task> todo;
    void step(Ref r, size_t j, int i) {
        for (;;) {
            if (i == 0) {
                if (!observe(r, j))
                    return;
                i = 1;
            }
            adjust(r, j, i);
            i = 0;
            j++;
            if (overflow)
                return;
        }
    }
    // accumulated rounding of the desired positions
    ld noise() const { return 1e-9L + 1.2e-16L * x->size() * x->size(); }
    ld tol() const { return scale * 1e-10L; }
    // counts the next observation inside the extremes; false at the end
    bool observe(Ref &r, size_t &j) {
        for (; j < x->size(); j++) {
            if (++branches > 200000) {
                overflow = true;
                return false;
            }
            ld v = (*x)[j];
            if (v < r.q[0]) {
                r.q[0] = v;
                continue;
            }
            if (v > r.q[4]) {
                r.q[4] = v;
                continue;
            }
            // markers at or above the observation count one more
            // (ambiguous only against an interpolated marker)
            int amb = -1;
            for (int i = 1; i < 4; i++)
                if (!r.exact[i] && fabsl(v - r.q[i]) <= tol())
                    amb = i;
            if (amb >= 0) {
                Ref r2 = r;
                // both readings of the comparison with that marker
                count(r2, v, amb, false);
                todo.push_back({r2, j, 1});
                count(r, v, amb, true);
            } else
                count(r, v, -1, false);
            return true;
        }
        out.push_back(r.q[2]);
        if (out.size() > 512)
            overflow = true;
        return false;
    }
    void count(Ref &r, ld v, int amb, bool below) {
        for (int i = 0; i < 5; i++) {
            bool le = v <= r.q[i];
            if (i == amb)
                le = below;
            if (le)
                r.n[i] += 1;
            r.np[i] += dn[i];
        }
    }
    void adjust(Ref &r, size_t j, int i) {
        for (; i < 4; i++) {
            ld d = r.np[i] - r.n[i];
            ld up = r.n[i + 1] - r.n[i], dnw = r.n[i - 1] - r.n[i];
            int dir = 0;
            if (d >= 1 && up > 1)
                dir = 1;
            else if (d <= -1 && dnw < -1)
                dir = -1;
            int near = 0; // the position is within rounding of the decision
            if (!dyadic) {
                if (up > 1 && fabsl(d - 1) < noise())
                    near = 1;
                else if (dnw < -1 && fabsl(d + 1) < noise())
                    near = -1;
            }
            if (near) {
                Ref r2 = r;
                if (!dir)
                    move(r2, j, i, near);
                todo.push_back({r2, j, i + 1});
            }
            if (dir)
                move(r, j, i, dir);
        }
    }
    static bool pow2(ld x) { return x == 1 || x == 2 || x == 4 || x == 8 || x == 16 || x == 32; }
    // at most 20 bits on each side of the binary point
    static bool small(const Ref &r, int i) {
        ld v = r.q[i] * 1048576.0L;
        return r.exact[i] && fabsl(r.q[i]) < 1048576.0L && v == floorl(v);
    }
    void move(Ref &r, size_t j, int i, int d) {
        ld a = r.n[i] - r.n[i - 1], b = r.n[i + 1] - r.n[i];
        ld par = r.q[i] + (d / (r.n[i + 1] - r.n[i - 1])) *
                              ((a + d) * (r.q[i + 1] - r.q[i]) / b +
                               (b - d) * (r.q[i] - r.q[i - 1]) / a);
        ld lin = r.q[i] + d * (r.q[i + d] - r.q[i]) / (r.n[i + d] - r.n[i]);
        bool in = r.q[i - 1] < par && par < r.q[i + 1];
        bool amb = fabsl(par - r.q[i - 1]) <= tol() || fabsl(par - r.q[i + 1]) <= tol();
        bool ep = small(r, i - 1) && small(r, i) && small(r, i + 1) && pow2(a) && pow2(b) &&
                  pow2(a + b);
        bool el = small(r, i) && small(r, i + d) && pow2(d > 0 ? b : a);
        if (ep && amb) {
            ties++;
            amb = false;
        }
        Ref r1 = r;
        r1.q[i] = in ? par : lin;
        r1.n[i] += d;
        r1.exact[i] = in ? ep : el;
        if (amb && fabsl(par - lin) > tol()) {
            Ref r2 = r;
            r2.q[i] = in ? lin : par;
            r2.n[i] += d;
            r2.exact[i] = false;
            todo.push_back({r2, j, i + 1});
        }
        r = r1;
    }
};

static void check_value(double r, double p, const std::vector<double> &d, const char *what) {
    double mn = INF, mx = -INF;
    for (double x : d) {
        mn = std::min(mn, x);
        mx = std::max(mx, x);
    }
    if (mc::logging) {
        std::string s;
        for (size_t i = 0; i < d.size() && i < 30; i++)
            s += mc::fmt("%s%.17g", i ? "," : "", d[i]);
        mc::log("%s p=%.17g data={%s} size %zu -> %.17g", what, p, s.c_str(), d.size(), r);
    }
    double slack = 1e-12 * std::max(std::fabs(mn), std::fabs(mx));
    MC_CHECK(r >= mn - slack && r <= mx + slack, "%s: %.17g is not between %.17g and %.17g", what,
             r, mn, mx);
    if (d.size() == 5) {
        std::vector<double> s = d;
        std::sort(s.begin(), s.end());
        MC_CHECK(r == s[2], "%s: %.17g for five observations, their median is %.17g", what, r,
                 s[2]);
    }
    static P2Ref ref;
    ref.run(p, d);
    mc::trans(d.size());
    if (ref.overflow) {
        mc::aux(1);
        return;
    }
    if (ref.out.size() > 1)
        mc::aux(0);
    if (ref.ties)
        mc::aux(2);
    ld tol = 1e-7L * (mx - (ld)mn) + slack, best = INFINITY, bv = 0;
    for (ld o : ref.out)
        if (fabsl(o - r) < best) {
            best = fabsl(o - r);
            bv = o;
        }
    MC_CHECK(best <= tol, "%s: estimate %.17g, the P2 recurrence gives %.17Lg", what, r, bv);
    uint64_t h = mc::mixd(0, p);
    for (double x : d)
        h = mc::mixd(h, x);
    mc::state(h);
    mc::trace();
}

static void direct(double p, const std::vector<double> &d) {
    if (mc::logging)
        mc::logtext.clear();
    std::vector<double> c = d;
    check_value(p2_quantile(p, c.data(), c.size()), p, d, "p2_quantile");
}
static void through_fit(double level, int low, const std::vector<double> &d) {
    if (mc::logging)
        mc::logtext.clear();
    Det det;
    if (det.init((1 - level) / 4, low, 1, level, 8))
        mc::fail("initialisation failed");
    int rc = spot_fit(&det.sp, d.data(), d.size());
    if (rc == -ERR_EXCESS_THRESHOLD_IS_NAN)
        mc::fail("fit on %zu finite values found no excess threshold", d.size());
    check_value(det.sp.excess_threshold, low ? 1. - level : level, d,
                low ? "excess threshold (lower tail)" : "excess threshold (upper tail)");
}

static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"inputs with rounding-dependent branches", "skipped (too many branches)",
                     "inputs with exact ties of the parabolic value"};
    static const std::vector<double> P = {0.0, 0.125, 0.25, 0.5, 0.75, 0.875, 0.9375,
                                          0.98, 0.02, 0.9, 0.1, 0.99, 0.3, 0.999, 0.9999, 0.001,
                                          0.91371234567, 0.04123456789};
    static const std::vector<double> LV = {0.98, 0.75, 0.9, 0.5, 0.99, 0.0, 0.875, 0.97312345678, 0.91371234567};
    struct A {
        const char *name;
        std::vector<double> v;
        int q, t;
    };
    static std::vector<A> as = {{"{0,1,2,3}", {0, 1, 2, 3}, 8, 10},
                                {"{-3,0,1,4,10}", {-3, 0, 1, 4, 10}, 7, 9},
                                {"{0,5,6,36}", {0, 5, 6, 36}, 9, 11},
                                {"{0.1,-7.3}", {0.1, -7.3}, 12, 16},
                                {"{0,1,2,3,4,5,6,7,8}", {0, 1, 2, 3, 4, 5, 6, 7, 8}, 6, 7}};
    for (auto &a : as) {
        A *pa = &a;
        size_t m = a.v.size();
        int L = mc::thorough ? a.t : a.q;
        for (int len = 5; len <= L; len++) {
            uint64_t n = mc::ipow(m, len), block = 64, cases = (n + block - 1) / block;
            mc::add(mc::fmt("all data sets of %d values over %s x %zu probabilities", len, a.name,
                            P.size()),
                    cases, [=](uint64_t i) {
                        for (uint64_t k = i * block; k < std::min(n, (i + 1) * block); k++) {
                            mc::Digits h(k);
                            std::vector<double> d;
                            for (int j = 0; j < len; j++)
                                d.push_back(pa->v[h.take(m)]);
                            for (double p : P)
                                direct(p, d);
                            if (len <= L - 1)
                                for (double l : LV)
                                    for (int low = 0; low < 2; low++)
                                        through_fit(l, low, d);
                        }
                    });
        }
    }
    // permutations of distinct values
    int N = mc::thorough ? 10 : 8;
    uint64_t f = 1;
    for (int i = 2; i <= N; i++)
        f *= i;
    uint64_t block = N * (uint64_t)(N - 1);
    mc::add(mc::fmt("all %d! orders of %d distinct values x %zu probabilities", N, N, P.size()),
            f / block, [=](uint64_t i) {
                for (uint64_t k = i * block; k < (i + 1) * block; k++) {
                    std::vector<double> pool, d;
                    for (int j = 0; j < N; j++)
                        pool.push_back(j * j - 3.0 * j + 0.5);
                    mc::Digits g(k);
                    for (int j = N; j > 0; j--) {
                        int x = g.take(j);
                        d.push_back(pool[x]);
                        pool.erase(pool.begin() + x);
                    }
                    for (double p : P)
                        direct(p, d);
                }
            });
    // larger structured sets
    unsigned long maxn = mc::thorough ? 1500 : 260;
    // (the last patterns repeat their values exactly, the extremes included)
    auto data_set = [](int pat, unsigned long n) {
        std::vector<double> d;
        Lcg r(n + 1000 * pat);
        for (unsigned long k = 0; k < n; k++)
            switch (pat - (int)NPAT) {
            case 0: d.push_back((double)(k * 7 % 11)); break;
            case 1: d.push_back(std::floor(6 * r.u())); break;
            case 2: d.push_back(-std::floor(3 * r.expo()) / 4); break;
            case 3: d.push_back(k % 10 < 8 ? (double)(k % 3) : 1000); break;
            default: d.push_back(pattern(pat, k, r) * ((k * 13) % 7 ? 1 : -1) + 1e-3 * r.u());
            }
        return d;
    };
    const int NP2 = NPAT + 4;
    mc::add(mc::fmt("structured data sets: every size 5..%lu x %d patterns", maxn, NP2),
            (maxn - 4) * NP2, [=](uint64_t i) {
                mc::Digits g(i);
                int pat = g.take(NP2);
                unsigned long n = 5 + g.v;
                std::vector<double> d = data_set(pat, n);
                for (double p : P)
                    direct(p, d);
                for (int low = 0; low < 2; low++)
                    through_fit(LV[n % LV.size()], low, d);
            });
    static const unsigned long LS[] = {500, 1000, 2000, 5000, 20000, 32770, 65537, 70000, 140000};
    mc::add(mc::fmt("large data sets: 9 sizes x %d patterns x probabilities x both tails", NP2), 9 * NP2,
            [=](uint64_t i) {
                mc::Digits g(i);
                int pat = g.take(NP2);
                unsigned long n = LS[g.v];
                std::vector<double> d = data_set(pat, n);
                for (double p : P)
                    if (n <= 20000 || p == 0.5 || p == 0.98 || p == 0.125 || p == 0.91371234567)
                        direct(p, d);
                for (double l : LV)
                    for (int low = 0; low < 2; low++)
                        if (n <= 20000 || l == 0.98 || l == 0.875 || l == 0.97312345678)
                            through_fit(l, low, d);
            },
            1);
    // monotone data: the published algorithm also counts the observations
    // outside the extremes; this implementation does not, so its markers never
    // move on monotone data (known finding)
    mc::add("monotone ramps 0..999", 2, [](uint64_t i) {
        std::vector<double> d;
        for (int k = 0; k < 1000; k++)
            d.push_back(i == 0 ? k : -k);
        double p = i == 0 ? 0.98 : 0.02;
        double r = p2_quantile(p, d.data(), d.size());
        mc::log("p2_quantile(%g, %s ramp of 1000 values) = %g", p, i ? "descending" : "ascending",
                r);
        double rank = (i == 0 ? r : 999 + r) / 999.0;
        if (std::fabs(rank - p) > 0.2)
            mc::finding(i == 0 ? "p2-ascending-ramp" : "p2-descending-ramp",
                        mc::fmt("the %g quantile of a monotone ramp of 1000 values is estimated as "
                                "%g (rank %.3f)",
                                p, r, rank));
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
