// C26: every call ends, after work bounded by the number of stored excesses
// (and the size of the training set for a fit), never by the length of the
// stream, and within a constant amount of stack.
//
// The library is compiled with a callback on every basic block: the work of a
// call is the number of blocks it executes, its stack use is the distance
// between the caller's frame and the deepest callback.
#include "stream.hpp"

static uint64_t work, limit = ~0ull;
static char *base, *deepest;
struct Endless {};
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    for (; a < b; a++)
        *a = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    char here;
    if (&here < deepest)
        deepest = &here;
    if (++work > limit)
        throw Endless{};
}
}
// The bounds leave a factor of about ten over what is observed (15 blocks for a
// query, 630 per stored excess for a step, 22 per training value for a fit).
static const uint64_t PER_CALL = 4000, PER_EXCESS = 8000, PER_VALUE = 400;
static const long STACK = 16384;
static uint64_t fit_bound(uint64_t m) { return PER_CALL + PER_EXCESS * (m + 1); }

static void begin(uint64_t bound) {
    work = 0;
    limit = 2 * bound;
    base = deepest = (char *)__builtin_frame_address(0);
}
static void end(uint64_t bound, const char *what, const Cfg &c, unsigned long stored, unsigned long n) {
    limit = ~0ull;
    uint64_t w = work;
    long st = base - deepest;
    if (mc::logging)
        mc::log("  %s: %" PRIu64 " blocks (bound %" PRIu64 "), %ld bytes of stack", what, w, bound, st);
    MC_CHECK(w <= bound, "%s with %lu stored excesses after %lu observations executes %" PRIu64
             " basic blocks, more than %" PRIu64 " (%s)", what, stored, n, w, bound, showcfg(c).c_str());
    MC_CHECK(st <= STACK, "%s with %lu stored excesses uses %ld bytes of stack (%s)", what, stored, st,
             showcfg(c).c_str());
    mc::trans();
}
template <class F> static void measured(uint64_t bound, const char *what, const Cfg &c, unsigned long stored,
                                        unsigned long n, F f) {
    begin(bound);
    try {
        f();
    } catch (Endless &) {
        limit = ~0ull;
        mc::fail("%s with %lu stored excesses after %lu observations does not end: %" PRIu64
                 " basic blocks executed (%s)", what, stored, n, work, showcfg(c).c_str());
    }
    end(bound, what, c, stored, n);
}
static uint64_t train_bound(uint64_t size, uint64_t cap) {
    return fit_bound(std::min(size, cap)) + PER_VALUE * size +
           (size > cap ? 40 * (size - cap) * (cap + 1) : 0);
}
static void do_init(Det &d, const Cfg &c) {
    int rc = 0;
    measured(PER_CALL + 8 * c.cap, "init", c, 0, 0, [&] { rc = d.init(c.q, c.low, c.disc, c.level, c.cap); });
    if (rc)
        mc::fail("initialisation with valid parameters failed: %d (%s)", rc, showcfg(c).c_str());
}
static int do_fit(struct Spot *s, const Cfg &c, const std::vector<double> &t) {
    int rc = 0;
    if (mc::logging) {
        std::string m;
        for (size_t i = 0; i < t.size() && i < 30; i++)
            m += mc::fmt("%s%.17g", i ? "," : "", t[i]);
        mc::log("%s; fit of {%s} size %zu", showcfg(c).c_str(), m.c_str(), t.size());
    }
    measured(train_bound(t.size(), c.cap), "fit", c, std::min<unsigned long>(t.size(), c.cap), t.size(),
             [&] { rc = spot_fit(s, t.data(), t.size()); });
    // without eviction: one root search on what is stored, one pass on the data
    if (s->Nt <= c.cap) {
        uint64_t w = work, b = fit_bound(s->Nt) + PER_VALUE * t.size();
        MC_CHECK(w <= b, "fit on %zu values with %lu excesses executes %" PRIu64 " basic blocks, more than %" PRIu64
                 " (%s)", t.size(), s->Nt, w, b, showcfg(c).c_str());
    }
    return rc;
}
static int do_step(struct Spot *s, const Cfg &c, double x) {
    int rc = 0;
    if (mc::logging)
        mc::log("step(%.17g)", x);
    unsigned long m = std::min(stored(s) + 1, c.cap);
    measured(fit_bound(m), "step", c, m, s->n, [&] { rc = spot_step(s, x); });
    return rc;
}
static void queries(struct Spot *s, const Cfg &c) {
    static const double Q[] = {0, 4.9406564584124654e-324, 1e-300, 1e-12, 0.01, 0.5, 1, 2, -1, 1e300, INF, -INF, QNAN};
    for (double q : Q)
        measured(PER_CALL, "quantile query", c, 0, s->n, [&] {
            volatile double r = spot_quantile(s, q);
            (void)r;
        });
    double t = s->excess_threshold;
    for (double z : {t, t + 1, t - 1, t * 2, -t, 1e300, -1e300, INF, -INF, QNAN, 0.0, s->anomaly_threshold})
        measured(PER_CALL, "probability query", c, 0, s->n, [&] {
            volatile double r = spot_probability(s, z);
            (void)r;
        });
}
// histories: observations anywhere, then queries
static void history(const Cfg &c, const std::vector<double> &train, const int *syms, int len, double unit) {
    if (mc::logging)
        mc::logtext.clear();
    Det d;
    do_init(d, c);
    int rc = do_fit(&d.sp, c, train);
    if (rc) {
        queries(&d.sp, c);
        do_step(&d.sp, c, unit);
        do_step(&d.sp, c, -unit);
        mc::trace();
        return;
    }
    for (int i = 0; i < len; i++) {
        do_step(&d.sp, c, resolve(&d.sp, c.low, syms[i]));
        mc::state(hash(&d.sp));
    }
    queries(&d.sp, c);
    mc::trace();
}

static void setup() {
    set_allocators(malloc, free);
    int D = mc::thorough ? 5 : 4;
    auto cf = std::make_shared<std::vector<Cfg>>(configs(true));
    mc::add(mc::fmt("all sequences of %d observations over %d symbols x %zu configurations", D, (int)S_COUNT, cf->size()),
            cf->size() * S_COUNT, [=](uint64_t i) {
                mc::Digits g(i);
                int syms[16];
                syms[0] = g.take(S_COUNT);
                const Cfg &c = (*cf)[g.v];
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, D - 1); k++) {
                    mc::Digits h(k);
                    for (int j = 1; j < D; j++)
                        syms[j] = h.take(S_COUNT);
                    history(c, trainings()[c.train], syms, D, 1);
                }
            });
    int U = mc::thorough ? 4 : 3;
    mc::add(mc::fmt("%zu extreme units x 4 training sets x tails x discard x 3 levels x 2 capacities: all sequences of %d "
                    "observations over %d symbols", units().size(), U, (int)S_COUNT),
            units().size() * 4 * 4 * 6, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                static const double LV[] = {0.75, 0.5, 0.98};
                double lv = LV[g.take(3)];
                unsigned long cap = g.take(2) ? 7 : 2;
                static const int TR[] = {0, 1, 3, 5};
                std::vector<double> tr = trainings()[TR[g.take(4)]];
                for (double &x : tr)
                    x *= units()[g.v];
                Cfg c{low, disc, lv, (1 - lv) / 25, cap, 0};
                int syms[8];
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, U); k++) {
                    mc::Digits h(k);
                    for (int j = 0; j < U; j++)
                        syms[j] = h.take(S_COUNT);
                    history(c, tr, syms, U, units()[g.v]);
                }
            });
    // training sets over extreme values
    static const double A[] = {0, 1, -1, 4.9406564584124654e-324, 1e308, -1e308, INF, -INF, QNAN, 1e-200};
    mc::add("all training sets of 0..6 values over 10 extreme values x tails x 2 capacities", 1000 * 4, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2);
        unsigned long cap = g.take(2) ? 1 : 4;
        uint64_t head = g.v;
        Cfg c{low, 0, 0.5, 0.01, cap, 0};
        for (int len = 0; len <= 6; len++)
            for (uint64_t k = 0; k < (len > 3 ? mc::ipow(10, len - 3) : 1); k++) {
                mc::Digits h(head), h2(k);
                std::vector<double> t;
                for (int j = 0; j < len; j++)
                    t.push_back(A[j < 3 ? h.take(10) : h2.take(10)]);
                if (mc::logging)
                    mc::logtext.clear();
                Det d;
                do_init(d, c);
                do_fit(&d.sp, c, t);
                for (int j = 0; j < 3; j++)
                    do_step(&d.sp, c, A[(k + j * 3 + head) % 10]);
                mc::state(hash(&d.sp));
                mc::trace();
            }
    });
    // windows of every size: the work grows with the window only
    unsigned long N = mc::thorough ? 600 : 200;
    mc::add(mc::fmt("every capacity 1..%lu x %d patterns x tails, filled twice", N, (int)NPAT), N * NPAT * 2, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), pat = g.take(NPAT);
        unsigned long cap = 1 + g.v;
        Cfg c{low, 0, 0.9, 1e-3, cap, 0};
        double s = low ? -1 : 1;
        Lcg r(3 + cap);
        std::vector<double> t;
        for (int k = 0; k < 60; k++)
            t.push_back(s * r.gauss());
        Det d;
        do_init(d, c);
        if (do_fit(&d.sp, c, t))
            return;
        for (unsigned long k = 0; k < 2 * cap + 3; k++)
            do_step(&d.sp, c, d.sp.excess_threshold + s * pattern(pat, k, r));
        mc::state(hash(&d.sp));
        queries(&d.sp, c);
        mc::trace();
    });
    // large training sets and capacities
    static const unsigned long LS[] = {1000, 20000, 300000};
    mc::add("training sets of 1000, 20000, 300000 values x 9 patterns x tails x 4 capacities x 2 levels", 3 * NPAT * 2 * 4 * 2, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), pat = g.take(NPAT);
        static const unsigned long CP[] = {1, 200, 5000, 400000};
        unsigned long cap = CP[g.take(4)];
        double lv = g.take(2) ? 0.98 : 0.25;
        unsigned long n = LS[g.v];
        if (cap == 5000 && n > 20000) // (quadratic work is allowed there)
            return;
        Cfg c{low, 1, lv, 1e-4, cap, 0};
        Lcg r(3 + cap);
        std::vector<double> t;
        for (unsigned long k = 0; k < n; k++)
            t.push_back(pattern(pat, k, r) * ((k * 13) % 7 ? 1 : -1) + 1e-3 * r.u());
        Det d;
        do_init(d, c);
        if (do_fit(&d.sp, c, t))
            return;
        for (int k = 0; k < 6; k++)
            do_step(&d.sp, c, resolve(&d.sp, low, k % 2 ? S_MID : S_SMALL));
        mc::state(hash(&d.sp));
        mc::trace();
    }, 1);
    mc::add("tied and sorted training sets: 8 shapes x 4 sizes x tails x 3 capacities", 8 * 4 * 2 * 3, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), shape = g.take(8);
        static const unsigned long CP[] = {1, 200, 400000};
        unsigned long cap = CP[g.take(3)];
        static const unsigned long L4[] = {40, 1000, 20000, 300000};
        unsigned long n = L4[g.v];
        Cfg c{low, 1, 0.5, 1e-4, cap, 0};
        Lcg r(3 + cap);
        std::vector<double> t;
        for (unsigned long k = 0; k < n; k++)
            switch (shape) {
            case 0: t.push_back(7); break;
            case 1: t.push_back(k % 2); break;
            case 2: t.push_back(k < n / 2); break;
            case 3: t.push_back(k >= n / 2); break;
            case 4: t.push_back(k); break;
            case 5: t.push_back(n - k); break;
            case 6: t.push_back((double)((k * 7919) % 10)); break;
            default: t.push_back(std::floor(4 * r.gauss())); break;
            }
        Det d;
        do_init(d, c);
        do_fit(&d.sp, c, t);
        for (int k = 0; k < 6; k++)
            do_step(&d.sp, c, resolve(&d.sp, low, k % 2 ? S_MID : S_SMALL));
        queries(&d.sp, c);
        mc::state(hash(&d.sp));
        mc::trace();
    }, 1);
    // counters far beyond what can be streamed here
    mc::add("counters preset to 2^10 .. 2^62 x 3 proportions of excesses x modes x 2 capacities: all sequences of 3 observations", 53 * 3 * 4 * 2, [](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), disc = g.take(2);
        unsigned long cap = g.take(2) ? 7 : 1;
        int prop = g.take(3);
        unsigned long n = 1ul << (10 + g.v), nt = prop == 0 ? 6 : prop == 1 ? n / 5 : n - 1;
        Cfg c{low, disc, 0.75, 0.01, cap, 0};
        Det d;
        do_init(d, c);
        for (uint64_t k = 0; k < mc::ipow(S_COUNT, 3); k++) {
            if (mc::logging)
                mc::logtext.clear();
            if (do_fit(&d.sp, c, trainings()[1]))
                mc::fail("fit failed");
            d.sp.n = n;
            d.sp.Nt = nt;
            mc::log("counters set to n=%lu Nt=%lu", n, nt);
            mc::Digits h(k);
            for (int j = 0; j < 3; j++)
                do_step(&d.sp, c, resolve(&d.sp, low, h.take(S_COUNT)));
            if (k % 7 == 0)
                queries(&d.sp, c);
            mc::trace();
        }
        mc::state(hash(&d.sp));
    });
    // the length of the stream does not matter
    unsigned long T = mc::thorough ? 200000000 : 6000000;
    mc::add(mc::fmt("streams of %lu observations: tails x discard x 2 mixes", T), 8, [=](uint64_t i) {
        mc::Digits g(i);
        int low = g.take(2), disc = g.take(2), mix = g.take(2);
        Cfg c{low, disc, 0.75, 0.01, 2, 0};
        Det d;
        do_init(d, c);
        if (do_fit(&d.sp, c, trainings()[1]))
            mc::fail("fit failed");
        for (unsigned long k = 0; k < T; k++)
            do_step(&d.sp, c, resolve(&d.sp, low, k % (mix ? 50 : 5000) == 3 ? (k / 7) % 3 ? S_SMALL : S_MID : S_NORM));
        queries(&d.sp, c);
        measured(PER_CALL, "free", c, 0, d.sp.n, [&] { spot_free(&d.sp); });
        mc::state(hash(&d.sp));
        mc::trace();
    }, 1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
