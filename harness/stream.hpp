// Exploration of detector histories: every configuration of a list, calibrated
// on a training set, then every sequence of observation symbols up to a depth.
// A symbol is resolved against the current state of the detector (thresholds,
// stored excesses), so ties and neighbouring doubles are reached in every
// state. Every sequence is executed from scratch on the real code.
#pragma once
#include "spotx.hpp"

struct Cfg {
    int low, disc;
    double level, q;
    unsigned long cap;
    int train;
};

inline const std::vector<std::vector<double>> &trainings() {
    static std::vector<std::vector<double>> T;
    if (T.empty()) {
        T.push_back({1, 2, 3, 4, 5});
        T.push_back({3, -1, 4, 1, -5, 9, 2, 6, -5, 3, 5});
        { // small gaussian-like sample
            Lcg r(1);
            std::vector<double> v;
            for (int i = 0; i < 24; i++)
                v.push_back(r.gauss());
            T.push_back(v);
        }
        T.push_back({0, 0, 1, 0, 2, 2, 0, 5, 0, 100, 1, 0, -7});       // ties, heavy tail
        T.push_back({-1000, -1000.25, -999.5, -1000.75, -999.875, -1000.5, -1001}); // offset
        T.push_back({1e6, 3e6, 2.5e6, 7e6, 1.5e6, 2e6, 4.25e6, 9e5});  // large unit
        T.push_back({2e-7, 1e-7, 3e-7, 2.5e-7, 1.5e-7, 5e-7});         // small unit
    }
    return T;
}

enum Sym {
    S_NORM,  // far on the normal side
    S_TB,    // double just before the excess threshold
    S_T,     // the excess threshold
    S_TA,    // double just after
    S_SMALL, // small excess
    S_MID,   // half way to the anomaly threshold
    S_DUP,   // same excess as the largest stored one
    S_Z,     // the anomaly threshold
    S_ZA,    // double just beyond
    S_FAR,   // far beyond
    S_NAN,
    S_PINF,
    S_MINF,
    S_BIG, // extremely far
    S_COUNT
};
inline const char *symname(int s) {
    static const char *n[] = {"NORM", "T-", "T",   "T+",  "SMALL", "MID",  "DUP",
                              "Z",    "Z+", "FAR", "NAN", "+INF",  "-INF", "BIG"};
    return n[s];
}

inline double resolve(const struct Spot *sp, int low, int sym) {
    double s = low ? -1.0 : 1.0;
    double t = sp->excess_threshold, z = sp->anomaly_threshold;
    double w = std::fabs(z - t);
    if (!(w < INF) || w == 0)
        w = 1 + std::fabs(t) * 0.25;
    switch (sym) {
    case S_NORM:
        return t - s * 3.5 * w;
    case S_TB:
        return std::nextafter(t, -s * INF);
    case S_T:
        return t;
    case S_TA:
        return std::nextafter(t, s * INF);
    case S_SMALL:
        return t + s * w * 0.03125;
    case S_MID:
        return t + s * w * 0.5;
    case S_DUP: {
        double m = sp->tail.peaks.max;
        return m == m ? t + s * m : t + s * w * 0.25;
    }
    case S_Z:
        return z == z ? z : t + s * w;
    case S_ZA:
        return z == z ? std::nextafter(z, s * INF) : t + s * 2 * w;
    case S_FAR:
        return (z == z ? z : t) + s * 6 * w;
    case S_NAN:
        return QNAN;
    case S_PINF:
        return INF;
    case S_MINF:
        return -INF;
    case S_BIG:
        return t + s * 4096 * w;
    }
    return 0;
}

struct Visitor {
    virtual ~Visitor() {}
    virtual void fitted(const Cfg &, struct Spot *, const std::vector<double> &, int rc) {
        (void)rc;
    }
    virtual void before(const Cfg &, struct Spot *, double) {}
    virtual void after(const Cfg &, struct Spot *, double, int rc) { (void)rc; }
    virtual void finish(const Cfg &, struct Spot *) {}
};

inline std::string showcfg(const Cfg &c) {
    return mc::fmt("init(q=%.17g, low=%d, discard_anomalies=%d, level=%.17g, max_excess=%lu)", c.q,
                   c.low, c.disc, c.level, c.cap);
}

// runs one history; returns false if the configuration cannot be calibrated
inline bool run_history(const Cfg &c, const std::vector<double> &train, const int *syms, int len,
                        Visitor &v) {
    Det d;
    if (mc::logging)
        mc::logtext.clear();
    mc::log("%s", showcfg(c).c_str());
    int rc = d.init(c.q, c.low, c.disc, c.level, c.cap);
    if (rc != 0)
        mc::fail("initialisation with valid parameters failed: %d (%s)", rc, showcfg(c).c_str());
    if (mc::logging) {
        std::string s = "fit({";
        for (size_t i = 0; i < train.size() && i < 40; i++)
            s += mc::fmt("%s%.17g", i ? "," : "", train[i]);
        mc::log("%s}) size %zu", s.c_str(), train.size());
    }
    rc = spot_fit(&d.sp, train.data(), train.size());
    mc::trans();
    if (mc::logging)
        mc::log("  -> %d  %s", rc, show(&d.sp).c_str());
    v.fitted(c, &d.sp, train, rc);
    if (rc != 0)
        return false;
    mc::state(hash(&d.sp));
    for (int i = 0; i < len; i++) {
        double x = resolve(&d.sp, c.low, syms[i]);
        v.before(c, &d.sp, x);
        rc = spot_step(&d.sp, x);
        mc::trans();
        if (mc::logging)
            mc::log("step(%.17g) [%s] -> %d  %s", x, symname(syms[i]), rc, show(&d.sp).c_str());
        v.after(c, &d.sp, x, rc);
        mc::state(hash(&d.sp));
    }
    v.finish(c, &d.sp);
    mc::trace();
    return true;
}

inline std::vector<Cfg> configs(bool small) {
    std::vector<Cfg> out;
    std::vector<std::pair<double, double>> lq = {{0.75, 0.01}, {0.5, 1e-4}, {0.98, 1e-3}, {0.0, 0.2}};
    std::vector<unsigned long> caps = {1, 2, 3, 5};
    if (small) {
        lq = {{0.75, 0.01}};
        caps = {1, 3, 4};
    }
    for (size_t tr = 0; tr < trainings().size(); tr++) {
        if (small && !mc::thorough && (tr == 2 || tr == 4 || tr == 6))
            continue;
        for (auto &p : lq)
            for (unsigned long cap : caps)
                for (int low = 0; low < 2; low++)
                    for (int disc = 0; disc < 2; disc++)
                        out.push_back({low, disc, p.first, p.second, cap, (int)tr});
    }
    return out;
}

// exhaustive families over symbol sequences
// (full alphabet: depth-1 on every configuration and depth on the small list;
// reduced alphabet on the small list)
inline void add_streams(std::function<Visitor *()> mk, int quick_full, int thor_full, int quick_red,
                        int thor_red) {
    auto cf = std::make_shared<std::vector<Cfg>>(configs(false));
    auto cs = std::make_shared<std::vector<Cfg>>(configs(true));
    int df = mc::thorough ? thor_full : quick_full;
    int dr = mc::thorough ? thor_red : quick_red;
    auto full = [&](std::shared_ptr<std::vector<Cfg>> cf, int df) {
        // one case = one configuration and one first symbol, all continuations
        uint64_t cont = mc::ipow(S_COUNT, df - 1);
        mc::add(mc::fmt("all sequences of %d observations over %d symbols x %zu configurations", df,
                        (int)S_COUNT, cf->size()),
                cf->size() * S_COUNT, [=](uint64_t i) {
                    mc::Digits g(i);
                    int first = g.take(S_COUNT);
                    const Cfg &c = (*cf)[g.v];
                    Visitor *v = mk();
                    std::unique_ptr<Visitor> own(v);
                    int syms[16];
                    syms[0] = first;
                    for (uint64_t k = 0; k < cont; k++) {
                        mc::Digits h(k);
                        for (int j = 1; j < df; j++)
                            syms[j] = h.take(S_COUNT);
                        if (!run_history(c, trainings()[c.train], syms, df, *v))
                            break;
                    }
                });
    };
    if (df > 0) {
        full(cf, df - 1);
        full(cs, df);
    }
    if (dr > 0) {
        static const int red[] = {S_NORM, S_T, S_SMALL, S_MID, S_ZA, S_DUP, S_FAR};
        const int R = 7;
        int split = 2;
        uint64_t heads = mc::ipow(R, split), cont = mc::ipow(R, dr - split);
        mc::add(mc::fmt("all sequences of %d observations over %d symbols x %zu configurations", dr,
                        R, cs->size()),
                cs->size() * heads, [=](uint64_t i) {
                    mc::Digits g(i);
                    uint64_t head = g.take(heads);
                    const Cfg &c = (*cs)[g.v];
                    Visitor *v = mk();
                    std::unique_ptr<Visitor> own(v);
                    int syms[16];
                    mc::Digits hd(head);
                    for (int j = 0; j < split; j++)
                        syms[j] = red[hd.take(R)];
                    for (uint64_t k = 0; k < cont; k++) {
                        mc::Digits h(k);
                        for (int j = split; j < dr; j++)
                            syms[j] = red[h.take(R)];
                        if (!run_history(c, trainings()[c.train], syms, dr, *v))
                            break;
                    }
                });
    }
}

// long structured streams: every (capacity, pattern, tail, discard) of the grid
inline const std::vector<unsigned long> &longcaps() {
    static std::vector<unsigned long> c;
    if (c.empty()) {
        for (unsigned long i = 1; i <= 40; i++)
            c.push_back(i);
        for (unsigned long i : {47ul, 48ul, 50ul, 63ul, 64ul, 65ul, 99ul, 100ul, 101ul, 127ul,
                                128ul, 129ul, 200ul, 255ul, 256ul, 257ul})
            c.push_back(i);
        if (mc::thorough)
            for (unsigned long i : {400ul, 499ul, 500ul, 501ul, 511ul, 512ul, 513ul, 1000ul, 1023ul,
                                    1024ul, 1025ul})
                c.push_back(i);
    }
    return c;
}
// value of the i-th excess of a pattern, in (0, about 3]
enum { NPAT = 9 };
inline double pattern(int p, unsigned long i, Lcg &r) {
    switch (p) {
    case 0:
        return 1.0 + 0.001 * (i % 977); // increasing
    case 1:
        return 3.0 - 0.001 * (i % 977); // decreasing
    case 2:
        return 1.0; // constant
    case 3:
        return 0.25 * (1 + i % 7); // sawtooth with ties
    case 4:
        return r.expo() + 1e-3; // exponential
    case 5:
        return (i % 2) ? 0.001 : 2.5; // alternating extremes
    case 6:
        return std::pow(r.u(), -0.5) - 0.99; // heavy tail
    case 7:
        return (i % 5 == 4) ? 0.0 : r.u(); // zeros
    default:
        return 0.01 + ((i * 7919) % 1009) / 400.0; // permutation like
    }
}
inline void add_long(std::function<Visitor *()> mk) {
    mc::add(mc::fmt("long structured streams: %zu capacities x %d patterns x tails x discard",
                    longcaps().size(), (int)NPAT),
            longcaps().size() * NPAT * 4, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2), pat = g.take(NPAT);
                unsigned long cap = longcaps()[g.v];
                Cfg c{low, disc, 0.9, 1e-3, cap, -1};
                double s = low ? -1 : 1;
                std::unique_ptr<Visitor> v(mk());
                std::vector<double> train;
                Lcg r(77 + cap);
                // the number of excesses of the training data straddles the capacity
                unsigned long m = 30 + (cap % 3) * 9 * (cap < 150 ? cap : 150);
                for (unsigned long k = 0; k < m; k++)
                    train.push_back(s * r.gauss() + 0.25);
                Det d;
                mc::log("%s", showcfg(c).c_str());
                int rc = d.init(c.q, low, disc, c.level, cap);
                if (rc != 0)
                    mc::fail("initialisation failed: %d", rc);
                rc = spot_fit(&d.sp, train.data(), m);
                mc::trans();
                if (mc::logging)
                    mc::log("fit(%lu gaussian values, seed %lu) -> %d %s", m, 77 + cap, rc,
                            show(&d.sp).c_str());
                v->fitted(c, &d.sp, train, rc);
                if (rc != 0)
                    return;
                unsigned long N = 2 * cap + 9 + (cap < 70 ? cap : 0);
                for (unsigned long k = 0; k < N; k++) {
                    double x;
                    if (k % 11 == 5)
                        x = d.sp.excess_threshold - s * (1 + r.u());
                    else if (k % 23 == 7)
                        x = d.sp.anomaly_threshold + s * 2.0;
                    else {
                        double ex = pattern(pat, k, r);
                        x = d.sp.excess_threshold + s * ex;
                    }
                    v->before(c, &d.sp, x);
                    rc = spot_step(&d.sp, x);
                    mc::trans();
                    if (mc::logging && (k + 20 > N || k < 5))
                        mc::log("step(%.17g) -> %d %s", x, rc, show(&d.sp).c_str());
                    v->after(c, &d.sp, x, rc);
                    mc::state(hash(&d.sp));
                }
                v->finish(c, &d.sp);
                mc::trace();
            },
            4);
}

// very long streams: counters far beyond any small threshold. Mixes: mostly
// normal observations with rare excesses; 2% excesses; a bit of everything
inline void add_verylong(std::function<Visitor *()> mk, unsigned long quick, unsigned long thor) {
    unsigned long total = mc::thorough ? thor : quick;
    mc::add(mc::fmt("very long streams: %lu observations, 5 mixes x tails x discard", total), 20,
            [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2), mix = g.v;
                Cfg c{low, disc, 0.75, 0.01, 4, 1};
                unsigned long N = mix == 4 ? total / 8 : total; // the last mix: excesses only
                std::unique_ptr<Visitor> v(mk());
                auto &train = trainings()[1];
                Det d;
                mc::log("%s", showcfg(c).c_str());
                if (d.init(c.q, low, disc, c.level, c.cap))
                    mc::fail("initialisation failed");
                int rc = spot_fit(&d.sp, train.data(), train.size());
                v->fitted(c, &d.sp, train, rc);
                if (rc)
                    mc::fail("fit failed");
                for (unsigned long k = 0; k < N; k++) {
                    int sym = mix == 4 ? (k % 3 ? S_SMALL : k % 2 ? S_MID : S_T) : S_NORM;
                    if (mix == 4)
                        ;
                    else if (mix == 0 ? k == N / 2 : mix == 1 ? k % 50000 == 7 : mix == 2 ? k % 50 == 3 : k % 7 == 3)
                        sym = (k / 7) % 3 ? S_SMALL : S_MID;
                    else if (mix == 3 && k % 7 == 5)
                        sym = (k / 7) % 2 ? S_ZA : S_NAN;
                    else if (mix == 2 && k % 50 == 20)
                        sym = S_TB;
                    double x = resolve(&d.sp, low, sym);
                    // without discarding an S_ZA is an excess that moves the threshold away
                    if (sym == S_ZA && !disc)
                        x = QNAN;
                    v->before(c, &d.sp, x);
                    rc = spot_step(&d.sp, x);
                    if (mc::logging && (k < 3 || k + 3 > N))
                        mc::log("observation %lu: step(%.17g) -> %d %s", k, x, rc, show(&d.sp).c_str());
                    v->after(c, &d.sp, x, rc);
                    if (k % 4096 == 0)
                        mc::state(hash(&d.sp));
                }
                mc::trans(N);
                v->finish(c, &d.sp);
                mc::trace();
            },
            1);
}

// the same histories in extreme units, down to the smallest subnormal numbers
inline const std::vector<double> &units() {
    static std::vector<double> u = {4.9406564584124654e-324, 1e-320, 1e-310, 3e-308, 1e-305, 1e-250, 1e-160, 1e-100,
                                    1e-30, 1e-20, 1e-15, 1e-13, 1e-9, 1e12, 1e20, 1e60, 1e120, 1e160, 1e250, 1e300};
    return u;
}
inline void add_units(std::function<Visitor *()> mk, int quick, int thor) {
    int d = mc::thorough ? thor : quick;
    mc::add(mc::fmt("%zu extreme units x 4 training sets x tails x discard x 3 levels x 2 capacities: all sequences of %d "
                    "observations over %d symbols",
                    units().size(), d, (int)S_COUNT),
            units().size() * 4 * 4 * 6, [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), disc = g.take(2);
                static const double LV[] = {0.75, 0.5, 0.98};
                double lv = LV[g.take(3)];
                unsigned long cap = g.take(2) ? 7 : 2;
                static const int TR[] = {0, 1, 3, 5};
                std::vector<double> tr = trainings()[TR[g.take(4)]];
                double m = 0;
                for (double x : tr)
                    m = std::max(m, std::fabs(x));
                for (double &x : tr)
                    x = m > 1e5 ? x / 1e5 * units()[g.v] : x * units()[g.v];
                Cfg c{low, disc, lv, (1 - lv) / 25, cap, 0};
                std::unique_ptr<Visitor> v(mk());
                int syms[8];
                for (uint64_t k = 0; k < mc::ipow(S_COUNT, d); k++) {
                    mc::Digits h(k);
                    for (int j = 0; j < d; j++)
                        syms[j] = h.take(S_COUNT);
                    if (!run_history(c, tr, syms, d, *v))
                        break;
                }
            });
}

// calibration again in the middle of a history: every sequence of fits (four
// training sets of one size, with as many excesses, one of them the first set
// again in another order) and observations
inline void add_refits(std::function<Visitor *()> mk, int quick, int thor) {
    static const std::vector<std::vector<double>> F = {{3, 1, 4, 1.5, 9, 2, 6, 5},
                                                       {9, 6, 5, 4, 3, 2, 1.5, 1},
                                                       {30, 10, 40, 15, 90, 20, 60, 50},
                                                       {-1.5, 2.5, -0.25, 0, 1, 12, 0.5, 1.25}};
    static const int SY[] = {S_NORM, S_T, S_SMALL, S_MID, S_ZA};
    const int A = 5 + 4;
    int d = mc::thorough ? thor : quick;
    uint64_t cont = mc::ipow(A, d - 1);
    mc::add(mc::fmt("all sequences of %d operations over 5 symbols and 4 calibrations x 4 capacities x tails x discard x 2 levels",
                    d),
            A * 32, [=](uint64_t i) {
                mc::Digits g(i);
                int first = g.take(A), low = g.take(2), disc = g.take(2);
                static const unsigned long CP[] = {1, 2, 4, 12};
                unsigned long cap = CP[g.take(4)];
                double lv = g.v ? 0.5 : 0.75;
                Cfg c{low, disc, lv, lv == 0.5 ? 1e-4 : 0.01, cap, 0};
                std::unique_ptr<Visitor> v(mk());
                for (uint64_t k = 0; k < cont; k++) {
                    mc::Digits h(k);
                    Det dt;
                    if (mc::logging)
                        mc::logtext.clear();
                    mc::log("%s", showcfg(c).c_str());
                    if (dt.init(c.q, low, disc, c.level, cap))
                        mc::fail("initialisation failed");
                    bool ok = true;
                    auto fit = [&](int f) {
                        int rc = spot_fit(&dt.sp, F[f].data(), F[f].size());
                        mc::trans();
                        if (mc::logging)
                            mc::log("fit(set %d) -> %d %s", f, rc, show(&dt.sp).c_str());
                        v->fitted(c, &dt.sp, F[f], rc);
                        ok = rc == 0;
                    };
                    fit(0);
                    for (int j = 0; j < d && ok; j++) {
                        int op = j ? (int)h.take(A) : first;
                        if (op >= 5) {
                            fit(op - 5);
                            continue;
                        }
                        double x = resolve(&dt.sp, low, SY[op]);
                        v->before(c, &dt.sp, x);
                        int rc = spot_step(&dt.sp, x);
                        mc::trans();
                        if (mc::logging)
                            mc::log("step(%.17g) -> %d %s", x, rc, show(&dt.sp).c_str());
                        v->after(c, &dt.sp, x, rc);
                    }
                    if (ok)
                        v->finish(c, &dt.sp);
                    mc::state(hash(&dt.sp));
                    mc::trace();
                }
            });
}
