// Access to the code under test (headers of the working tree) and helpers.
#pragma once
#include "mc.hpp"
extern "C" {
#include "allocator.h"
#include "brent.h"
#include "estimator.h"
#include "p2.h"
#include "peaks.h"
#include "spot.h"
#include "structs.h"
#include "tail.h"
#include "ubend.h"
#include "xmath.h"
}
#define INF std::numeric_limits<double>::infinity()
#define QNAN std::numeric_limits<double>::quiet_NaN()
static const double EPS = 2.220446049250313e-16;

inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same_bits(double a, double b) {
    return (a != a && b != b) || mc::bits(a) == mc::bits(b);
}

// every public field of a detector plus its stored excesses
struct Snap {
    double q, level;
    int disc, low;
    double z, t;
    unsigned long Nt, n;
    double g, s, e, e2, mn, mx, le;
    unsigned long cap, size;
    std::vector<double> data;
};

inline unsigned long stored(const struct Spot *sp) { return ubend_size(&sp->tail.peaks.container); }

inline void snap(const struct Spot *sp, Snap &o) {
    o.q = sp->q;
    o.level = sp->level;
    o.disc = sp->discard_anomalies;
    o.low = sp->low;
    o.z = sp->anomaly_threshold;
    o.t = sp->excess_threshold;
    o.Nt = sp->Nt;
    o.n = sp->n;
    o.g = sp->tail.gamma;
    o.s = sp->tail.sigma;
    o.e = sp->tail.peaks.e;
    o.e2 = sp->tail.peaks.e2;
    o.mn = sp->tail.peaks.min;
    o.mx = sp->tail.peaks.max;
    o.le = sp->tail.peaks.container.last_erased_data;
    o.cap = sp->tail.peaks.container.capacity;
    o.size = stored(sp);
    o.data.assign(sp->tail.peaks.container.data, sp->tail.peaks.container.data + o.size);
}
inline uint64_t hash(const Snap &o) {
    uint64_t h = 17;
    h = mc::mixd(h, o.q);
    h = mc::mixd(h, o.level);
    h = mc::mix(h, o.disc * 2 + o.low);
    h = mc::mixd(h, o.z);
    h = mc::mixd(h, o.t);
    h = mc::mix(h, o.Nt);
    h = mc::mix(h, o.n);
    h = mc::mixd(h, o.g);
    h = mc::mixd(h, o.s);
    h = mc::mixd(h, o.e);
    h = mc::mixd(h, o.e2);
    h = mc::mix(h, o.cap);
    for (double d : o.data)
        h = mc::mixd(h, d);
    return h;
}
inline uint64_t hash(const struct Spot *sp) {
    uint64_t h = 17;
    h = mc::mixd(h, sp->q);
    h = mc::mixd(h, sp->level);
    h = mc::mix(h, sp->discard_anomalies * 2 + sp->low);
    h = mc::mixd(h, sp->anomaly_threshold);
    h = mc::mixd(h, sp->excess_threshold);
    h = mc::mix(h, sp->Nt);
    h = mc::mix(h, sp->n);
    h = mc::mixd(h, sp->tail.gamma);
    h = mc::mixd(h, sp->tail.sigma);
    h = mc::mixd(h, sp->tail.peaks.e);
    h = mc::mixd(h, sp->tail.peaks.e2);
    h = mc::mix(h, sp->tail.peaks.container.capacity);
    unsigned long sz = stored(sp);
    if (sz > 64)
        sz = 64;
    for (unsigned long i = 0; i < sz; i++)
        h = mc::mixd(h, sp->tail.peaks.container.data[i]);
    return h;
}
inline std::string show(const Snap &o) {
    std::string s = mc::fmt("q=%.17g level=%.17g discard=%d low=%d t=%.17g z=%.17g n=%lu Nt=%lu "
                            "gamma=%.17g sigma=%.17g e=%.17g e2=%.17g min=%.17g max=%.17g cap=%lu "
                            "stored[%lu]={",
                            o.q, o.level, o.disc, o.low, o.t, o.z, o.n, o.Nt, o.g, o.s, o.e, o.e2,
                            o.mn, o.mx, o.cap, o.size);
    for (size_t i = 0; i < o.data.size() && i < 20; i++)
        s += mc::fmt("%s%.17g", i ? "," : "", o.data[i]);
    return s + "}";
}
inline std::string show(const struct Spot *sp) {
    Snap o;
    snap(sp, o);
    return show(o);
}
// first difference between two snapshots, bit by bit ("" if none)
inline std::string diff(const Snap &a, const Snap &b) {
#define D_(f, F)                                                                                   \
    if (!same_bits(a.f, b.f))                                                                      \
        return mc::fmt("%s: %.17g vs %.17g", F, a.f, b.f);
#define I_(f, F)                                                                                   \
    if (a.f != b.f)                                                                                \
        return mc::fmt("%s: %lu vs %lu", F, (unsigned long)a.f, (unsigned long)b.f);
    D_(q, "q") D_(level, "level") I_(disc, "discard_anomalies") I_(low, "low")
    D_(z, "anomaly_threshold") D_(t, "excess_threshold") I_(Nt, "Nt") I_(n, "n") D_(g, "gamma")
    D_(s, "sigma") D_(e, "e") D_(e2, "e2") D_(mn, "min") D_(mx, "max") D_(le, "last_erased_data") I_(cap, "capacity")
    I_(size, "stored excesses")
    for (size_t i = 0; i < a.data.size(); i++)
        if (!same_bits(a.data[i], b.data[i]))
            return mc::fmt("stored excess %zu: %.17g vs %.17g", i, a.data[i], b.data[i]);
    return "";
#undef D_
#undef I_
}

// deterministic pseudo random numbers used only to build fixed data sets
struct Lcg {
    uint64_t s;
    explicit Lcg(uint64_t seed) : s(seed * 2862933555777941757ull + 3037000493ull) {}
    double u() {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return ((s >> 11) + 0.5) / 9007199254740992.0;
    }
    double gauss() {
        double a = u(), b = u();
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    double expo() { return -std::log(u()); }
};

// number of candidate detectors alive, to free them when a case aborts
struct Det {
    struct Spot sp;
    bool live = false;
    Det() { memset(&sp, 0, sizeof sp); }
    int init(double q, int low, int disc, double level, unsigned long cap) {
        int r = spot_init(&sp, q, low, disc, level, cap);
        live = r == 0;
        return r;
    }
    ~Det() {
        if (live)
            spot_free(&sp);
    }
    Det(const Det &) = delete;
};
