// C16: results depend only on the configuration and the data.
// The same history is executed in several environments (previous content of
// the structure, of the allocated memory, of the stack; earlier uses of the
// library; queries inserted at every subset of positions) and every return
// value and field is compared bit by bit.
#include "stream.hpp"

enum { E_BASE, E_AA, E_FF, E_NUM, E_BIG, E_REUSE_FREED, E_REUSE_LOW, E_AFTER_OTHERS, E_FAILED_INIT,
       E_OTHER_ALIVE, E_COPY, E_COPY_FITTED, E_SHIFT, E_STATIC, NENV };
static const char *EN[] = {"zeroed memory", "memory filled with 0xAA", "memory filled with 0xFF",
                           "memory filled with 3.0", "memory filled with 1e308",
                           "structure used and freed before", "structure of a freed lower-tail detector",
                           "after 40 other detectors", "after a failed initialisation",
                           "with another detector alive",
                           "structure copied from a full detector of the same configuration",
                           "structure copied from a fitted detector of the same configuration",
                           "structure, storage and data at odd multiples of 8 bytes", "structure in static memory, data at the end of a page"};
static int pat; // content of the allocated memory
static bool failing;
static void fill(void *p, size_t n, int how) {
    double v = how == E_NUM ? 3.0 : 1e308;
    switch (how) {
    case E_AA:
        memset(p, 0xAA, n);
        break;
    case E_FF:
        memset(p, 0xFF, n);
        break;
    case E_NUM:
    case E_BIG:
        for (size_t i = 0; i + 8 <= n; i += 8)
            memcpy((char *)p + i, &v, 8);
        break;
    default:
        memset(p, 0, n);
    }
}
static void *al(size_t s) {
    if (failing)
        return nullptr;
    // the address of the block is in front of it; blocks are multiples of 16
    // except in one environment
    char *p = (char *)malloc(s + 16), *r = p + (pat == E_SHIFT ? 8 : 16);
    memcpy(r - 8, &p, 8);
    fill(r, s, pat);
    return r;
}
static void fr(void *r) {
    void *p;
    memcpy(&p, (char *)r - 8, 8);
    free(p);
}
__attribute__((noinline)) static void dirty_stack(int how) {
    volatile double a[1500];
    double v = how == E_NUM ? 3.0 : how == E_BIG ? 1e308 : how == E_AA ? -7.25e-12 : how == E_FF ? QNAN : 0.0;
    for (int i = 0; i < 1500; i++)
        a[i] = v;
}

struct Rec {
    std::vector<double> r; // return values and query results
    std::vector<Snap> s;
};
static const double QQ[] = {1e-6, 1e-3, 0.2};

static void query(struct Spot *sp, std::vector<double> *out) {
    double t = sp->excess_threshold, z = sp->anomaly_threshold;
    for (double q : QQ) {
        double a = spot_quantile(sp, q);
        if (out)
            out->push_back(a);
    }
    double own = spot_quantile(sp, sp->q);
    if (out)
        out->push_back(own);
    for (double x : {t, z, t + 1, t - 1, 2 * z - t}) {
        double a = spot_probability(sp, x);
        if (out)
            out->push_back(a);
    }
    mc::trans(9);
}

// ops: symbols of the stream alphabet; S_COUNT: a second fit on another set
static void play(int env, const Cfg &c, const std::vector<double> &train, const std::vector<double> &second,
                 const int *ops, int len, unsigned mask, Rec &R) {
    R.r.clear();
    R.s.clear();
    struct Spot other;
    bool alive = false;
    static struct Spot placed;
    char *blk = (char *)malloc(sizeof(struct Spot) + 16);
    struct Spot *sp = env == E_STATIC ? &placed : (struct Spot *)(blk + (env == E_SHIFT ? 8 : 0));
    pat = env;
    // the training data of these environments are elsewhere in memory
    static double room[3 * 512] __attribute__((aligned(4096)));
    auto fit = [&](const std::vector<double> &v) {
        const double *at = v.data();
        if (env == E_SHIFT)
            at = (const double *)memcpy(room + 1, v.data(), v.size() * 8);
        else if (env == E_STATIC)
            at = (const double *)memcpy(room + 512 - v.size(), v.data(), v.size() * 8);
        return spot_fit(sp, at, v.size());
    };
    fill(sp, sizeof *sp, env);
    static const double W[] = {1, 5, 2, 8, 3, 9, 4, 4, 6, 7, 2.5, 1.5};
    auto burn = [&](struct Spot *s, int low, unsigned long cap) {
        spot_init(s, 0.03, low, low, 0.6, cap);
        spot_fit(s, W, 12);
        for (int k = 0; k < 12; k++)
            spot_step(s, s->excess_threshold + (low ? -1 : 1) * 0.4 * k);
    };
    switch (env) {
    case E_REUSE_FREED:
        burn(sp, 0, 6);
        spot_free(sp);
        break;
    case E_REUSE_LOW:
        burn(sp, 1, 2);
        spot_free(sp);
        break;
    case E_AFTER_OTHERS:
        for (int k = 0; k < 40; k++) {
            struct Spot o;
            burn(&o, k & 1, 1 + k % 5);
            spot_free(&o);
        }
        break;
    case E_FAILED_INIT:
        failing = true;
        spot_init(sp, 0.04, 1, 0, 0.5, 9);
        failing = false;
        spot_init(sp, 0.9, 1, 0, 0.5, 9);
        break;
    case E_OTHER_ALIVE:
        burn(&other, 1, 3);
        alive = true;
        break;
    case E_COPY:
    case E_COPY_FITTED:
        // a detector of the very same configuration, possibly full, still alive
        if (spot_init(&other, c.q, c.low, c.disc, c.level, c.cap))
            mc::fail("initialisation failed");
        spot_fit(&other, W, 12);
        if (env == E_COPY)
            for (unsigned long k = 0; k < 2 * c.cap + 3; k++)
                spot_step(&other, other.excess_threshold + (c.low ? -1e-3 : 1e-3) * (double)(1 + k % 3));
        memcpy(sp, &other, sizeof other);
        alive = true;
        break;
    }
    dirty_stack(env);
    int rc = spot_init(sp, c.q, c.low, c.disc, c.level, c.cap);
    if (rc)
        mc::fail("initialisation failed in the environment: %s", EN[env]);
    auto rec = [&](int rc) {
        R.r.push_back(rc);
        R.s.emplace_back();
        snap(sp, R.s.back());
        mc::trans();
    };
    rec(rc);
    if (mask & 1)
        query(sp, nullptr);
    dirty_stack(env);
    rec(fit(train));
    for (int i = 0; i < len; i++) {
        if (mask >> (i + 1) & 1)
            query(sp, nullptr);
        dirty_stack(env);
        if (ops[i] == S_COUNT) {
            if (alive)
                spot_step(&other, 4.5);
            rec(fit(second));
        } else {
            double x = resolve(sp, c.low, ops[i]);
            if (alive)
                spot_step(&other, x);
            rec(spot_step(sp, x));
        }
    }
    dirty_stack(env);
    std::vector<double> q;
    query(sp, &q);
    R.r.insert(R.r.end(), q.begin(), q.end());
    rec(0);
    mc::state(hash(sp));
    spot_free(sp);
    if (alive)
        spot_free(&other);
    free(blk);
    mc::trace();
}
static void compare(const Rec &a, const Rec &b, const std::string &what) {
    for (size_t i = 0; i < a.s.size(); i++) {
        std::string d = diff(a.s[i], b.s[i]);
        MC_CHECK(d.empty(), "%s: after operation %zu, %s", what.c_str(), i, d.c_str());
    }
    for (size_t i = 0; i < a.r.size(); i++)
        MC_CHECK(same_bits(a.r[i], b.r[i]), "%s: result %zu is %.17g instead of %.17g", what.c_str(), i,
                 b.r[i], a.r[i]);
}

static std::vector<std::vector<double>> sets() {
    auto T = trainings();
    std::vector<std::vector<double>> S(T.begin(), T.end());
    S.push_back({});                        // unusable: nothing
    S.push_back({1, 2, 3});                 // too short
    S.push_back({4, 4, 4, 4, 4, 4});        // no excess
    S.push_back({1, QNAN, 3, 2, 5, 4, 9});  // NaN inside
    S.push_back({QNAN, QNAN, QNAN, QNAN, QNAN});
    S.push_back({1, INF, 3, 2, 5, 4, 9, -INF});
    S.push_back({1e308, -1e308, 1e308, 5, 4, 9, -3});
    return S;
}
static std::string describe(const Cfg &c, const std::vector<double> &tr, const int *ops, int len) {
    std::string s = showcfg(c) + " fit(" + std::to_string(tr.size()) + " values)";
    for (int i = 0; i < len; i++)
        s += ops[i] == S_COUNT ? " FIT2" : std::string(" ") + symname(ops[i]);
    return s;
}

static void setup() {
    set_allocators(al, fr);
    static const std::vector<int> AL = {S_NORM, S_T, S_SMALL, S_MID, S_Z, S_ZA, S_FAR, S_NAN, S_PINF, S_COUNT};
    static auto S = sets();
    int D = mc::thorough ? 5 : 4;
    const size_t A = AL.size();
    static std::vector<Cfg> cfgs;
    for (unsigned long cap : {1ul, 3ul, 5ul})
        for (int low = 0; low < 2; low++)
            for (int disc = 0; disc < 2; disc++)
                for (size_t t = 0; t < S.size(); t++)
                    cfgs.push_back({low, disc, 0.75, 0.01, cap, (int)t});
    uint64_t block = mc::ipow(A, D - 2);
    mc::add(mc::fmt("all histories of %d operations over %zu (second fit included) x %zu configurations "
                    "x %d environments",
                    D - 1, A, cfgs.size(), (int)NENV),
            cfgs.size() * A, [=](uint64_t i) {
                mc::Digits g(i);
                int ops[16];
                ops[0] = AL[g.take(A)];
                const Cfg &c = cfgs[g.v];
                const auto &tr = S[c.train], &se = S[(c.train * 5 + 3) % S.size()];
                Rec base, r;
                for (uint64_t k = 0; k < block; k++) {
                    mc::Digits h(k);
                    for (int j = 1; j < D - 1; j++)
                        ops[j] = AL[h.take(A)];
                    play(E_BASE, c, tr, se, ops, D - 1, 0, base);
                    for (int e = 1; e < NENV; e++) {
                        if (mc::logging) {
                            mc::logtext.clear();
                            mc::log("%s in: %s", describe(c, tr, ops, D - 1).c_str(), EN[e]);
                        }
                        play(e, c, tr, se, ops, D - 1, 0, r);
                        compare(base, r, EN[e]);
                    }
                }
            });
    mc::add(mc::fmt("all histories of %d operations x %zu configurations x queries inserted at every "
                    "subset of the %d positions",
                    D - 1, cfgs.size(), D),
            cfgs.size() * A, [=](uint64_t i) {
                mc::Digits g(i);
                int ops[16];
                ops[0] = AL[g.take(A)];
                const Cfg &c = cfgs[g.v];
                const auto &tr = S[c.train], &se = S[(c.train * 5 + 3) % S.size()];
                Rec base, r;
                for (uint64_t k = 0; k < block; k++) {
                    mc::Digits h(k);
                    for (int j = 1; j < D - 1; j++)
                        ops[j] = AL[h.take(A)];
                    play(E_BASE, c, tr, se, ops, D - 1, 0, base);
                    for (unsigned m = 1; m < (1u << D); m++) {
                        if (mc::logging) {
                            mc::logtext.clear();
                            mc::log("%s with queries at positions 0x%x", describe(c, tr, ops, D - 1).c_str(), m);
                        }
                        play(E_BASE, c, tr, se, ops, D - 1, m, r);
                        compare(base, r, mc::fmt("with queries inserted (positions 0x%x)", m));
                    }
                }
            });
    // small histories after the use of a detector with many stored excesses
    static const unsigned long BC[] = {300, 450, 600, 1200, 5000, 70000};
    mc::add("2 configurations x 14 training sets x tails: a history before and after a detector with 300..70000 excesses",
            6 * 4 * S.size(), [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2);
                unsigned long cap = g.take(2) ? 40 : 3;
                const auto &tr = S[g.take(S.size())];
                unsigned long big = BC[g.v];
                static const int ops[] = {S_MID, S_SMALL, S_ZA, S_COUNT, S_T, S_MID, S_FAR};
                Cfg c{low, 0, 0.5, 1e-3, cap, 0};
                Rec a, b;
                play(E_BASE, c, tr, S[2], ops, 7, 0, a);
                struct Spot o;
                if (spot_init(&o, 1e-3, low, 1, 0.4, big))
                    mc::fail("initialisation failed");
                Lcg r(9);
                std::vector<double> v(2 * big);
                for (auto &x : v)
                    x = r.gauss();
                int rc = spot_fit(&o, v.data(), v.size());
                for (int k = 0; rc == 0 && k < 10; k++)
                    spot_step(&o, o.excess_threshold + (low ? -0.1 : 0.1) * k);
                mc::log("detector with capacity %lu fitted on %zu values (%d), then %s", big, v.size(), rc, showcfg(c).c_str());
                play(E_BASE, c, tr, S[2], ops, 7, 0, b);
                compare(a, b, "after the use of a detector with a large window");
                spot_free(&o);
                play(E_BASE, c, tr, S[2], ops, 7, 0, b);
                compare(a, b, "after the release of a detector with a large window");
            });
    // long histories
    mc::add(mc::fmt("long structured histories: %zu capacities x %d patterns x tails x environments",
                    longcaps().size(), (int)NPAT),
            longcaps().size() * NPAT * 2, [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), pt = g.take(NPAT);
                unsigned long cap = longcaps()[g.v];
                std::vector<Snap> ref;
                std::vector<double> rr;
                for (int env = 0; env < 6; env++) {
                    pat = env;
                    Lcg r(5 + cap);
                    std::vector<double> train;
                    double s = low ? -1 : 1;
                    for (int k = 0; k < 60; k++)
                        train.push_back(s * r.gauss());
                    struct Spot sp;
                    fill(&sp, sizeof sp, env);
                    dirty_stack(env);
                    if (spot_init(&sp, 1e-3, low, env & 0, 0.9, cap))
                        mc::fail("initialisation failed");
                    int rc = spot_fit(&sp, train.data(), train.size());
                    size_t at = 0;
                    auto chk = [&](double v) {
                        Snap o;
                        if (env == 0) {
                            rr.push_back(v);
                            ref.emplace_back();
                            snap(&sp, ref.back());
                        } else {
                            snap(&sp, o);
                            MC_CHECK(same_bits(v, rr[at]), "%s: result %zu is %.17g instead of %.17g", EN[env], at,
                                     v, rr[at]);
                            std::string d = diff(ref[at], o);
                            MC_CHECK(d.empty(), "%s: operation %zu, %s", EN[env], at, d.c_str());
                        }
                        at++;
                    };
                    chk(rc);
                    for (unsigned long k = 0; k < cap + 30; k++) {
                        dirty_stack(env);
                        double v = spot_step(&sp, sp.excess_threshold + s * pattern(pt, k, r));
                        mc::trans();
                        if (k % 7 == 0 || k + 20 > cap + 30)
                            chk(v);
                        if (env & 1)
                            query(&sp, nullptr);
                    }
                    mc::log("cap %lu pattern %d low %d, %s: %zu observations compared", cap, pt, low, EN[env], at);
                    spot_free(&sp);
                    mc::state(mc::mix(i + 1, env));
                    mc::trace();
                }
            });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
