// C03: the tail keeps exactly the most recent max_excess excesses.
#include "stream.hpp"

static void compare(const struct Ubend *u, const std::deque<double> &want, unsigned long cap,
                    double scale) {
    MC_CHECK(u->capacity == cap, "capacity changed: %lu instead of %lu", u->capacity, cap);
    unsigned long n = ubend_size(u);
    MC_CHECK(n == want.size(), "%lu excesses stored, expected %zu (capacity %lu)", n, want.size(),
             cap);
    std::vector<double> a(u->data, u->data + n), b(want.begin(), want.end());
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    for (unsigned long i = 0; i < n; i++)
        MC_CHECK(same(a[i], b[i]) || std::fabs(a[i] - b[i]) <= 4 * EPS * scale,
                 "stored excesses differ from the last %zu excesses: %.17g stored, %.17g expected "
                 "(rank %lu of %lu)",
                 want.size(), a[i], b[i], i, n);
}

struct V : Visitor {
    std::deque<double> win;
    double t, scale;
    unsigned long k = 0;
    void push(const Cfg &c, double e) {
        win.push_back(e);
        if (win.size() > c.cap)
            win.pop_front();
    }
    void fitted(const Cfg &c, struct Spot *sp, const std::vector<double> &tr, int rc) override {
        win.clear();
        k = 0;
        if (rc)
            return;
        t = sp->excess_threshold;
        scale = std::fabs(t);
        for (double x : tr) {
            if (c.low ? x < t : x > t)
                push(c, c.low ? t - x : x - t);
            scale = std::max(scale, std::fabs(x));
        }
        compare(&sp->tail.peaks.container, win, c.cap, scale);
    }
    void after(const Cfg &c, struct Spot *sp, double x, int rc) override {
        if (rc == EXCESS) {
            push(c, c.low ? t - x : x - t);
            if (std::fabs(x) < INF)
                scale = std::max(scale, std::fabs(x));
        }
        k++;
        if (c.cap < 130 || rc != EXCESS || k % 37 == 0 || k % c.cap < 3 || k % c.cap + 3 > c.cap)
            compare(&sp->tail.peaks.container, win, c.cap, scale);
    }
};

static void setup() {
    mc::case_seconds = 600;
    set_allocators(malloc, free);
    add_streams([] { return new V; }, 4, 5, 6, 7);
    add_long([] { return new V; });
    add_refits([] { return new V; }, 4, 5);
    add_units([] { return new V; }, 2, 3);
    add_verylong([] { return new V; }, 400000, 8000000);
    // large training sets: far more excesses than the capacity, then a few more
    static const unsigned long SZ[] = {50,   100,  255,  256,   257,   1000,  1023, 1024,
                                       2000, 4095, 4096, 4097, 5000, 10000, 32769, 65537, 200000};
    mc::add("training sets of 17 sizes up to 200000 x 3 levels x 5 capacities x tails x 2 orders", 17 * 3 * 5 * 4,
            [=](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2), ord = g.take(2);
                static const double LV[] = {0.5, 0.9, 0.98};
                static const unsigned long CP[] = {1, 10, 64, 200, 3000};
                Cfg c{low, 1, LV[g.take(3)], 1e-4, 0, -1};
                c.cap = CP[g.take(5)];
                unsigned long m = SZ[g.v];
                std::vector<double> tr;
                Lcg r(m + 5);
                for (unsigned long k = 0; k < m; k++)
                    tr.push_back(r.gauss() + (ord ? 1e-5 * k : 0));
                Det d;
                mc::log("%s; %lu gaussian values%s, seed %lu", showcfg(c).c_str(), m, ord ? " with a trend" : "", m + 5);
                if (d.init(c.q, low, 1, c.level, c.cap))
                    mc::fail("initialisation failed");
                int rc = spot_fit(&d.sp, tr.data(), m);
                mc::trans();
                mc::log("fit -> %d %s", rc, show(&d.sp).c_str());
                V v;
                v.fitted(c, &d.sp, tr, rc);
                mc::state(hash(&d.sp));
                if (rc)
                    return;
                for (int k = 0; k < 6; k++) {
                    double x = resolve(&d.sp, low, k % 3 ? S_SMALL : S_MID);
                    rc = spot_step(&d.sp, x);
                    mc::trans();
                    mc::log("step(%.17g) -> %d", x, rc);
                    v.after(c, &d.sp, x, rc);
                    compare(&d.sp.tail.peaks.container, v.win, c.cap, v.scale);
                }
                mc::trace();
            },
            4);
    // container level: every sequence of values over an alphabet, every capacity
    static const double A[] = {1.0, 2.0, 0.0, 3.5, -1.0, INF};
    int depth = mc::thorough ? 9 : 7;
    uint64_t cont = mc::ipow(6, depth - 1);
    mc::add(mc::fmt("container: all sequences of %d pushes over 6 values x capacities 1..6", depth),
            6 * 6, [=](uint64_t i) {
                mc::Digits g(i);
                unsigned long cap = 1 + g.take(6);
                int first = g.v;
                for (uint64_t k = 0; k < cont; k++) {
                    if (mc::logging)
                        mc::logtext.clear();
                    struct Ubend u;
                    if (ubend_init(&u, cap))
                        mc::fail("ubend_init failed");
                    std::deque<double> win;
                    mc::Digits h(k);
                    for (int j = 0; j < depth; j++) {
                        double x = j == 0 ? A[first] : A[h.take(6)];
                        double want = QNAN;
                        win.push_back(x);
                        if (win.size() > cap) {
                            want = win.front();
                            win.pop_front();
                        }
                        double r = ubend_push(&u, x);
                        mc::trans();
                        mc::log("capacity %lu push(%g) -> %g size %lu", cap, x, r, ubend_size(&u));
                        MC_CHECK(same(r, want), "push(%g): erased value %g, expected %g", x, r,
                                 want);
                        compare(&u, win, cap, 0);
                        uint64_t hh = cap;
                        for (double d : win)
                            hh = mc::mixd(hh, d);
                        mc::state(hh);
                    }
                    ubend_free(&u);
                    mc::trace();
                }
            },
            1);
    unsigned long maxcap = mc::thorough ? 1100 : 300;
    mc::add(mc::fmt("container: distinct values, then zeros and ties, every capacity 1..%lu, 4 wrap-arounds", maxcap),
            maxcap, [=](uint64_t i) {
                unsigned long cap = i + 1;
                struct Ubend u;
                if (ubend_init(&u, cap))
                    mc::fail("ubend_init failed");
                std::deque<double> win;
                for (unsigned long k = 0; k < 4 * cap + 3; k++) {
                    // distinct values, later on with many zeros and ties among them
                    double x = k < 2 * cap || k % 3 == 0 ? ((k * 2654435761u) % 1000003) + 0.5 : k % 3 - 1.0, want = QNAN;
                    win.push_back(x);
                    if (win.size() > cap) {
                        want = win.front();
                        win.pop_front();
                    }
                    double r = ubend_push(&u, x);
                    mc::trans();
                    MC_CHECK(same(r, want), "capacity %lu, push number %lu: erased %g, expected %g",
                             cap, k, r, want);
                    if (cap < 64 || k % 29 == 0 || k % cap < 2 || k % cap == cap - 1)
                        compare(&u, win, cap, 0);
                    mc::state(mc::mix(cap, k));
                }
                ubend_free(&u);
                mc::log("capacity %lu: %lu pushes", cap, 4 * cap + 3);
                mc::trace();
            });
    static const unsigned long big[] = {1000,  4095,  4096,   4097,   32768,   32769,
                                        65535, 65536, 65537, 131073, 1000003, 16777217};
    mc::add("container: 12 large capacities up to 2^24+1, filled and wrapped", mc::thorough ? 12 : 11,
            [=](uint64_t i) {
                unsigned long cap = big[i];
                struct Ubend u;
                if (ubend_init(&u, cap))
                    mc::fail("ubend_init failed");
                std::deque<double> win;
                unsigned long N = cap + (cap < 2000000 ? cap + cap / 3 : 5);
                for (unsigned long k = 0; k < N; k++) {
                    double x = k > cap && k % 4 == 2 ? 0.0 : k > cap && k % 4 == 3 ? 1.0 : k * 0.5, want = QNAN;
                    win.push_back(x);
                    if (win.size() > cap) {
                        want = win.front();
                        win.pop_front();
                    }
                    double r = ubend_push(&u, x);
                    MC_CHECK(same(r, want), "capacity %lu, push number %lu: erased %g, expected %g",
                             cap, k, r, want);
                    MC_CHECK(ubend_size(&u) == win.size(), "capacity %lu, %lu pushes: size %lu", cap,
                             k + 1, ubend_size(&u));
                    if (k == cap / 2 || k + 1 == cap || k == cap || k + 1 == N)
                        compare(&u, win, cap, 0);
                }
                mc::trans(N);
                ubend_free(&u);
                mc::log("capacity %lu: %lu pushes", cap, N);
                mc::state(cap);
                mc::trace();
            },
            1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
