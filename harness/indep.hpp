// Scripts of operations on one detector, used by the independence checks.
#pragma once
#include "stream.hpp"
#include <link.h>

// writable memory of the library under test
struct Seg {
    char *p;
    size_t n;
};
inline std::vector<Seg> &segments() {
    static std::vector<Seg> S;
    static bool done = false;
    if (!done) {
        done = true;
        dl_iterate_phdr(
            [](struct dl_phdr_info *i, size_t, void *) -> int {
                if (!strstr(i->dlpi_name, "libspotuut"))
                    return 0;
                for (int k = 0; k < i->dlpi_phnum; k++) {
                    const ElfW(Phdr) &h = i->dlpi_phdr[k];
                    if (h.p_type == PT_LOAD && (h.p_flags & PF_W))
                        S.push_back({(char *)i->dlpi_addr + h.p_vaddr, h.p_memsz});
                }
                return 0;
            },
            nullptr);
    }
    return S;
}
inline std::string content() {
    std::string s;
    for (auto &g : segments())
        s.append(g.p, g.n);
    return s;
}

struct Script {
    struct Spot sp;
    std::vector<double> out;
    std::vector<Snap> snaps;
    const int *ops;
    int len, kind;
    bool live = false;
};
enum { O_INIT, O_FIT, O_FIT2, O_MID, O_ZA, O_T, O_NAN, O_NORM, O_QUERY, O_FREE, O_SMALL, O_BADINIT, O_BADFIT, O_TEXT, O_DUP };
inline const char *opname(int o) {
    static const char *n[] = {"init", "fit", "fit(other set)", "step(MID)", "step(Z+)", "step(T)", "step(NaN)",
                              "step(NORM)", "queries", "free", "step(SMALL)", "init(bad q)", "fit(3 values)",
                              "error text", "step(DUP)"};
    return n[o];
}
// configuration of the detector of a script
struct Kind {
    double q;
    int low, disc;
    double level;
    unsigned long cap;
    int train, train2;
};
static const Kind KINDS[] = {{0.01, 0, 1, 0.75, 3, 1, 3}, {0.001, 1, 1, 0.5, 2, 3, 1}, {1e-4, 0, 0, 0.9, 4, 2, 5},
                             {0.05, 1, 0, 0.75, 1, 0, 2}, {0.02, 0, 1, 0.5, 1, 6, 4}, {0.01, 1, 1, 0.9, 5, 5, 6},
                             {0.01, 0, 0, 0.75, 1, 0, 1}};

inline void exec_op(Script &S, int op) {
    const Kind &k = KINDS[S.kind];
    double r = 0;
    switch (op) {
    case O_INIT:
        r = spot_init(&S.sp, k.q, k.low, k.disc, k.level, k.cap);
        S.live = r == 0;
        break;
    case O_BADINIT:
        r = spot_init(&S.sp, 1.5, k.low, k.disc, k.level, k.cap);
        break;
    case O_FIT:
        r = spot_fit(&S.sp, trainings()[k.train].data(), trainings()[k.train].size());
        break;
    case O_FIT2:
        r = spot_fit(&S.sp, trainings()[k.train2].data(), trainings()[k.train2].size());
        break;
    case O_BADFIT:
        r = spot_fit(&S.sp, trainings()[0].data(), 3);
        break;
    case O_TEXT: {
        char b[256];
        libspot_error((enum LibspotError)(1000 + S.kind % 6), b, sizeof b);
        for (int i = 0; i < 100; i += 3)
            r = r * 31 + b[i];
        libspot_version(b, 20);
        r = fmod(r, 1e9) + b[0];
        break;
    }
    case O_QUERY: {
        double t = S.sp.excess_threshold, z = S.sp.anomaly_threshold;
        for (double q : {1e-6, 1e-3, 0.1})
            S.out.push_back(spot_quantile(&S.sp, q));
        for (double x : {t, z, 2 * z - t})
            r += spot_probability(&S.sp, x);
        break;
    }
    case O_FREE:
        spot_free(&S.sp);
        S.live = false;
        break;
    default: {
        static const int M[] = {0, 0, 0, S_MID, S_ZA, S_T, S_NAN, S_NORM, 0, 0, S_SMALL, 0, 0, 0, S_DUP};
        r = spot_step(&S.sp, resolve(&S.sp, k.low, M[op]));
    }
    }
    S.out.push_back(r);
}
inline void keep(Script &S) {
    S.snaps.emplace_back();
    if (S.live)
        snap(&S.sp, S.snaps.back());
    else { // after free: the scalar fields only
        Snap &o = S.snaps.back();
        memset((void *)&o, 0, offsetof(Snap, data));
        o.n = S.sp.n;
        o.Nt = S.sp.Nt;
        o.z = S.sp.anomaly_threshold;
        o.t = S.sp.excess_threshold;
        o.low = S.sp.low;
    }
}
inline void start(Script &S, int kind, const int *ops, int len) {
    memset(&S.sp, 0, sizeof S.sp);
    S.out.clear();
    S.snaps.clear();
    S.ops = ops;
    S.len = len;
    S.kind = kind;
    S.live = false;
}
inline void finish(Script &S) {
    if (S.live)
        spot_free(&S.sp);
    S.live = false;
}
inline void same_as_solo(const Script &solo, const Script &s, const char *who) {
    MC_CHECK(solo.out.size() == s.out.size(), "%s: number of results", who);
    for (size_t i = 0; i < s.snaps.size(); i++) {
        std::string d = diff(solo.snaps[i], s.snaps[i]);
        MC_CHECK(d.empty(), "%s, operation %zu (%s): %s (alone vs interleaved)", who, i,
                 s.snaps.size() == (size_t)s.len ? opname(s.ops[i]) : "end", d.c_str());
    }
    for (size_t i = 0; i < s.out.size(); i++)
        MC_CHECK(same_bits(solo.out[i], s.out[i]), "%s: result %zu is %.17g alone and %.17g interleaved", who, i,
                 solo.out[i], s.out[i]);
}
