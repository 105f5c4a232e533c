// C15, second part: thread schedules. Two threads (coroutines on one core,
// under a controlled scheduler) each run operations on their own detector. The
// library is compiled with a callback on every basic block and on every memory
// access, so a context switch can be placed at each of these points of the real
// code. Every schedule up to the preemption bound is executed and each
// detector's results are compared with its solo run.
#include "indep.hpp"
#include <ucontext.h>

enum { EDGE, SHARED };
static int mode = EDGE;
static bool active = false;
static int cur;
static uint32_t cnt[2];
struct Pre {
    int thread;
    uint32_t at;
};
static Pre plan[4];
static int nplan, iplan;
static ucontext_t ctx[2], mainctx;
static bool finished[2];
static char *stk[2];
enum { STK = 256 * 1024 };
static Script th[2];

static inline void point() {
    uint32_t c = ++cnt[cur];
    if (iplan < nplan && plan[iplan].thread == cur && plan[iplan].at == c) {
        iplan++;
        int me = cur, o = 1 - cur;
        if (!finished[o]) {
            cur = o;
            swapcontext(&ctx[me], &ctx[o]);
        }
    }
}
static char *seg_lo, *seg_hi;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    static uint32_t n;
    if (a == b || *a)
        return;
    for (; a < b; a++)
        *a = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (active && mode == EDGE)
        point();
}
#define ACC(n, T)                                                                                  \
    void __sanitizer_cov_##n(T *a) {                                                               \
        if (active && mode == SHARED && (char *)a >= seg_lo && (char *)a < seg_hi)                 \
            point();                                                                               \
    }
ACC(load1, uint8_t) ACC(load2, uint16_t) ACC(load4, uint32_t) ACC(load8, uint64_t) ACC(load16, __uint128_t)
ACC(store1, uint8_t) ACC(store2, uint16_t) ACC(store4, uint32_t) ACC(store8, uint64_t) ACC(store16, __uint128_t)
}
static void body(int t) {
    Script &S = th[t];
    for (int k = 0; k < S.len; k++)
        exec_op(S, S.ops[k]);
    active = false;
    keep(S);
    active = true;
    finished[t] = true;
    int o = 1 - t;
    if (!finished[o]) {
        cur = o;
        swapcontext(&ctx[t], &ctx[o]);
    }
    active = false;
    setcontext(&mainctx);
}
struct Job {
    int kind;
    std::vector<int> prep, ops; // prep: executed before the threads start
};
static void prepare(int t, const Job &j) {
    start(th[t], j.kind, j.ops.data(), j.ops.size());
    for (int o : j.prep)
        exec_op(th[t], o);
    th[t].out.clear();
}
static void run(const Job &a, const Job &b, int first, const Pre *p, int np) {
    prepare(0, a);
    prepare(1, b);
    for (int t = 0; t < 2; t++) {
        if (!stk[t])
            stk[t] = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&ctx[t]);
        ctx[t].uc_stack.ss_sp = stk[t];
        ctx[t].uc_stack.ss_size = STK;
        ctx[t].uc_link = &mainctx;
        makecontext(&ctx[t], (void (*)())body, 1, t);
        finished[t] = false;
        cnt[t] = 0;
    }
    nplan = np;
    iplan = 0;
    for (int i = 0; i < np; i++)
        plan[i] = p[i];
    cur = first;
    volatile int back = 0;
    getcontext(&mainctx);
    if (!back) {
        back = 1;
        active = true;
        setcontext(&ctx[first]);
    }
    active = false;
}
static Script solo[2];
static uint32_t points[2];
static void solo_runs(const Job &a, const Job &b) {
    for (int t = 0; t < 2; t++) {
        const Job &j = t ? b : a;
        start(solo[t], j.kind, j.ops.data(), j.ops.size());
        for (int o : j.prep)
            exec_op(solo[t], o);
        solo[t].out.clear();
        for (int o : j.ops)
            exec_op(solo[t], o);
        keep(solo[t]);
        finish(solo[t]);
    }
    Pre none[1];
    run(a, b, 0, none, 0);
    points[0] = cnt[0];
    points[1] = cnt[1];
    for (int t = 0; t < 2; t++)
        finish(th[t]);
}
static void schedule(const Job &a, const Job &b, int first, const Pre *p, int np) {
    run(a, b, first, p, np);
    mc::trans(cnt[0] + cnt[1]);
    if (mc::logging) {
        mc::logtext.clear();
        std::string s = mc::fmt("thread %d starts", first);
        for (int i = 0; i < np; i++)
            s += mc::fmt("; preempt thread %d at its point %u of %u", p[i].thread, p[i].at, points[p[i].thread]);
        mc::log("%s (%s points)", s.c_str(), mode == EDGE ? "basic block" : "static memory access");
        for (int t = 0; t < 2; t++) {
            std::string o;
            for (int k = 0; k < th[t].len; k++)
                o += std::string(" ") + opname(th[t].ops[k]);
            mc::log("thread %d:%s", t, o.c_str());
        }
    }
    uint64_t h = mc::mix(mc::mix(3, first), mode);
    for (int i = 0; i < np; i++)
        h = mc::mix(mc::mix(h, p[i].thread), p[i].at);
    for (int t = 0; t < 2; t++) {
        same_as_solo(solo[t], th[t], mc::fmt("thread %d", t).c_str());
        h = mc::mix(h, hash(th[t].snaps[0]));
        finish(th[t]);
    }
    mc::state(h);
    mc::trace();
}

// one operation from a calibrated detector, or a whole life
static std::vector<Job> jobs() {
    std::vector<Job> J;
    for (int k = 0; k < 6; k++)
        for (int o : {O_MID, O_ZA, O_FIT2, O_QUERY})
            J.push_back({k, {O_INIT, O_FIT, O_SMALL}, {o}});
    for (int k = 0; k < 6; k++)
        J.push_back({k, {}, {O_INIT, O_FIT, O_MID, O_ZA, O_QUERY, O_TEXT, O_FREE}});
    return J;
}
static void setup() {
    set_allocators(malloc, free);
    mc::case_seconds = 600;
    mc::aux_names = {"basic-block switch points of the jobs", "static memory accesses of the jobs",
                     "pairs of basic-block switch points"};
    if (segments().empty()) {
        fprintf(stderr, "library segments not found\n");
        exit(3);
    }
    seg_lo = segments()[0].p;
    seg_hi = seg_lo + segments()[0].n;
    for (auto &g : segments()) {
        seg_lo = std::min(seg_lo, g.p);
        seg_hi = std::max(seg_hi, g.p + g.n);
    }
    trainings();
    static auto J = jobs();
    const size_t N = J.size();
    auto other = [](size_t i, size_t k) { return (i * 7 + 3 + k * 11) % J.size(); };
    int K = mc::thorough ? (int)N : 4;
    mc::add(mc::fmt("1 preemption at every basic block: %zu jobs x %d partners x both starts", N, K), N * K,
            [=](uint64_t i) {
                size_t a = i % N, b = mc::thorough ? i / N : other(a, i / N);
                mode = EDGE;
                solo_runs(J[a], J[b]);
                if (i < N)
                    mc::aux(0, points[0]);
                for (int first = 0; first < 2; first++)
                    for (uint32_t p = 1; p <= points[first]; p++) {
                        Pre q{first, p};
                        schedule(J[a], J[b], first, &q, 1);
                    }
            }, 1);
    // same detector kind on both sides: identical data, worst case for hidden sharing
    static const std::vector<std::pair<Job, Job>> P2a = {
        {{6, {O_INIT, O_FIT}, {O_SMALL}}, {3, {O_INIT, O_FIT}, {O_SMALL}}},
        {{3, {O_INIT, O_FIT}, {O_QUERY}}, {0, {O_INIT, O_FIT}, {O_QUERY}}},
        {{6, {O_INIT}, {O_FIT}}, {3, {O_INIT}, {O_FIT}}},
        {{0, {}, {O_INIT, O_FREE}}, {1, {}, {O_INIT, O_FREE}}},
        {{6, {O_INIT, O_FIT}, {O_MID}}, {4, {O_INIT, O_FIT}, {O_QUERY}}}};
    // and the single-operation jobs
    static std::vector<std::pair<Job, Job>> P2;
    P2 = P2a;
    for (size_t a = 0; a < 24; a++)
        for (size_t b = 0; b < 24; b++)
            if (mc::thorough || b == (a * 5 + 1) % 24 || b == (a * 7 + 10) % 24)
                P2.push_back({J[a], J[b]});
    uint32_t split = 16;
    mc::add(mc::fmt("2 preemptions at every pair of basic blocks: %zu pairs of single operations x both starts", P2.size()),
            P2.size() * 2 * split, [=](uint64_t i) {
                mc::Digits g(i);
                uint32_t part = g.take(split);
                int first = g.take(2);
                const auto &pr = P2[g.v];
                mode = EDGE;
                solo_runs(pr.first, pr.second);
                uint32_t n0 = points[first], n1 = points[1 - first];
                if (!part) mc::aux(2, (uint64_t)n0 * n1);
                for (uint32_t p = 1 + part; p <= n0; p += split)
                    for (uint32_t q = 1; q <= n1; q++) {
                        Pre pl[2] = {{first, p}, {1 - first, q}};
                        schedule(pr.first, pr.second, first, pl, 2);
                    }
            });
    int PBK = mc::thorough ? (int)N : 6;
    mc::add(mc::fmt("1 and 2 preemptions at every access to the static memory of the library: %zu jobs x %d partners x "
                    "both starts",
                    N, PBK),
            N * PBK, [=](uint64_t i) {
                size_t a = i % N, b = mc::thorough ? i / N : other(a, i / N);
                mode = SHARED;
                solo_runs(J[a], J[b]);
                if (i < N)
                    mc::aux(1, points[0]);
                // a second preemption is combined with the first one when the
                // product stays below the bound
                for (int first = 0; first < 2; first++) {
                    uint32_t n0 = points[first], n1 = points[1 - first];
                    for (uint32_t p = 1; p <= n0; p++) {
                        Pre q{first, p};
                        schedule(J[a], J[b], first, &q, 1);
                    }
                    if ((uint64_t)n0 * n1 <= (mc::thorough ? 40000u : 2500u))
                        for (uint32_t p = 1; p <= n0; p++)
                            for (uint32_t r = 1; r <= n1; r++) {
                                Pre pl[2] = {{first, p}, {1 - first, r}};
                                schedule(J[a], J[b], first, pl, 2);
                            }
                }
            }, 1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
