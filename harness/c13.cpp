// C13: all memory comes from the user's allocators and is returned exactly once.
// Every lifecycle of up to three detectors is executed on the real code against
// a recording allocator; an abstract owner model says what must be called.
#include "spotx.hpp"
#include <sys/mman.h>

// ---- anything the library could use behind the user's back -----------------
static int in_lib = 0;
static const char *forbidden = nullptr;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
#define NOTE(n)                                                                                    \
    if (in_lib)                                                                                    \
    forbidden = n
void *__wrap_malloc(size_t s) {
    NOTE("malloc");
    return __real_malloc(s);
}
void *__wrap_calloc(size_t a, size_t b) {
    NOTE("calloc");
    return __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t s) {
    NOTE("realloc");
    return __real_realloc(p, s);
}
void __wrap_free(void *p) {
    NOTE("free");
    __real_free(p);
}
void *__wrap_aligned_alloc(size_t a, size_t s) {
    NOTE("aligned_alloc");
    return __real_aligned_alloc(a, s);
}
int __wrap_posix_memalign(void **p, size_t a, size_t s) {
    NOTE("posix_memalign");
    return __real_posix_memalign(p, a, s);
}
}

// ---- recording allocator ---------------------------------------------------
enum { ARENA = 1 << 20, GUARD = 64, MAXB = 64 };
static unsigned char arena[ARENA];
struct Block {
    unsigned char *p;
    size_t size;
    int by;      // allocator
    bool live;
};
static Block blocks[MAXB];
static int nblocks;
static size_t top;
static int failing; // the next requests fail
static int ncalls[2], nfrees[2];
static size_t lastsize;
static const char *oops;
static bool inside_init;

static void *alloc_by(int who, size_t s) {
    ncalls[who]++;
    lastsize = s;
    if (!inside_init)
        oops = "memory is requested outside of the initialisation";
    if (failing || s > ARENA / 4 || nblocks == MAXB)
        return nullptr;
    size_t need = (s + 15) / 16 * 16 + 2 * GUARD;
    if (top + need > ARENA) {
        fprintf(stderr, "arena exhausted\n");
        _exit(77);
    }
    unsigned char *base = arena + top;
    memset(base, 0xC5, need);
    top += need;
    Block b{base + GUARD, s, who, true};
    blocks[nblocks++] = b;
    return b.p;
}
static void free_by(int who, void *p) {
    nfrees[who]++;
    for (int i = 0; i < nblocks; i++)
        if (blocks[i].p == p) {
            if (!blocks[i].live)
                oops = "a block is freed twice";
            blocks[i].live = false;
            memset(p, 0xDD, blocks[i].size);
            return;
        }
    oops = p ? "an address that was never allocated is freed" : "free(NULL) is called";
}
// an allocator that never refuses
static size_t huge_size, huge_map_size;
static void *huge_p, *huge_map;
static int huge_calls, huge_frees;
static bool huge_bad, huge_mapped;
alignas(64) static unsigned char huge_token[4096];
static void *hugeA(size_t s) {
    huge_calls++;
    huge_size = s;
    huge_mapped = false;
    if (s && s < (1ull << 36)) {
        // the block ends where the mapping ends
        size_t page = 4096, len = (s + page - 1) / page * page;
        unsigned char *m = (unsigned char *)mmap(nullptr, len + page, PROT_READ | PROT_WRITE,
                                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m != MAP_FAILED) {
            mprotect(m + len, page, PROT_NONE);
            huge_map = m;
            huge_map_size = len + page;
            huge_mapped = true;
            return huge_p = m + (len - s) / 8 * 8;
        }
    }
    return huge_p = huge_token;
}
static void hugeF(void *p) {
    huge_frees++;
    if (p != huge_p)
        huge_bad = true;
}
static void *allocA(size_t s) { return alloc_by(0, s); }
static void *allocB(size_t s) { return alloc_by(1, s); }
static void freeA(void *p) { free_by(0, p); }
static void freeB(void *p) { free_by(1, p); }

static void guards() {
    for (int i = 0; i < nblocks; i++) {
        Block &b = blocks[i];
        for (int k = 0; k < GUARD; k++)
            if (b.p[-1 - k] != 0xC5 || b.p[b.size + k] != 0xC5)
                mc::fail("bytes around a block of %zu bytes were overwritten", b.size);
        if (!b.live)
            for (size_t k = 0; k < b.size; k += 8)
                if (b.p[k] != 0xDD)
                    mc::fail("a freed block was written");
    }
}

// ---- lifecycles ------------------------------------------------------------
enum Op { INIT, INITFAIL, INITBAD, USE, FREE, NPER };
enum { SETA = 0, SETB, SETNULL, SETNOFREE, NGLOB };
static const unsigned long CAPS[3] = {1, 3, 7};

struct World {
    struct Spot sp[3];
    int owned[3];  // block index or -1
    bool ready[3]; // initialised (live)
    bool touched[3];
    int cm, cf;    // allocator in force (-1: none)
};

static void begin() {
    nblocks = 0;
    top = 0;
    failing = 0;
    memset(ncalls, 0, sizeof ncalls);
    memset(nfrees, 0, sizeof nfrees);
    oops = nullptr;
    forbidden = nullptr;
    inside_init = false;
}
#define LIB(stmt)                                                                                  \
    do {                                                                                           \
        in_lib++;                                                                                  \
        stmt;                                                                                      \
        in_lib--;                                                                                  \
    } while (0)
static void settle(const char *what) {
    if (oops)
        mc::fail("%s: %s", what, oops);
    if (forbidden)
        mc::fail("%s: the library calls %s directly", what, forbidden);
    guards();
}

static void do_global(World &w, int g) {
    static const char *N[] = {"set_allocators(A, A)", "set_allocators(B, B)",
                              "set_allocators(NULL, NULL)", "set_allocators(A, NULL)"};
    mc::log("%s", N[g]);
    switch (g) {
    case SETA:
        set_allocators(allocA, freeA);
        w.cm = w.cf = 0;
        break;
    case SETB:
        set_allocators(allocB, freeB);
        w.cm = w.cf = 1;
        break;
    case SETNULL:
        set_allocators(nullptr, nullptr);
        w.cm = w.cf = -1;
        break;
    default:
        set_allocators(allocA, nullptr);
        w.cm = 0;
        w.cf = -1;
    }
}
static bool do_det(World &w, int d, int op, unsigned long cap) {
    int c0[2] = {ncalls[0], ncalls[1]}, f0[2] = {nfrees[0], nfrees[1]};
    int rc = 0;
    int wantc = -1, wantf = -1; // allocator expected to be called
    switch (op) {
    case INIT:
    case INITFAIL:
        if (w.ready[d])
            return false; // the caller would lose its own block
        failing = op == INITFAIL;
        inside_init = true;
        LIB(rc = spot_init(&w.sp[d], 0.01, d & 1, 1, 0.75, cap));
        inside_init = false;
        failing = 0;
        mc::log("spot_init(detector %d, max_excess=%lu)%s -> %d", d, cap,
                op == INITFAIL ? " [allocation fails]" : "", rc);
        w.touched[d] = true;
        wantc = w.cm;
        if (op == INITFAIL || w.cm < 0) {
            MC_CHECK(rc == -ERR_MEMORY_ALLOCATION_FAILED,
                     "initialisation returned %d although no memory was obtained", rc);
            w.owned[d] = -1;
        } else {
            MC_CHECK(rc == 0, "initialisation returned %d although memory was available", rc);
            w.ready[d] = true;
            w.owned[d] = nblocks - 1;
            MC_CHECK(lastsize >= cap * sizeof(double),
                     "%zu bytes requested for a capacity of %lu excesses", lastsize, cap);
        }
        break;
    case INITBAD:
        if (w.ready[d])
            return false;
        inside_init = true;
        LIB(rc = spot_init(&w.sp[d], 0.5, 0, 1, 0.75, cap));
        inside_init = false;
        mc::log("spot_init(detector %d, q out of bounds) -> %d", d, rc);
        MC_CHECK(rc == -ERR_Q_OUT_OF_BOUNDS, "initialisation with a wrong q returned %d", rc);
        break;
    case USE: {
        if (!w.ready[d])
            return false;
        static const double T[] = {1, 5, 2, 8, 3, 9, 4, 4, 6, 7, 2.5, 1.5};
        static double sink;
        LIB(rc = spot_fit(&w.sp[d], T, 12));
        for (int k = 0; k < 9; k++) {
            double t = w.sp[d].excess_threshold, s = (d & 1) ? -1 : 1;
            double x = t + s * (0.25 * k - 0.25);
            LIB(spot_step(&w.sp[d], x));
            LIB(sink = spot_quantile(&w.sp[d], 1e-3));
            LIB(sink = spot_probability(&w.sp[d], x));
        }
        (void)sink;
        mc::log("fit, 9 steps, queries on detector %d", d);
        break;
    }
    case FREE:
        if (!w.touched[d])
            return false;
        LIB(spot_free(&w.sp[d]));
        mc::log("spot_free(detector %d)", d);
        if (w.owned[d] >= 0 && w.cf >= 0)
            wantf = w.cf;
        break;
    }
    mc::trans();
    settle("call");
    for (int a = 0; a < 2; a++) {
        int nc = ncalls[a] - c0[a], nf = nfrees[a] - f0[a];
        MC_CHECK(nc == (wantc == a ? 1 : 0), "%d allocation request(s) to allocator %c, expected %d",
                 nc, 'A' + a, wantc == a ? 1 : 0);
        MC_CHECK(nf == (wantf == a ? 1 : 0), "%d free call(s) to allocator %c, expected %d", nf,
                 'A' + a, wantf == a ? 1 : 0);
    }
    if (op == FREE) {
        if (w.owned[d] >= 0 && w.cf >= 0)
            MC_CHECK(!blocks[w.owned[d]].live, "the block of detector %d is still allocated", d);
        w.owned[d] = -1;
        w.ready[d] = false;
    }
    // the blocks of the live detectors are untouched by the others
    for (int k = 0; k < 3; k++)
        if (w.ready[k])
            MC_CHECK(blocks[w.owned[k]].live, "the block of live detector %d was freed", k);
    uint64_t h = mc::mix(w.cm + 2, w.cf + 2);
    for (int k = 0; k < 3; k++)
        h = mc::mix(h, w.ready[k] * 8 + w.touched[k] * 4 + (w.owned[k] >= 0 ? 2 : 0) +
                           (w.ready[k] ? 16 * stored(&w.sp[k]) : 0));
    mc::state(h);
    return true;
}
static void run_seq(const int *ops, int len, int nd, bool capsel) {
    begin();
    World w;
    memset(&w, 0, sizeof w);
    memset(w.sp, 0x5A, sizeof w.sp);
    for (int k = 0; k < 3; k++)
        w.owned[k] = -1;
    do_global(w, SETA);
    if (mc::logging)
        mc::logtext.clear();
    for (int i = 0; i < len; i++) {
        int o = ops[i];
        if (o < nd * NPER) {
            if (!do_det(w, o / NPER, o % NPER, capsel ? CAPS[o / NPER] : 2))
                return; // same as a shorter sequence
        } else
            do_global(w, o - nd * NPER);
    }
    mc::trace();
    // end of life: everything goes back
    do_global(w, SETA);
    for (int d = 0; d < nd; d++)
        if (w.ready[d])
            do_det(w, d, FREE, 0);
    settle("end");
}

static void setup() {
    auto fam = [](int nd, int depth) {
        int A = nd * NPER + NGLOB;
        uint64_t heads = A * A, cont = mc::ipow(A, depth - 2);
        mc::add(mc::fmt("all lifecycles of %d detector(s): sequences of %d calls over %d operations",
                        nd, depth, A),
                heads, [=](uint64_t i) {
                    int ops[16];
                    ops[0] = i % A;
                    ops[1] = i / A;
                    for (uint64_t k = 0; k < cont; k++) {
                        mc::Digits h(k);
                        for (int j = 2; j < depth; j++)
                            ops[j] = h.take(A);
                        run_seq(ops, depth, nd, true);
                    }
                });
    };
    fam(1, mc::thorough ? 8 : 7);
    fam(2, mc::thorough ? 7 : 6);
    fam(3, mc::thorough ? 6 : 5);
    unsigned long NC = mc::thorough ? 2000 : 300;
    mc::add(mc::fmt("every capacity 1..%lu filled, wrapped and freed", NC), NC, [](uint64_t i) {
        begin();
        unsigned long cap = i + 1;
        World w;
        memset(&w, 0, sizeof w);
        memset(w.sp, 0xA5, sizeof w.sp);
        do_global(w, SETA);
        do_det(w, 0, INIT, cap);
        static const double T[] = {1, 5, 2, 8, 3, 9, 4, 4, 6, 7, 2.5, 1.5};
        LIB(spot_fit(&w.sp[0], T, 12));
        for (unsigned long k = 0; k < 2 * cap + 3; k++)
            LIB(tail_push(&w.sp[0].tail, 1.0 + k));
        LIB(tail_fit(&w.sp[0].tail));
        mc::trans(2 * cap);
        settle("after wrapping");
        do_det(w, 0, FREE, cap);
        mc::state(1000 + i);
        mc::trace();
    });
    static const std::vector<unsigned long> BIG = {
        0, 1ul << 40, (1ul << 60) - 1, 1ul << 60, (1ul << 61) - 1, 1ul << 61, (1ul << 61) + 1,
        (1ul << 61) + 8, 1ul << 62, 1ul << 63, (1ul << 63) + 1, ~0ul, ~0ul - 7, ~0ul / 8, ~0ul / 8 + 1};
    // capacities far beyond what the other families reserve, from an allocator
    // that grants everything (address space is reserved, not memory)
    static const std::vector<unsigned long> HUGE_ = {
        4095, 4096, 4097, 32769, 65535, 65536, 65537, (1ul << 20) + 1, (1ul << 28) + 1, (1ul << 29) - 1,
        1ul << 29, (1ul << 29) + 1, (1ul << 31) - 1, 1ul << 31, (1ul << 31) + 3, (1ul << 32) - 1, 1ul << 32,
        (1ul << 32) + 5, 1ul << 33, 1ul << 40, 1ul << 52, (1ul << 53) + 1, (1ul << 58) + 1, 1ul << 59,
        (1ul << 60) - 1, 1ul << 60, (1ul << 61) - 2, ~0ul / 8};
    mc::add("capacities 4095 .. (2^64-1)/8 from an allocator that grants everything", HUGE_.size() * 2,
            [](uint64_t i) {
                begin();
                unsigned long cap = HUGE_[i / 2];
                set_allocators(hugeA, hugeF);
                struct Spot s;
                memset(&s, i % 2 ? 0x5A : 0, sizeof s);
                int rc;
                huge_calls = huge_frees = 0;
                huge_p = nullptr;
                huge_bad = false;
                LIB(rc = spot_init(&s, 0.01, 0, 1, 0.75, cap));
                mc::log("spot_init(max_excess=%lu), memory granted -> %d (%zu bytes requested)", cap, rc, huge_size);
                MC_CHECK(rc == 0, "capacity %lu: initialisation returned %d although memory was available", cap, rc);
                MC_CHECK(huge_calls == 1, "%d allocation requests", huge_calls);
                MC_CHECK(huge_size >= cap * sizeof(double), "%zu bytes requested for a capacity of %lu excesses",
                         huge_size, cap);
                unsigned long use = cap <= (1ul << 20) + 1 ? cap + 50 : 50;
                if (huge_mapped)
                    for (unsigned long k = 0; k < use; k++)
                        LIB(tail_push(&s.tail, k == 100 ? 1.0 : k == 101 ? 9.0 : 5.0));
                mc::trans(huge_mapped ? use : 1);
                if (huge_mapped)
                    MC_CHECK(stored(&s) == std::min(use, cap), "%lu excesses stored after %lu in a capacity of %lu",
                             stored(&s), use, cap);
                LIB(spot_free(&s));
                MC_CHECK(huge_frees == 1 && !huge_bad, "the block of %lu excesses is released %d times%s", cap,
                         huge_frees, huge_bad ? ", one with a wrong address" : "");
                LIB(spot_free(&s));
                MC_CHECK(huge_frees == 1, "a second spot_free calls free again");
                if (forbidden)
                    mc::fail("the library calls %s directly", forbidden);
                if (huge_mapped)
                    munmap(huge_map, huge_map_size);
                mc::state(7000 + i);
                mc::trace();
            });
    mc::add(mc::fmt("every capacity 1..%lu and %zu larger ones refused by the allocator, then granted or freed", NC, HUGE_.size()),
            NC + HUGE_.size(), [=](uint64_t i) {
                unsigned long cap = i < NC ? i + 1 : HUGE_[i - NC];
                for (int fill : {0, 0x5A, 0xFF}) {
                    begin();
                    World w;
                    memset(&w, 0, sizeof w);
                    memset(w.sp, fill, sizeof w.sp);
                    for (int k = 0; k < 3; k++)
                        w.owned[k] = -1;
                    do_global(w, fill ? SETA : SETB);
                    do_det(w, 0, INITFAIL, cap);
                    do_det(w, 0, INITFAIL, cap);
                    do_det(w, 0, FREE, cap);
                    if (cap < 4000) {
                        do_det(w, 0, INIT, cap);
                        do_det(w, 0, USE, cap);
                        do_det(w, 1, INITFAIL, cap);
                        do_det(w, 0, FREE, cap);
                    }
                    settle("end");
                    mc::trace();
                }
            });
    // large calibrations and long streams ask for nothing
    static const unsigned long TS[] = {1000, 4097, 20001, 65537, 150001, 1048577};
    mc::add("training sets of 6 sizes up to 2^20+1 x 4 capacities x tails: fit, 2000 steps, queries, free", 6 * 4 * 2, [](uint64_t i) {
        begin();
        mc::Digits g(i);
        int low = g.take(2);
        static const unsigned long CP[] = {3, 500, 5000, 30000};
        unsigned long cap = CP[g.take(4)], n = TS[g.v];
        std::vector<double> t(n);
        Lcg r(i + 3);
        for (auto &x : t)
            x = r.gauss();
        set_allocators(allocA, freeA);
        struct Spot s;
        memset(&s, 0x5A, sizeof s);
        int rc;
        inside_init = true;
        LIB(rc = spot_init(&s, 1e-3, low, 1, 0.9, cap));
        inside_init = false;
        MC_CHECK(rc == 0 && nblocks == 1, "initialisation returned %d, %d blocks", rc, (int)nblocks);
        LIB(rc = spot_fit(&s, t.data(), n));
        mc::log("capacity %lu, fit on %lu values -> %d", cap, n, rc);
        settle("after fit");
        for (int k = 0; rc == 0 && k < 2000; k++) {
            if (k % 100 && k < 1900 && cap > 600)
                LIB(spot_step(&s, s.excess_threshold - (low ? -1.0 : 1.0)));
            else
                LIB(spot_step(&s, s.excess_threshold + (low ? -1 : 1) * r.u()));
            if (k % 50 == 0) {
                LIB(spot_quantile(&s, 1e-6));
                LIB(spot_probability(&s, s.anomaly_threshold));
            }
        }
        mc::trans(2000);
        settle("after the stream");
        MC_CHECK(nblocks == 1 && nfrees[0] + nfrees[1] == 0, "%d blocks before the release", (int)nblocks);
        LIB(spot_free(&s));
        settle("after free");
        MC_CHECK(nfrees[0] == 1 && ncalls[0] == 1, "%d blocks obtained, %d returned", ncalls[0], nfrees[0]);
        mc::state(9000 + i);
        mc::trace();
    });
    mc::add("impossible capacities", BIG.size() * 2, [](uint64_t i) {
        begin();
        unsigned long cap = BIG[i / 2];
        set_allocators(i % 2 ? allocA : nullptr, freeA);
        struct Spot s;
        memset(&s, 0x5A, sizeof s);
        int rc;
        inside_init = true;
        lastsize = ~(size_t)0;
        LIB(rc = spot_init(&s, 0.01, 0, 1, 0.75, cap));
        inside_init = false;
        mc::log("spot_init(max_excess=%lu) -> %d", cap, rc);
        MC_CHECK(rc == -ERR_MEMORY_ALLOCATION_FAILED, "capacity %lu accepted (%d)", cap, rc);
        MC_CHECK(nblocks == 0, "a block of %zu bytes was obtained for %lu excesses", lastsize, cap);
        LIB(spot_free(&s));
        LIB(spot_free(&s));
        settle("after free");
        MC_CHECK(nfrees[0] + nfrees[1] == 0, "free was called without any block");
        mc::trans(3);
        mc::state(5000 + i);
        mc::trace();
    });
}
int main(int c, char **v) { return mc::main(c, v, setup); }
