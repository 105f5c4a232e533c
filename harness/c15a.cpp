// C15, first part: all merges of operation scripts of several detectors, and
// the library's static memory after every single call.
#include "indep.hpp"

static const std::vector<std::vector<int>> SC = {
    {O_INIT, O_FIT, O_MID, O_ZA, O_QUERY, O_T, O_FREE},
    {O_INIT, O_FIT, O_NAN, O_SMALL, O_FIT2, O_MID, O_QUERY},
    {O_BADINIT, O_INIT, O_BADFIT, O_FIT, O_MID, O_QUERY, O_FREE},
    {O_INIT, O_FIT, O_MID, O_DUP, O_NORM, O_TEXT, O_QUERY},
    {O_INIT, O_FIT, O_FREE, O_INIT, O_FIT2, O_SMALL, O_ZA}};

static std::string stat0;
static void check_static(int op) {
    std::string c = content();
    if (c != stat0) {
        size_t i = 0;
        while (c[i] == stat0[i])
            i++;
        mc::fail("%s modified the static memory of the library (byte %zu of %zu)", opname(op), i, c.size());
    }
}
static void merge(const std::vector<int> &kinds, const std::vector<const int *> &ops, const std::vector<int> &lens,
                  const std::vector<Script> &solo, const std::vector<int> &order) {
    size_t n = kinds.size();
    static std::vector<Script> S;
    S.resize(n);
    for (size_t i = 0; i < n; i++)
        start(S[i], kinds[i], ops[i], lens[i]);
    std::vector<int> pos(n, 0);
    if (mc::logging)
        mc::logtext.clear();
    for (int w : order) {
        int op = ops[w][pos[w]++];
        mc::log("detector %d: %s", w, opname(op));
        exec_op(S[w], op);
        keep(S[w]);
        mc::trans();
        check_static(op);
    }
    uint64_t h = 5;
    for (size_t i = 0; i < n; i++) {
        same_as_solo(solo[i], S[i], mc::fmt("detector %zu", i).c_str());
        for (auto &x : S[i].snaps)
            h = mc::mix(h, hash(x));
        finish(S[i]);
    }
    for (int w : order)
        h = mc::mix(h, w);
    mc::state(h);
    mc::trace();
}
static void all_merges(const std::vector<int> &kinds, const std::vector<const int *> &ops,
                       const std::vector<int> &lens) {
    size_t n = kinds.size();
    std::vector<Script> solo(n);
    for (size_t i = 0; i < n; i++) {
        start(solo[i], kinds[i], ops[i], lens[i]);
        for (int k = 0; k < lens[i]; k++) {
            exec_op(solo[i], ops[i][k]);
            keep(solo[i]);
            check_static(ops[i][k]);
        }
        finish(solo[i]);
    }
    std::vector<int> order;
    for (size_t i = 0; i < n; i++)
        order.insert(order.end(), lens[i], (int)i);
    do
        merge(kinds, ops, lens, solo, order);
    while (std::next_permutation(order.begin(), order.end()));
}
static void setup() {
    set_allocators(malloc, free);
    mc::aux_names = {"bytes of static memory monitored"};
    if (segments().empty()) {
        fprintf(stderr, "library segments not found\n");
        exit(3);
    }
    stat0 = content();
    const size_t NS = SC.size(), NK = 6;
    int L = 7;
    mc::add(mc::fmt("all merges of 2 scripts of %d operations: %zu x %zu scripts x 6 detector pairs", L, NS, NS),
            NS * NS * NK, [=](uint64_t i) {
                mc::Digits g(i);
                int a = g.take(NS), b = g.take(NS), k = g.v;
                all_merges({k, (k * 5 + 1) % 6}, {SC[a].data(), SC[b].data()}, {L, L});
                if (i == 0)
                    mc::aux(0, stat0.size());
            });
    // large windows, training sets and streams: the static memory stays the same
    static const unsigned long BC[] = {100, 255, 256, 400, 513, 1025, 2049, 5000, 70000};
    static const unsigned long BT[] = {200, 1500, 6000, 40000, 150000};
    mc::add("static memory after large calibrations and long streams: 9 capacities x 5 training sizes x tails x 2 levels", 9 * 5 * 4,
            [](uint64_t i) {
                mc::Digits g(i);
                int low = g.take(2);
                double lv = g.take(2) ? 0.9 : 0.3;
                unsigned long T = BT[g.take(5)], cap = BC[g.v];
                Lcg r(3 + i);
                std::vector<double> tr(T);
                for (auto &x : tr)
                    x = r.gauss();
                struct Spot sp;
                mc::log("capacity %lu, fit on %lu gaussian values, level %g, low=%d", cap, T, lv, low);
                auto same = [&](const char *what) {
                    mc::trans();
                    MC_CHECK(content() == stat0, "%s modified the static memory of the library", what);
                };
                MC_CHECK(spot_init(&sp, 1e-3, low, 1, lv, cap) == 0, "initialisation failed");
                same("spot_init");
                int rc = spot_fit(&sp, tr.data(), T);
                same("spot_fit");
                if (rc == 0)
                    for (int k = 0; k < 40; k++) {
                        spot_step(&sp, sp.excess_threshold + (low ? -1 : 1) * (k % 5 ? 0.01 * k : 50.0));
                        same("spot_step");
                        if (k % 8 == 0) {
                            spot_quantile(&sp, 1e-5);
                            spot_probability(&sp, sp.anomaly_threshold);
                            same("a query");
                        }
                    }
                mc::state(hash(&sp));
                spot_free(&sp);
                same("spot_free");
                mc::trace();
            });
    // three detectors, including two identical ones
    int M = 4, M3 = mc::thorough ? 4 : 3;
    mc::add(mc::fmt("all merges of 3 scripts of %d, %d and %d operations x 30 triples", M, M, M3), 30, [=](uint64_t i) {
        int k = i % 6, a = i / 6;
        // drop the initial bad init so that every script gets to a step
        all_merges({k, (k + 3) % 6, k}, {SC[a % 2].data(), SC[3].data(), SC[(a + 1) % 2].data()}, {M, M, M3});
    }, 1);
}
int main(int c, char **v) { return mc::main(c, v, setup); }
