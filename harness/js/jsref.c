/* reference traces: the native C library driven through every case; each case is
   a list of records of doubles, replayed by c21.mjs against the JavaScript
   binding.  Record: length, op, args..., result, anomaly and excess threshold */
#include "spot.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum { CTOR = 1, FIT, STEP, QUANT, PROB, SELECT, ERRTXT, VERS, FINAL };
static FILE *F, *X;
static unsigned long ncase, pos, fam_first;
static double buf[1 << 17];
static unsigned nb;
static struct Spot *det[4];
static int cur;
static void put(double d) { buf[nb++] = d; }
static void rec_begin(int op) {
    nb = 1;
    put(op);
}
static void rec_end(void) {
    put(det[cur] ? det[cur]->anomaly_threshold : NAN);
    put(det[cur] ? det[cur]->excess_threshold : NAN);
    buf[0] = nb;
    fwrite(buf, 8, nb, F);
    pos += nb;
}
static void case_begin(void) {
    double d = pos;
    fwrite(&d, 8, 1, X);
    ncase++;
    for (int i = 0; i < 4; i++)
        if (det[i]) {
            spot_free(det[i]);
            free(det[i]);
            det[i] = 0;
        }
    cur = 0;
}
static FILE *N;
static const char *famname;
static void fam_open(const char *name) {
    famname = name;
    fam_first = ncase;
}
static void fam_close(void) { fprintf(N, "%lu\t%s\n", ncase - fam_first, famname); }

static unsigned long long rs;
static double u01(void) {
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    return ((rs >> 11) + 0.5) / 9007199254740992.0;
}
static double gauss(void) { double u = u01(), v = u01(); return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }

static int ctor(double q, int mask, double low, double disc, double level, double cap) {
    struct Spot *s = malloc(sizeof *s);
    int r = spot_init(s, q, mask & 1 ? (int)low : 0, mask & 2 ? (int)disc : 1, mask & 4 ? level : 0.98,
                      mask & 8 ? (unsigned long)cap : 500);
    struct Spot *old = det[cur];
    if (r >= 0) {
        if (old) {
            spot_free(old);
            free(old);
        }
        det[cur] = s;
    } else
        free(s);
    rec_begin(CTOR);
    put(q), put(mask), put(low), put(disc), put(level), put(cap), put(r);
    rec_end();
    return r;
}
static int fit(int carrier, const double *d, unsigned n) {
    int r = spot_fit(det[cur], d, n);
    rec_begin(FIT);
    put(carrier), put(n);
    for (unsigned i = 0; i < n; i++)
        put(d[i]);
    put(r);
    rec_end();
    return r;
}
static void step(double x) {
    int r = spot_step(det[cur], x);
    rec_begin(STEP);
    put(x), put(r);
    rec_end();
}
static void quant(double x) {
    double r = spot_quantile(det[cur], x);
    rec_begin(QUANT);
    put(x), put(r);
    rec_end();
}
static void prob(double x) {
    double r = spot_probability(det[cur], x);
    rec_begin(PROB);
    put(x), put(r);
    rec_end();
}
static void select_(int k) {
    cur = k;
    rec_begin(SELECT);
    put(k);
    rec_end();
}
static void final(void) {
    rec_begin(FINAL);
    rec_end();
    spot_free(det[cur]);
    free(det[cur]);
    det[cur] = 0;
}
static void text(int op, double code, const char *s) {
    rec_begin(op);
    put(code), put(strlen(s));
    for (; *s; s++)
        put((unsigned char)*s);
    rec_end();
}
enum { NORM, T, SMALL, MID, Z, ZA, FAR, NANV, INFV, MINF, NSYM };
static double resolve(int sym) {
    struct Spot *s = det[cur];
    double t = s->excess_threshold, z = s->anomaly_threshold, sg = s->low ? -1 : 1, w = fabs(z - t);
    if (!(w > 0 && w < INFINITY))
        w = 1;
    if (!(fabs(t) < INFINITY))
        t = 0;
    switch (sym) {
    case NORM: return t - sg * 3 * w;
    case T: return t;
    case SMALL: return t + sg * w / 32;
    case MID: return t + sg * w / 2;
    case Z: return z == z ? z : t;
    case ZA: return z == z ? nextafter(z, sg * INFINITY) : t + sg;
    case FAR: return t + sg * 7 * w;
    case NANV: return NAN;
    case INFV: return INFINITY;
    }
    return -INFINITY;
}
static void queries(void) {
    static const double qs[] = {1e-3, 1e-8, 0.2, 0.0, 1.0, 2.0, -1.0};
    for (int i = 0; i < 7; i++)
        quant(qs[i]);
    quant(NAN);
    for (int s = 0; s < NSYM; s++)
        prob(resolve(s));
}
static double SETS[12][100];
static unsigned SN[12];
static void mk(int i, unsigned n, const double *d) {
    SN[i] = n;
    memcpy(SETS[i], d, n * 8);
}
#define MK(i, ...) do { double t_[] = {__VA_ARGS__}; mk(i, sizeof t_ / 8, t_); } while (0)
struct cfg { double q; int mask; double low, disc, level, cap; };
static const struct cfg CFG[] = {{0.01, 12, 0, 0, 0.75, 3}, {0.01, 13, 1, 0, 0.75, 5}, {0.01, 14, 0, 0, 0.5, 1}, {0.01, 7, 1, 0, 0.9, 0}};
static void dofam_ctor(void) {
    static const double q[] = {1e-4, 0.3, 0, 0.02, NAN, 1.5}, low[] = {0, 0, 1, 2, -3}, disc[] = {0, 0, 1, 7, -1},
                        lev[] = {0, 0.5, 0.98, 0, 1.0, NAN, -0.1}, cap[] = {0, 1, 3, 700, 0};
    fam_open("constructor options: every combination of absent or given values, then a fit, a stream and queries");
    for (int a = 0; a < 6; a++)
        for (int b = 0; b < 5; b++)
            for (int c = 0; c < 5; c++)
                for (int d = 0; d < 7; d++)
                    for (int e = 0; e < 5; e++) {
                        case_begin();
                        if (ctor(q[a], !!b | !!c << 1 | !!d << 2 | !!e << 3, low[b], disc[c], lev[d], cap[e]) < 0)
                            continue;
                        rs = (a * 5 + b) * 5 + c;
                        double x[80];
                        for (int i = 0; i < 80; i++)
                            x[i] = gauss();
                        fit(0, x, 80);
                        static const int sy[] = {SMALL, MID, ZA, T, NORM, NANV, MID, FAR, SMALL, MID};
                        for (int i = 0; i < 10; i++)
                            step(resolve(sy[i]));
                        quant(1e-3);
                        prob(resolve(MID));
                    }
    fam_close();
}
static void dofam_carr(void) {
    fam_open("training data: 8 carriers x 12 data sets x 4 configurations");
    for (int k = 0; k < 4; k++)
        for (int n = 0; n < 12; n++)
            for (int c = 0; c < 8; c++) {
                case_begin();
                ctor(CFG[k].q, CFG[k].mask, CFG[k].low, CFG[k].disc, CFG[k].level, CFG[k].cap);
                queries();
                fit(c, SETS[n], SN[n]);
                step(resolve(MID)), step(resolve(ZA)), step(resolve(SMALL));
                queries();
                fit((c + 3) % 8, SETS[(n + 1) % 12], SN[(n + 1) % 12]);
                step(resolve(MID));
                queries();
            }
    fam_close();
}
#define NOPS 14
static void op(int o) {
    if (o < NSYM)
        step(resolve(o));
    else if (o == 10)
        fit(1, SETS[3], SN[3]);
    else if (o == 11)
        fit(0, SETS[7], SN[7]);
    else if (o == 12)
        queries();
    else
        ctor(0.02, 12, 0, 0, 0.7, 4);
}
static void dofam_seq(int depth) {
    static char name[100];
    sprintf(name, "operation sequences of length %d over %d operations x 4 configurations", depth, NOPS);
    fam_open(name);
    unsigned long n = 1;
    for (int i = 0; i < depth; i++)
        n *= NOPS;
    for (int k = 0; k < 4; k++)
        for (unsigned long i = 0; i < n; i++) {
            case_begin();
            ctor(CFG[k].q, CFG[k].mask, CFG[k].low, CFG[k].disc, CFG[k].level, CFG[k].cap);
            fit(0, SETS[1], SN[1]);
            unsigned long j = i;
            for (int s = 0; s < depth; s++, j /= NOPS)
                op(j % NOPS);
        }
    fam_close();
}
static void dofam_long(int n) {
    static char name[100];
    sprintf(name, "long streams: every maxExcess 1..%d x both tails", n);
    fam_open(name);
    for (int cap = 1; cap <= n; cap++)
        for (int low = 0; low < 2; low++) {
            case_begin();
            ctor(1e-3, 13, low, 0, 0.9, cap);
            rs = 77 + cap;
            double x[200];
            for (int i = 0; i < 200; i++)
                x[i] = gauss();
            fit(0, x, 200);
            for (int i = 0; i < cap + 60; i++)
                step(resolve(T) + (low ? -1 : 1) * fabs(gauss()));
            queries();
        }
    fam_close();
}
static void dofam_defaults(void) {
    fam_open("every subset of the options left to its default, streams filling and wrapping the largest tail");
    for (int mask = 0; mask < 16; mask++)
        for (int v = 0; v < 2; v++) {
            case_begin();
            ctor(1e-3, mask, v, !v, v ? 0.95 : 0.9, v ? 501 : 499);
            rs = 1234 + mask;
            static double x[2000];
            for (int i = 0; i < 2000; i++)
                x[i] = gauss();
            fit(v, x, 2000);
            int low = (mask & 1) && v;
            // excesses, all of them below the anomaly threshold
            for (int i = 0; i < 540; i++) {
                double t = resolve(T), w = fabs(resolve(Z) - t);
                step(t + (low ? -1 : 1) * w * u01() * (i % 7 ? 0.5 : 0.9));
            }
            for (int i = 0; i < 6; i++)
                step(resolve(ZA)), step(resolve(FAR)), step(resolve(MID));
            queries();
        }
    fam_close();
}
static void dofam_big(void) {
    fam_open("large training sets and large maxExcess (memory growth)");
    static const unsigned n[] = {1000, 5000, 20000, 60000, 100000};
    double *x = malloc(100000 * 8);
    for (int i = 0; i < 5; i++)
        for (int k = 0; k < 4; k++) {
            case_begin();
            ctor(1e-5, 13, k & 1, 0, 0.98, k & 2 ? 20000 : 200);
            rs = 5;
            for (unsigned j = 0; j < n[i]; j++)
                x[j] = gauss();
            fit(k, x, n[i]);
            for (int j = 0; j < 300; j++)
                step(3 * gauss());
            queries();
        }
    free(x);
    fam_close();
}
static void dofam_caps(void) {
    fam_open("maxExcess around the powers of two up to 2^20, one excess more than would fit in a truncated one");
    static const unsigned long C[] = {255, 256, 257, 511, 512, 513, 1023, 1025, 4097, 32767, 32768, 32769, 65535, 65536,
                                      65537, 65540, 70000, 100000, 131071, 131072, 131073, 1000000, 1048576, 1048579};
    static double x[1200];
    for (unsigned i = 0; i < sizeof C / sizeof *C; i++)
        for (int low = 0; low < 2; low++) {
            case_begin();
            ctor(1e-3, 13, low, 0, 0.5, C[i]);
            rs = 31 + i;
            for (int j = 0; j < 1200; j++)
                x[j] = gauss();
            fit(i % 4, x, 1200);
            for (int j = 0; j < 20; j++)
                step(2 * gauss());
            queries();
        }
    fam_close();
}
static void dofam_multi(void) {
    fam_open("several detectors, operations interleaved, some finalised on the way");
    for (int k = 0; k < 4; k++)
        for (int order = 0; order < 81; order++) {
            case_begin();
            for (int d = 0; d < 3; d++) {
                const struct cfg *c = &CFG[(k + d) % 4];
                select_(d);
                ctor(c->q, c->mask, c->low, c->disc, c->level, c->cap);
                fit(d, SETS[1 + d], SN[1 + d]);
            }
            int o = order;
            for (int i = 0; i < 4; i++, o /= 3) {
                select_(o % 3);
                step(resolve(MID)), step(resolve(ZA)), step(resolve(NORM));
                quant(1e-3), prob(resolve(MID));
            }
            select_(order % 3);
            final();
            ctor(0.02, 12, 0, 0, 0.5, 2);
            fit(2, SETS[2], SN[2]);
            for (int i = 0; i < 3; i++) {
                select_(i);
                step(resolve(SMALL)), step(resolve(MID));
                queries();
            }
        }
    fam_close();
}
static void dofam_units(void) {
    fam_open("units from 1e-320 to 1e307, both tails");
    static const double U[] = {1e-320, 1e-300, 1e-160, 1e-40, 1e-12, 1e-3, 1e3, 1e9, 1e15, 1e18, 1e38, 1e39, 1e100,
                               1e153, 1e160, 1e300, 1e305, 1e307};
    static double x[60];
    for (int i = 0; i < 18; i++)
        for (int k = 0; k < 4; k++)
            for (int s = 1; s < 4; s++) {
                case_begin();
                ctor(k & 2 ? 1e-4 : 0.02, 13, k & 1, 0, 0.75, 7);
                for (int j = 0; j < SN[s]; j++)
                    x[j] = SETS[s][j] * U[i];
                fit(s, x, SN[s]);
                step(resolve(MID)), step(resolve(SMALL)), step(resolve(NORM)), step(resolve(ZA)), step(resolve(FAR));
                queries();
                fit(0, SETS[2], SN[2]);
                step(resolve(MID)), step(U[i]), step(-U[i]);
                queries();
            }
    fam_close();
}
static void dofam_text(void) {
    char b[512];
    fam_open("error texts, version");
    for (int c = 900; c < 1100; c++) {
        case_begin();
        memset(b, 0, sizeof b);
        libspot_error(c, b, 256);
        text(ERRTXT, c, b);
    }
    static const int ex[] = {0, 1, -1, -1000, -1003, 2147483647, -2147483647 - 1};
    for (int i = 0; i < 7; i++) {
        case_begin();
        memset(b, 0, sizeof b);
        libspot_error(ex[i], b, 256);
        text(ERRTXT, ex[i], b);
    }
    case_begin();
    memset(b, 0, sizeof b);
    libspot_version(b, 256);
    text(VERS, 0, b);
    fam_close();
}
int main(int argc, char **argv) {
    int th = argc > 1;
    F = fopen("traces.bin", "wb");
    X = fopen("index.bin", "wb");
    N = fopen("families.txt", "w");
    set_allocators(malloc, free);
    MK(0, 1, 2, 3, 4, 5);
    MK(1, 3, -1, 4, 1, -5, 9, 2, 6, -5.5, 3.5, 5);
    SN[2] = 60;
    rs = 1;
    for (int i = 0; i < 60; i++)
        SETS[2][i] = gauss();
    MK(3, 0, 0, 1, 0, 2, 2, 0, 5, 0, 100, 1, 0, -7);
    MK(4, 1e6, 3e6, 2.5e6, 7e6, 1.5e6, 2e6, 4.25e6, 9e5);
    MK(5, 2e-7, 1e-7, 3e-7, 2.5e-7, 1.5e-7, 5e-7);
    SN[6] = 0;
    MK(7, 1, 2);
    MK(8, 4, 4, 4, 4, 4, 4);
    MK(9, 1, NAN, 3, 2, 5, 4, 9);
    MK(10, NAN, NAN, NAN, NAN, NAN);
    MK(11, 1, INFINITY, 3, -INFINITY, 5, 2);
    dofam_text();
    dofam_ctor();
    dofam_carr();
    dofam_multi();
    dofam_units();
    dofam_long(th ? 120 : 50);
    dofam_big();
    dofam_caps();
    dofam_defaults();
    dofam_seq(th ? 4 : 3);
    double d = pos;
    fwrite(&d, 8, 1, X);
    fclose(F), fclose(X), fclose(N);

    return 0;
}
