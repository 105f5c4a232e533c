/* the C library driven directly: reference for the bindings */
#include "spot.h"
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
/* the same grants as the stand-in linked into the extension */
#define LARGE (1ul << 27)
static struct {
    void *p;
    size_t n;
} big[64];
static void *al(size_t n) {
    if (n > (1ul << 40))
        return 0;
    if (n < LARGE)
        return malloc(n);
    for (int i = 0; i < 64; i++)
        if (!big[i].p) {
            void *m = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED)
                return 0;
            big[i].p = m;
            big[i].n = n;
            return m;
        }
    return 0;
}
static void fr(void *p) {
    for (int i = 0; p && i < 64; i++)
        if (big[i].p == p) {
            munmap(p, big[i].n);
            big[i].p = 0;
            return;
        }
    free(p);
}
struct Spot *ref_new(void) {
    set_allocators(al, fr);
    return calloc(1, sizeof(struct Spot));
}
void ref_delete(struct Spot *s) {
    spot_free(s);
    free(s);
}
int ref_init(struct Spot *s, double q, int low, int disc, double level, unsigned long cap) {
    struct Spot n;
    int r = spot_init(&n, q, low, disc, level, cap);
    if (r == 0) {
        spot_free(s);
        *s = n;
    } else if (r == -ERR_MEMORY_ALLOCATION_FAILED)
        spot_free(&n);
    return r;
}
int ref_fit(struct Spot *s, const double *d, unsigned long n) { return spot_fit(s, d, n); }
int ref_step(struct Spot *s, double x) { return spot_step(s, x); }
double ref_quantile(struct Spot *s, double q) { return spot_quantile(s, q); }
double ref_probability(struct Spot *s, double z) { return spot_probability(s, z); }
/* 0 q 1 level 2 discard 3 low 4 z 5 t 6 Nt 7 n 8 gamma 9 sigma 10 e 11 e2 12 min
   13 max 14 cursor 15 capacity 16 last_erased 17 filled */
double ref_field(struct Spot *s, int k) {
    struct Peaks *p = &s->tail.peaks;
    switch (k) {
    case 0: return s->q;
    case 1: return s->level;
    case 2: return s->discard_anomalies;
    case 3: return s->low;
    case 4: return s->anomaly_threshold;
    case 5: return s->excess_threshold;
    case 6: return s->Nt;
    case 7: return s->n;
    case 8: return s->tail.gamma;
    case 9: return s->tail.sigma;
    case 10: return p->e;
    case 11: return p->e2;
    case 12: return p->min;
    case 13: return p->max;
    case 14: return p->container.cursor;
    case 15: return p->container.capacity;
    case 16: return p->container.last_erased_data;
    case 17: return p->container.filled;
    }
    return -1;
}
unsigned long ref_size(struct Spot *s) {
    struct Ubend *u = &s->tail.peaks.container;
    return u->filled ? u->capacity : u->cursor;
}
double ref_excess(struct Spot *s, unsigned long i) { return s->tail.peaks.container.data[i]; }
unsigned long ref_sizeof(void) { return sizeof(struct Spot); }
void ref_error(int c, char *b, unsigned long n) { libspot_error(c, b, n); }
void ref_version(char *b, unsigned long n) { libspot_version(b, n); }
/* byte offsets of the counters, and a poke of the same counters on the C side */
unsigned long ref_offset(int k) { return k == 6 ? offsetof(struct Spot, Nt) : offsetof(struct Spot, n); }
void ref_poke(struct Spot *s, unsigned long n, unsigned long Nt) {
    s->n = n;
    s->Nt = Nt;
}
unsigned long ref_counter(struct Spot *s, int k) { return k == 6 ? s->Nt : s->n; }
