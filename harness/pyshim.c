/* linked into the Python extension under test: counts and fails the memory
   requests of the extension (its references to malloc... are wrapped) */
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#define LARGE (1ul << 27)
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
#define MAXB 4096
static void *live[MAXB];
static size_t lsize[MAXB];
static long nlive, nalloc, nfree, bad, fail_at = -1;
static size_t lastsize;
static int add(void *p, size_t n) {
    for (int i = 0; i < MAXB; i++)
        if (!live[i]) {
            live[i] = p;
            lsize[i] = n;
            nlive++;
            return 1;
        }
    return 0;
}
static void del(void *p) {
    if (!p)
        return;
    for (int i = 0; i < MAXB; i++)
        if (live[i] == p) {
            live[i] = 0;
            nlive--;
            return;
        }
    bad++;
}
static int refuse(size_t n) {
    lastsize = n;
    nalloc++;
    if (n > (1ul << 40))
        return 1;
    if (fail_at == 0) {
        fail_at = -1;
        return 1;
    }
    if (fail_at > 0)
        fail_at--;
    return 0;
}
#define G 64
/* guard zones around every block */
static void *guarded(size_t n, int zero) {
    if (n >= LARGE) { /* address space only: pages come when they are touched */
        void *m = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED)
            return 0;
        add(m, n);
        return m;
    }
    unsigned char *p = __real_malloc(n + 2 * G);
    if (!p)
        return 0;
    memset(p, 0xC5, G);
    memset(p + G, zero ? 0 : 0xAA, n);
    memset(p + G + n, 0xC5, G);
    add(p + G, n);
    return p + G;
}
static void check(unsigned char *p, size_t n) {
    if (n >= LARGE)
        return;
    for (int i = 0; i < G; i++)
        if (p[-1 - i] != 0xC5 || p[n + i] != 0xC5) {
            bad++;
            return;
        }
}
void *__wrap_malloc(size_t n) { return refuse(n) ? 0 : guarded(n, 0); }
void *__wrap_calloc(size_t a, size_t b) {
    return refuse(a * b) ? 0 : guarded(a * b, 1);
}
void __wrap_free(void *p) {
    nfree++;
    if (!p)
        return;
    for (int i = 0; i < MAXB; i++)
        if (live[i] == p) {
            if (lsize[i] >= LARGE) {
                munmap(p, lsize[i]);
                del(p);
                return;
            }
            check(p, lsize[i]);
            memset(p, 0xDD, lsize[i]);
            del(p);
            __real_free((char *)p - G);
            return;
        }
    bad++; /* not ours or freed twice: do not touch */
}
void *__wrap_realloc(void *q, size_t n) {
    void *p = __wrap_malloc(n);
    if (p && q)
        for (int i = 0; i < MAXB; i++)
            if (live[i] == q)
                memcpy(p, q, lsize[i] < n ? lsize[i] : n);
    if (p)
        __wrap_free(q);
    return p;
}
long vf_live(void) { return nlive; }
long vf_nalloc(void) { return nalloc; }
long vf_bad(void) {
    for (int i = 0; i < MAXB; i++)
        if (live[i])
            check(live[i], lsize[i]);
    return bad;
}
void vf_fail(long k) { fail_at = k; }
