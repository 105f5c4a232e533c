/* the few C library functions a wasm32 build may need; malloc and free are
   imported from the instrumented heap (heap.mjs) */
#include <string.h>
void *memcpy(void *d, const void *s, size_t n) {
    char *a = d;
    const char *b = s;
    while (n--)
        *a++ = *b++;
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    char *a = d;
    const char *b = s;
    if (a < b)
        return memcpy(d, s, n);
    while (n--)
        a[n] = b[n];
    return d;
}
void *memset(void *d, int c, size_t n) {
    char *a = d;
    while (n--)
        *a++ = (char)c;
    return d;
}
int memcmp(const void *p, const void *q, size_t n) {
    const unsigned char *a = p, *b = q;
    for (; n--; a++, b++)
        if (*a != *b)
            return *a - *b;
    return 0;
}
size_t strlen(const char *s) {
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
void *calloc(size_t a, size_t b) {
    void *p = b && a > (size_t)-1 / b ? 0 : malloc(a * b);
    if (p)
        memset(p, 0, a * b);
    return p;
}
