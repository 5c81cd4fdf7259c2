/* preloaded into the compiler while replaying: two allocators with different contents of fresh memory and different order of addresses */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#define SIZE (1ul << 32)
static char *base, *lo, *hi; static int down;
static void init(void) {
    const char *e = getenv("DETMALLOC"); down = e && *e == '1';
    base = mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) _Exit(3);
    lo = base; hi = base + SIZE;
}
static void *get(size_t n, int fill) {
    char *p; size_t m = (n + 15 & ~15ul) + 16;
    if (!base) init();
    if (m < n || m > (size_t)(hi - lo)) return NULL;
    if (down) p = hi -= m; else { p = lo; lo += m; }
    *(size_t *)p = n; p += 16; memset(p, fill, n); return p;
}
void *malloc(size_t n) { return get(n, down ? 0xA5 : 0x5A); }
void *calloc(size_t a, size_t b) { return b && a > (size_t)-1 / b ? NULL : get(a * b, 0); }
void free(void *p) { if (p) memset(p, down ? 0xB7 : 0x7B, ((size_t *)p)[-2]); }
void *realloc(void *p, size_t n) { void *q = malloc(n); size_t k; if (p && q) { k = ((size_t *)p)[-2]; memcpy(q, p, k < n ? k : n); free(p); } return q; }
