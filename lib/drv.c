#include "drv.h"
#define NULL ((void *)0)
void *malloc(u64); void *memcpy(void *, const void *, u64); u64 strlen(const char *); char *strcpy(char *, const char *); char *strcat(char *, const char *); int strcmp(const char *, const char *);
int lacc_main(int, char **);
int d_side;
#define NEV 512
static int nev[2]; static u64 evs[2][NEV];
#ifdef SX_NATIVE
int d_conv_check(void);
__attribute__((noinline)) void d_align(void *fp) { if ((u64)fp & 15) d_fail("stack not 16-byte aligned at a call"); }
#define ALIGNED() d_align(__builtin_frame_address(0))
#else
#define ALIGNED()
#endif
void ev(long v) { ALIGNED(); if (nev[d_side] >= NEV) sx_unsupported("event log full"); evs[d_side][nev[d_side]++] = (u64)v; }
void evd(double v) { ALIGNED(); union { double d; u64 u; } u; u.d = v; ev((long)u.u); }
void d_ev_reset(void) { nev[0] = nev[1] = 0; }
void d_ev_check(const char *msg) {
    int i, n = nev[0] < nev[1] ? nev[0] : nev[1];
    for (i = 0; i < n; i++) sx_assert(evs[0][i] == evs[1][i], msg);
    sx_assert(nev[0] == nev[1], msg);
}
void d_fail(const char *msg) { sx_assert(0, msg); sx_kill(); }
#ifndef SX_NATIVE
int d_run_lacc(int argc, char **argv) { return sx_catch(lacc_main, argc, argv); }
#endif
void d_put(const char *path, const char *text) { vf_write(path, text, strlen(text)); }
int d_lacc(const char *opts) {
    static char buf[512]; char *argv[40]; int n = 0; char *p = buf;
    strcpy(buf, opts);
    argv[n++] = "lacc";
    while (*p) {
        while (*p == ' ') p++;
        if (!*p) break;
        argv[n++] = p;
        while (*p && *p != ' ') p++;
        if (*p) *p++ = 0;
    }
    argv[n] = NULL;
    sx_reset_target();
    return d_run_lacc(n, argv);
}
#ifndef SX_NATIVE
static int load1(const char *path) { u64 n; char *d = vf_data(path, &n); if (!d) return 1; return sx_elf_load(d, n); }
int d_load(const char *path) { return sx_catch(load1, path); }
#endif
int d_try_compile(const char *src) {
    char o[400]; char *extra = sx_arg(0); int rc;
    d_put("prog.c", src);
    strcpy(o, extra ? extra : ""); strcat(o, " -c -o prog.o prog.c");
    rc = d_lacc(o);
    if (rc) return rc;
    if (d_load("prog.o")) d_fail("the object file is malformed or does not link");
    return 0;
}
void d_compile(const char *src) {
    int rc = d_try_compile(src);
    if (rc >= 1000) d_fail("the compiler did not terminate normally on a valid program");
    if (rc) d_fail("the compiler rejected a valid program");
    sx_cover("compiled");
}
void *L(const char *n) { void *p = sx_sym(n); if (!p) d_fail("symbol missing from the object file"); return p; }
void *R(const char *n) { void *p = sx_ref(n); if (!p) sx_unsupported("reference symbol missing"); return p; }
int d_callL(void *fn, void *arg) {
    int rc; d_side = 0; rc = sx_catch(fn, arg);
#ifdef SX_NATIVE
    if (d_conv_check()) rc = 1010;
#endif
    if (rc >= 1000) d_fail("the compiled program faulted or broke the calling convention");
    return rc;
}
int d_callR(void *fn, void *arg) { int rc; d_side = 1; rc = sx_catch(fn, arg); if (rc >= 1000) { sx_cover("ub-excluded"); sx_kill(); } return rc; }
static int nan32(u32 a) { return (a & 0x7fffffff) > 0x7f800000; }
static int nan64(u64 a) { return (a & ~(1ul << 63)) > 0x7ff0000000000000ul; }
int d_feq32(u32 a, u32 b) { return (a == b) | (nan32(a) & nan32(b)); }
int d_feq64(u64 a, u64 b) { return (a == b) | (nan64(a) & nan64(b)); }
int d_feqld(const void *a, const void *b) {
    u64 x = *(u64 *)a, y = *(u64 *)b; u16 p = *(u16 *)((char *)a + 8), q = *(u16 *)((char *)b + 8);
    return ((x == y) & (p == q)) | (((p & 0x7fff) == 0x7fff & (x << 1) != 0) & ((q & 0x7fff) == 0x7fff & (y << 1) != 0));
}
void d_eqmem(const void *a, const void *b, u64 n, const char *msg) {
    const u8 *p = a, *q = b; u64 i; int ok = 1;
    for (i = 0; i < n; i++) ok &= p[i] == q[i];
    sx_assert(ok, msg);
}
void d_note(const char *s, u64 v) { (void)s; (void)v; }
