/* Scenario driver interface: the same driver runs inside the engine and,
 * with -DSX_NATIVE, against the real compiler binary for replay. */
#ifndef DRV_H
#define DRV_H
#include "../symex/sx.h"
int d_run_lacc(int argc, char **argv);                 /* exit code; >= 1000: abnormal */
int d_lacc(const char *opts);                          /* one command line, space separated, paths in the virtual file system */
void d_put(const char *path, const char *text);        /* create a source file */
int d_load(const char *path);                          /* load (link) an object file: 0 if it is well formed */
void d_compile(const char *src);                       /* prog.c -> prog.o with options sx_arg(0), loaded; a failure is reported */
int d_try_compile(const char *src);                    /* the same, returns the exit code, loads if 0 */
void *L(const char *name);                             /* symbol of the lacc object */
void *R(const char *name);                             /* symbol of the reference translation */
int d_callL(void *fn, void *arg);                      /* fn(arg) under error capture on the lacc side */
int d_callR(void *fn, void *arg);                      /* the same on the reference side: undefined behaviour ends the path */
extern int d_side;                                     /* 0 lacc, 1 reference */
void ev(long v);                                       /* observable event, recorded per side */
void evd(double v);
void d_ev_reset(void);
void d_ev_check(const char *msg);
void d_fail(const char *msg);                          /* report and end the path */
int d_feq32(u32 a, u32 b); int d_feq64(u64 a, u64 b); int d_feqld(const void *a, const void *b);
void d_eqmem(const void *a, const void *b, u64 n, const char *msg);
void d_note(const char *s, u64 v);
#define IN(bits, name) sx_var(bits, name)
#endif
