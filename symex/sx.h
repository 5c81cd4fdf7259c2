/* Intrinsics of the symbolic engine, shared by the libc model and harnesses.
 * With -DSX_NATIVE the same harness is linked with native.c instead, to
 * replay one model against the real compiler binary. */
#ifndef SX_H
#define SX_H
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char i8; typedef short i16; typedef int i32; typedef long i64;
int sx_is_engine(void);
void sx_make_symbolic(void *p, u64 n, const char *name);
u64 sx_var(int bits, const char *name);
u64 sx_magic(u64 k);
void sx_set_magic(u64 k, u64 v);
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_cover(const char *name);
void sx_kill(void);
void sx_unsupported(const char *msg);
int sx_fork(int c);
u32 sx_choose(int n, const char *name);
u64 sx_concretize(u64 v);
u64 sx_value(u64 v);
int sx_is_symbolic(u64 v);
int sx_bytes_symbolic(const void *p, u64 n);
void sx_log(const char *s);
void sx_print(const char *s);
void sx_print_val(const char *s, u64 v);
void sx_last_error(char *buf, u64 n);
int sx_catch(void *fn, ...);
void sx_reset_target(void);
void sx_heap_down(int on);   /* the following runs see other heap addresses, in the opposite order */
char *sx_arg(u64 i);
char *sx_host_file(const char *path, u64 *n);
void sx_dump(const char *path, const void *p, u64 n);
u64 sx_strtod(const char *s, char **end);
u64 sx_undef(void);
void sx_fmt(char *out, u64 n, const char *spec, const void *val, int isld);
void sx_overread(int ok);
u32 sx_overreads(void);
int sx_has_undef(u64 v);
u64 sx_range_undef(const void *p, u64 n);
void sx_poison(void *p, u64 n);
int sx_elf_load(const void *p, u64 n);
void *sx_sym(const char *name);
void *sx_ref(const char *name);
u64 sx_objsize(const void *p);
u64 sx_smt_ite(int c, u64 a, u64 b);

/* Virtual files (libc.c) */
void vf_write(const char *path, const char *data, u64 n);
int vf_exists(const char *path);
char *vf_data(const char *path, u64 *n);   /* bytes written so far, NUL after */
void vf_remove(const char *path);
void vf_stdin(const char *path);
extern int vf_host_ok;       /* fopen for reading may fall back to real files */
extern int vf_fail_open;     /* fopen for writing fails */
extern int vf_fork_child;    /* run on as the child of fork; execvp writes its arguments to "exec.txt" */
extern int vf_ld_rc;         /* exit status of the program started by execvp */
extern int vf_exec_count;    /* fork/execvp calls seen */
#endif
