/* Native replay of a driver: intrinsics read one model from a file, the
 * compiler is the real binary, objects are linked by the real linker. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/resource.h>
#define SX_NATIVE 1
#include "drv.h"
/* REPLAY_MODEL: lines "name hexbytes"; REPLAY_LACC: compiler; REPLAY_OPTS; REPLAY_REF: reference .so; cwd: scratch */
#define NV 4096
static struct { char name[64]; unsigned char *b; int n; } vars[NV]; static int nvars;
static struct { char base[64]; int k; } cnt[512]; static int ncnt;
static int failed;
static void load_model(void) {
    FILE *f = fopen(getenv("REPLAY_MODEL"), "r"); static char line[1 << 20];
    if (!f) { perror("model"); exit(3); }
    while (fgets(line, sizeof line, f)) {
        char *sp = strchr(line, ' '); int i, n; if (!sp) continue; *sp++ = 0; n = strcspn(sp, "\n") / 2;
        snprintf(vars[nvars].name, 64, "%s", line); vars[nvars].b = malloc(n + 1); vars[nvars].n = n;
        for (i = 0; i < n; i++) { unsigned x; sscanf(sp + 2 * i, "%2x", &x); vars[nvars].b[i] = x; }
        nvars++;
    }
    fclose(f);
}
static const char *uniq(const char *base) {
    static char b[4][80]; static int r; int i; char *o = b[r++ & 3];
    for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].base, base)) break;
    if (i == ncnt) { snprintf(cnt[ncnt++].base, 64, "%s", base); }
    if (cnt[i].k) snprintf(o, 80, "%s#%d", base, cnt[i].k); else snprintf(o, 80, "%s", base);
    cnt[i].k++;
    return o;
}
static void getvar(const char *name, void *p, int n) {
    int i; memset(p, 0, n);
    for (i = 0; i < nvars; i++) if (!strcmp(vars[i].name, name)) { memcpy(p, vars[i].b, n < vars[i].n ? n : vars[i].n); return; }
}
int sx_is_engine(void) { return 0; }
void sx_make_symbolic(void *p, u64 n, const char *name) { getvar(uniq(name), p, n); }
u64 sx_var(int bits, const char *name) { u64 v; getvar(uniq(name), &v, 8); return bits >= 64 ? v : v & ((1ul << bits) - 1); }
u64 sx_magic(u64 k) { char b[20]; u64 v; sprintf(b, "mag%lu", k); getvar(b, &v, 8); return v; }
void sx_set_magic(u64 k, u64 v) { char b[20]; int i; sprintf(b, "mag%lu", k); for (i = 0; i < nvars; i++) if (!strcmp(vars[i].name, b)) break; if (i == nvars) { strcpy(vars[i].name, b); vars[i].b = malloc(8); vars[i].n = 8; nvars++; } memcpy(vars[i].b, &v, 8); }
void sx_assume(int c) { if (!c) { printf("REPLAY: assumption not met\n"); fflush(stdout); _exit(4); } }
void sx_assert(int c, const char *msg) { if (!c) { printf("REPLAY-FAIL: %s\n", msg); fflush(stdout); failed = 1; } }
void sx_cover(const char *n) { (void)n; }
void sx_kill(void) { fflush(stdout); _exit(failed ? 1 : 0); }
void sx_unsupported(const char *m) { printf("REPLAY: unsupported %s\n", m); fflush(stdout); _exit(failed ? 1 : 4); }
int sx_fork(int c) { return c; }
u32 sx_choose(int n, const char *name) { u32 v; getvar(uniq(name), &v, 4); return v % n; }
u64 sx_concretize(u64 v) { return v; }
u64 sx_value(u64 v) { return v; }
int sx_is_symbolic(u64 v) { (void)v; return 0; }
int sx_bytes_symbolic(const void *p, u64 n) { (void)p; (void)n; return 0; }
void sx_log(const char *s) { printf("LOG %s\n", s); }
void sx_print(const char *s) { printf("%s", s); }
void sx_print_val(const char *s, u64 v) { printf("%s %#lx\n", s, v); }
static char lasterr[400];
void sx_last_error(char *b, u64 n) { snprintf(b, n, "%s", lasterr); }
static sigjmp_buf jb; static volatile int injb;
static void onsig(int s) { if (injb) { snprintf(lasterr, 400, "signal %d", s); siglongjmp(jb, s == SIGALRM ? 1005 : s == SIGABRT ? 1001 : 1002); } _exit(5); }
static void installsig(void) {
    struct sigaction sa; int s[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}, i; stack_t ss;
    ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, 0);
    memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (i = 0; i < 6; i++) sigaction(s[i], &sa, 0);
}
int sx_catch(void *fn, ...) {
    u64 a[6]; va_list ap; int i, rc; sigjmp_buf save; int wasin = injb;
    va_start(ap, fn); for (i = 0; i < 6; i++) a[i] = va_arg(ap, u64); va_end(ap);
    memcpy(&save, &jb, sizeof jb);
    if ((rc = sigsetjmp(jb, 1)) == 0) { injb = 1; alarm(20); rc = ((int (*)(u64, u64, u64, u64, u64, u64))fn)(a[0], a[1], a[2], a[3], a[4], a[5]); }
    alarm(0); injb = wasin; memcpy(&jb, &save, sizeof jb);
    return rc;
}
void sx_reset_target(void) {}
char *sx_arg(u64 i) { char b[20]; if (i == 0) return getenv("REPLAY_OPTS"); sprintf(b, "REPLAY_ARG%lu", i); return getenv(b); }
char *sx_host_file(const char *p, u64 *n) { FILE *f = fopen(p, "rb"); char *b; if (!f) return 0; fseek(f, 0, 2); *n = ftell(f); rewind(f); b = calloc(*n + 1, 1); fread(b, 1, *n, f); fclose(f); return b; }
void sx_dump(const char *p, const void *d, u64 n) { FILE *f = fopen(p, "wb"); fwrite(d, 1, n, f); fclose(f); }
u64 sx_strtod(const char *s, char **e) { double d = strtod(s, e); u64 u; memcpy(&u, &d, 8); return u; }
u64 sx_undef(void) { return 0xa5a5a5a5a5a5a5a5ul; }
int sx_has_undef(u64 v) { (void)v; return 0; }
u64 sx_range_undef(const void *p, u64 n) { (void)p; return n; }
void sx_poison(void *p, u64 n) { memset(p, 0xa5, n); }
u64 sx_objsize(const void *p) { (void)p; return 1 << 20; }
u64 sx_smt_ite(int c, u64 a, u64 b) { return c ? a : b; }
void sx_overread(int ok) { (void)ok; }
u32 sx_overreads(void) { return 0; }
void sx_fmt(char *o, u64 n, const char *s, const void *v, int ld) { if (ld) snprintf(o, n, s, *(long double *)v); else snprintf(o, n, s, *(double *)v); }
int vf_host_ok, vf_fail_open, vf_exec_count, vf_fork_child, vf_ld_rc;
/* magic numerals in source text are replaced by the model's values */
void vf_write(const char *path, const char *d, u64 n) {
    char dir[200]; u64 i; FILE *f;
    for (i = 1; path[0] != '/' && path[i] && i < 199; i++) if (path[i] == '/') { memcpy(dir, path, i); dir[i] = 0; mkdir(dir, 0777); }
    f = fopen(path, "wb"); if (!f) { perror(path); exit(3); }
    for (i = 0; i < n;) {
        int oct = i >= 2 && d[i - 1] == '0' && !(d[i - 2] >= '0' && d[i - 2] <= '9') && d[i - 2] != '.' && d[i - 2] != 'x';
        int boundary = i == 0 || oct || !(d[i - 1] >= '0' && d[i - 1] <= '9') && d[i - 1] != '.';
        if (boundary && i + 7 <= n && !memcmp(d + i, "77000", 5) && d[i + 5] >= '0' && d[i + 5] <= '9' && d[i + 6] >= '0' && d[i + 6] <= '9' && (i + 7 == n || !(d[i + 7] >= '0' && d[i + 7] <= '9'))) {
            int hex = i >= 2 && d[i - 2] == '0' && (d[i - 1] == 'x' || d[i - 1] == 'X');
            fprintf(f, oct ? "%lo" : hex ? "%lx" : "%lu", sx_magic((d[i + 5] - '0') * 10 + d[i + 6] - '0')); i += 7;
        } else if (boundary && i + 8 <= n && !memcmp(d + i, "7.7000", 6) && d[i + 6] >= '0' && d[i + 6] <= '9' && d[i + 7] >= '0' && d[i + 7] <= '9') {
            double x; u64 m = sx_magic((d[i + 6] - '0') * 10 + d[i + 7] - '0'); memcpy(&x, &m, 8);
            fprintf(f, "%.400f", x); i += 8;
        } else fputc(d[i++], f);
    }
    fclose(f);
}
int vf_exists(const char *p) { return access(p, F_OK) == 0; }
char *vf_data(const char *p, u64 *n) { char *b; if (!strcmp(p, "<stdout>")) p = "stdout.txt"; if (!strcmp(p, "<stderr>")) p = "stderr.txt"; b = sx_host_file(p, n); if (!b) *n = 0; return b; }
void vf_remove(const char *p) { if (!strcmp(p, "<stdout>")) p = "stdout.txt"; if (!strcmp(p, "<stderr>")) p = "stderr.txt"; unlink(p); }
static char stdinpath[200];
void vf_stdin(const char *p) { snprintf(stdinpath, 200, "%s", p); }
static int world;
void sx_heap_down(int on) { world = on; }
int d_run_lacc(int argc, char **argv) {
    int st, k; pid_t p = fork(); char *v[40]; (void)argc;
    if (!p) {
        struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        if (stdinpath[0]) freopen(stdinpath, "r", stdin); else freopen("/dev/null", "r", stdin);
        freopen("stdout.txt", "a", stdout); freopen("stderr.txt", "a", stderr);
        if (getenv("REPLAY_EXECLOG")) { char b[12]; sprintf(b, "%d", vf_ld_rc); setenv("EXECLOG_RC", b, 1); setenv("LD_PRELOAD", getenv("REPLAY_EXECLOG"), 1); }
        for (k = 0; argv[k]; k++) v[k] = argv[k];
        v[k] = 0; v[0] = getenv("REPLAY_LACC");
        if (getenv("REPLAY_LACC2")) { if (world) v[0] = getenv("REPLAY_LACC2"); setenv("LD_PRELOAD", getenv("REPLAY_DETMALLOC"), 1); setenv("DETMALLOC", world ? "1" : "0", 1); }
        execv(v[0], v); _exit(127);
    }
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { int s = WTERMSIG(st); snprintf(lasterr, 400, "compiler killed by signal %d", s); return s == SIGABRT ? 1001 : s == SIGXCPU || s == SIGKILL ? 1005 : 1002; }
    if (WEXITSTATUS(st) == 99) return 1002; /* sanitizer */
    return WEXITSTATUS(st);
}
#define MAXH 16
#include <link.h>
static void *handles[MAXH]; static int nhandles; static void *refh;
int d_load(const char *path) {
    char cmd[600], so[64]; static int k; void *h;
    sprintf(so, "./replay%d.so", k++);
    snprintf(cmd, sizeof cmd, "gcc -shared -Wl,-Bsymbolic -Wl,-z,noexecstack -o %s %s > link.txt 2>&1", so, path);
    if (system(cmd)) { system("head -3 link.txt"); return 1002; }
    h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
    if (!h) { printf("dlopen: %s\n", dlerror()); return 1002; }
    handles[nhandles++] = h; return 0;
}
int sx_elf_load(const void *p, u64 n) { sx_dump("mem.o", p, n); return d_load("mem.o"); }
/* functions of the object under test are entered through a thunk that checks the calling convention */
u64 sxt_side[16 * 512], *sxt_sp = sxt_side; int sxt_bad;
const u64 sxt_sent[6] = {0x1111aaaa00000001, 0x1111aaaa00000002, 0x1111aaaa00000003, 0x1111aaaa00000004, 0x1111aaaa00000005, 0x1111aaaa00000006};
void sxt_common(void);
__asm__(".globl sxt_common\nsxt_common:\n"
    "push %rax\n mov sxt_sp(%rip), %rax\n addq $128, sxt_sp(%rip)\n mov %r11, (%rax)\n mov %rbx, 8(%rax)\n mov %rbp, 16(%rax)\n mov %r12, 24(%rax)\n mov %r13, 32(%rax)\n mov %r14, 40(%rax)\n mov %r15, 48(%rax)\n"
    "mov 8(%rsp), %r11\n mov %r11, 56(%rax)\n lea 16(%rsp), %r11\n mov %r11, 64(%rax)\n mov (%rax), %r11\n pop %rax\n add $8, %rsp\n"
    "mov sxt_sent(%rip), %rbx\n mov sxt_sent+8(%rip), %rbp\n mov sxt_sent+16(%rip), %r12\n mov sxt_sent+24(%rip), %r13\n mov sxt_sent+32(%rip), %r14\n mov sxt_sent+40(%rip), %r15\n"
    "call *%r11\n"
    "mov sxt_sp(%rip), %r11\n sub $128, %r11\n mov %r11, sxt_sp(%rip)\n"
    "cmp sxt_sent(%rip), %rbx\n jne 1f\n cmp sxt_sent+8(%rip), %rbp\n jne 1f\n cmp sxt_sent+16(%rip), %r12\n jne 1f\n cmp sxt_sent+24(%rip), %r13\n jne 1f\n cmp sxt_sent+32(%rip), %r14\n jne 1f\n cmp sxt_sent+40(%rip), %r15\n jne 1f\n cmp 64(%r11), %rsp\n je 2f\n"
    "1: movl $1, sxt_bad(%rip)\n2: cld\n mov 64(%r11), %rsp\n mov 8(%r11), %rbx\n mov 16(%r11), %rbp\n mov 24(%r11), %r12\n mov 32(%r11), %r13\n mov 40(%r11), %r14\n mov 48(%r11), %r15\n push 56(%r11)\n ret\n");
void *sx_sym(const char *n) {
    static unsigned char *code; static int used; int i;
    for (i = nhandles; i-- > 0;) {
        void *p = dlsym(handles[i], n); Dl_info di; ElfW(Sym) *es = 0;
        if (!p) continue;
        if (dladdr1(p, &di, (void **)&es, RTLD_DL_SYMENT) && es && (es->st_info & 15) == 2) {
            unsigned char *c; void *t = (void *)sxt_common;
            if (!code) code = mmap(0, 1 << 16, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            c = code + 32 * used; if (used < 2040) used++;
            c[0] = 0x49; c[1] = 0xbb; memcpy(c + 2, &p, 8);                       /* mov $fn, %r11 */
            c[10] = 0xff; c[11] = 0x25; memset(c + 12, 0, 4); memcpy(c + 16, &t, 8); /* jmp *0(%rip) */
            return c;
        }
        return p;
    }
    return 0;
}
int d_conv_check(void) {
    unsigned env[7]; __asm__ volatile("fnstenv %0\n fldenv %0" : "+m"(env));
    if ((env[2] & 0xffff) != 0xffff) { snprintf(lasterr, 400, "x87 stack not empty"); __asm__ volatile("fninit"); return 1; }
    if ((env[0] & 0xc00) != 0) { snprintf(lasterr, 400, "x87 control word changed"); __asm__ volatile("fninit"); return 1; }
    if (sxt_bad) { sxt_bad = 0; snprintf(lasterr, 400, "callee-saved register or stack pointer not preserved"); return 1; }
    return 0;
}
void *sx_ref(const char *n) {
    if (!refh && getenv("REPLAY_REF")) { refh = dlopen(getenv("REPLAY_REF"), RTLD_NOW | RTLD_LOCAL); if (!refh) printf("%s\n", dlerror()); }
    return refh ? dlsym(refh, n) : 0;
}
void harness(void);
int main(void) { setvbuf(stdout, 0, _IONBF, 0); load_model(); installsig(); harness(); fflush(stdout); return failed; }
#define lacc_main lacc_main_unused
int lacc_main_unused(int c, char **v) { (void)c; (void)v; return 0; }
