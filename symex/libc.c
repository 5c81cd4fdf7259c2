/* Model of the part of libc that lacc needs, over a virtual file system. */
#include "sx.h"
#include <stdarg.h>
#define NULL ((void *)0)
typedef u64 size_t;
#define EOF (-1)

void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t); size_t strlen(const char *); int strcmp(const char *, const char *);
void exit(int); void abort(void);

static int errno_v;
int *__errno_location(void) { return &errno_v; }

/* ---- files */
struct vnode { char *path; char *data; u64 size, cap; };
typedef struct vfile { struct vnode *n; u64 pos; int write, eof, err, open; } FILE;
#define MAXV 96
static struct vnode vnodes[MAXV];
static int nvnodes;
int vf_host_ok, vf_fail_open, vf_exec_count;
static FILE f_stdin, f_stdout, f_stderr;
FILE *stdin = &f_stdin, *stdout = &f_stdout, *stderr = &f_stderr;

static struct vnode *vlookup(const char *path, int create) {
    int i; struct vnode *v;
    for (i = 0; i < nvnodes; i++)
        if (vnodes[i].path && !strcmp(vnodes[i].path, path)) return &vnodes[i];
    if (!create) return NULL;
    for (i = 0; i < nvnodes; i++) if (!vnodes[i].path) break;
    if (i == nvnodes) { if (nvnodes == MAXV) sx_unsupported("too many virtual files"); nvnodes++; }
    v = &vnodes[i];
    v->path = malloc(strlen(path) + 1);
    memcpy(v->path, path, strlen(path) + 1);
    v->data = malloc(64); v->cap = 64; v->size = 0;
    return v;
}
static void vput(struct vnode *v, const char *s, u64 n) {
    if (v->size + n + 1 > v->cap) {
        while (v->size + n + 1 > v->cap) v->cap *= 2;
        v->data = realloc(v->data, v->cap);
        if (!v->data) sx_unsupported("virtual file too big");
    }
    memcpy(v->data + v->size, s, n);
    v->size += n;
}
void vf_write(const char *path, const char *data, u64 n) {
    struct vnode *v = vlookup(path, 1);
    v->size = 0; vput(v, data, n);
}
int vf_exists(const char *path) { return vlookup(path, 0) != NULL; }
char *vf_data(const char *path, u64 *n) {
    struct vnode *v = vlookup(path, 0);
    if (!v) { *n = 0; return NULL; }
    v->data[v->size] = 0; *n = v->size; return v->data;
}
void vf_remove(const char *path) {
    struct vnode *v = vlookup(path, 0);
    if (v) { free(v->path); free(v->data); v->path = NULL; v->data = NULL; v->size = 0; }
}
void vf_stdin(const char *path) { f_stdin.n = vlookup(path, 1); f_stdin.pos = 0; f_stdin.eof = 0; }
static void stdio_init(FILE *f) {
    if (f->n) return;
    if (f == &f_stdin) f->n = vlookup("<stdin>", 1);
    else if (f == &f_stdout) { f->n = vlookup("<stdout>", 1); f->write = 1; }
    else if (f == &f_stderr) { f->n = vlookup("<stderr>", 1); f->write = 1; }
}
FILE *fopen(const char *path, const char *mode) {
    struct vnode *v; FILE *f;
    if (mode[0] == 'r') {
        v = vlookup(path, 0);
        if (!v && vf_host_ok) {
            u64 n; char *d = sx_host_file(path, &n);
            if (d) { v = vlookup(path, 1); vput(v, d, n); free(d); }
        }
        if (!v) { errno_v = 2; return NULL; }
    } else {
        if (vf_fail_open) { errno_v = 13; return NULL; }
        v = vlookup(path, 1);
        if (mode[0] == 'w') v->size = 0;
    }
    f = calloc(1, sizeof *f);
    f->n = v; f->write = mode[0] != 'r'; f->open = 1;
    return f;
}
int fclose(FILE *f) {
    if (f == &f_stdin || f == &f_stdout || f == &f_stderr) return 0;
    free(f); return 0;
}
int fflush(FILE *f) { (void)f; return 0; }
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
size_t fread(void *p, size_t sz, size_t cnt, FILE *f) {
    u64 n = sz * cnt, left;
    stdio_init(f);
    if (!n) return 0;
    left = f->n->size - f->pos;
    if (n > left) { n = left; f->eof = 1; }
    memcpy(p, f->n->data + f->pos, n);
    f->pos += n;
    return n / sz;
}
int fgetc(FILE *f) { u8 c; return fread(&c, 1, 1, f) == 1 ? c : EOF; }
int getc(FILE *f) { return fgetc(f); }
char *fgets(char *s, int n, FILE *f) {
    int i = 0, c;
    while (i < n - 1) { c = fgetc(f); if (c == EOF) break; s[i++] = c; if (c == '\n') break; }
    if (!i) return NULL;
    s[i] = 0; return s;
}
size_t fwrite(const void *p, size_t sz, size_t cnt, FILE *f) { stdio_init(f); vput(f->n, p, sz * cnt); return cnt; }
int fputc(int c, FILE *f) { char b = c; stdio_init(f); vput(f->n, &b, 1); return (u8)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { stdio_init(f); u64 n = strlen(s); vput(f->n, s, n); return (int)n; }
int puts(const char *s) { int n = fputs(s, stdout); fputc('\n', stdout); return n + 1; }
int fseek(FILE *f, long off, int wh) {
    if (wh == 0) f->pos = off; else if (wh == 1) f->pos += off; else f->pos = f->n->size + off;
    f->eof = 0; return 0;
}
long ftell(FILE *f) { return f->pos; }
void rewind(FILE *f) { f->pos = 0; f->eof = 0; }
int remove(const char *p) { vf_remove(p); return 0; }
int unlink(const char *p) { vf_remove(p); return 0; }

/* ---- formatted output */
struct sink { FILE *f; char *b; u64 n, lim; };
static void emit(struct sink *s, const char *p, u64 n) {
    u64 i;
    if (s->f) vput(s->f->n, p, n);
    else for (i = 0; i < n; i++) if (s->n + i + 1 < s->lim) s->b[s->n + i] = p[i];
    s->n += n;
}
static void pad(struct sink *s, int n, char c) { while (n-- > 0) emit(s, &c, 1); }
static int utoa(u64 v, unsigned base, int upper, char *out) {
    char t[70]; int n = 0, i;
    if (sx_is_symbolic(v)) v = sx_concretize(v);
    do { t[n++] = (upper ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } while (v);
    for (i = 0; i < n; i++) out[i] = t[n - 1 - i];
    return n;
}
static int doprint(struct sink *s, const char *fmt, va_list ap) {
    for (; *fmt; fmt++) {
        int left = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, lng = 0, ld = 0, n = 0, neg = 0;
        char num[80]; const char *p; char c; u64 v;
        if (*fmt != '%') { const char *q = fmt; while (q[1] && q[1] != '%') q++; emit(s, fmt, q - fmt + 1); fmt = q; continue; }
        for (fmt++;; fmt++) {
            if (*fmt == '-') left = 1; else if (*fmt == '0') zero = 1; else if (*fmt == '+') plus = 1;
            else if (*fmt == ' ') space = 1; else if (*fmt == '#') alt = 1; else break;
        }
        if (*fmt == '*') { width = va_arg(ap, int); fmt++; if (width < 0) { left = 1; width = -width; } }
        else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + *fmt++ - '0';
        if (*fmt == '.') { prec = 0; fmt++; if (*fmt == '*') { prec = va_arg(ap, int); fmt++; } else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + *fmt++ - '0'; }
        for (;; fmt++) { if (*fmt == 'l' || *fmt == 'z' || *fmt == 'j' || *fmt == 't') lng++; else if (*fmt == 'h') lng--; else if (*fmt == 'L') ld = 1; else break; }
        switch (*fmt) {
        case '%': emit(s, "%", 1); break;
        case 'c': c = va_arg(ap, int); if (!left) pad(s, width - 1, ' '); emit(s, &c, 1); if (left) pad(s, width - 1, ' '); break;
        case 's':
            p = va_arg(ap, const char *); if (!p) p = "(null)";
            if (prec >= 0) { while (n < prec && p[n]) n++; } else n = strlen(p);
            if (!left) pad(s, width - n, ' ');
            emit(s, p, n);
            if (left) pad(s, width - n, ' ');
            break;
        case 'd': case 'i':
            v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int);
            if (lng == -1) v = (short)v; else if (lng == -2) v = (signed char)v;
            if (sx_is_symbolic(v)) { if (s->f == stderr) { emit(s, "(value)", 7); break; } v = sx_concretize(v); }
            if ((long)v < 0) { neg = 1; v = -v; }
            n = utoa(v, 10, 0, num); goto number;
        case 'u': case 'x': case 'X': case 'o': case 'p':
            v = lng > 0 || *fmt == 'p' ? va_arg(ap, u64) : va_arg(ap, u32);
            if (lng == -1) v = (u16)v; else if (lng == -2) v = (u8)v;
            if (*fmt == 'o' && zero && width == 3 && sx_is_symbolic(v) && v <= 0777) { num[0] = '0' + (v >> 6); num[1] = '0' + (v >> 3 & 7); num[2] = '0' + (v & 7); emit(s, num, 3); break; }
            if (sx_is_symbolic(v) && s->f == stderr) { emit(s, "(value)", 7); break; } /* only the text of a diagnostic */
            n = utoa(v, *fmt == 'u' ? 10 : *fmt == 'o' ? 8 : 16, *fmt == 'X', num);
            plus = space = 0;
        number: {
            char pre[3]; int np = 0, zeros = 0;
            if (neg) pre[np++] = '-'; else if (plus) pre[np++] = '+'; else if (space) pre[np++] = ' ';
            if ((alt && v && (*fmt == 'x' || *fmt == 'X')) || *fmt == 'p') { pre[np++] = '0'; pre[np++] = *fmt == 'X' ? 'X' : 'x'; }
            if (prec >= 0) zeros = prec - n; else if (zero && !left) zeros = width - np - n;
            if (zeros < 0) zeros = 0;
            if (!left) pad(s, width - np - n - zeros, ' ');
            emit(s, pre, np); pad(s, zeros, '0'); emit(s, num, n);
            if (left) pad(s, width - np - n - zeros, ' ');
            break; }
        case 'f': case 'g': case 'e':
            { char spec[16], out[400]; int k = 0; long double l; double d; void *q;
              spec[k++] = '%'; if (left) spec[k++] = '-'; if (plus) spec[k++] = '+'; if (space) spec[k++] = ' '; if (zero) spec[k++] = '0'; if (alt) spec[k++] = '#';
              if (width) { if (width > 99) width = 99; spec[k++] = '0' + width / 10; spec[k++] = '0' + width % 10; if (spec[k-2] == '0') { spec[k-2] = spec[k-1]; k--; } }
              if (prec >= 0) { spec[k++] = '.'; if (prec > 99) prec = 99; spec[k++] = '0' + prec / 10; spec[k++] = '0' + prec % 10; }
              if (ld) { spec[k++] = 'L'; l = va_arg(ap, long double); q = &l; } else { d = va_arg(ap, double); q = &d; }
              spec[k++] = *fmt; spec[k] = 0;
              sx_fmt(out, 400, spec, q, ld);
              emit(s, out, strlen(out)); break; }
        default: sx_unsupported("printf format");
        }
    }
    return (int)s->n;
}
int vfprintf(FILE *f, const char *fmt, va_list ap) { struct sink s = {f, 0, 0, 0}; stdio_init(f); return doprint(&s, fmt, ap); }
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int printf(const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int vsnprintf(char *b, size_t n, const char *fmt, va_list ap) {
    struct sink s = {0, b, 0, n}; int r = doprint(&s, fmt, ap);
    if (n) b[(u64)r < n ? (u64)r : n - 1] = 0;
    return r;
}
int vsprintf(char *b, const char *fmt, va_list ap) { return vsnprintf(b, 1ul << 40, fmt, ap); }
int sprintf(char *b, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vsprintf(b, fmt, ap); va_end(ap); return r; }
int snprintf(char *b, size_t n, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
void perror(const char *s) { fprintf(stderr, "%s: error\n", s); }

/* ---- ctype: domain checked the way glibc's table lookup requires */
static void ctdom(int c) { if (c < -128 || c > 255) abort(); }
int isdigit(int c) { ctdom(c); return c >= '0' & c <= '9'; }
int isupper(int c) { ctdom(c); return c >= 'A' & c <= 'Z'; }
int islower(int c) { ctdom(c); return c >= 'a' & c <= 'z'; }
int isalpha(int c) { ctdom(c); return (c >= 'A' & c <= 'Z') | (c >= 'a' & c <= 'z'); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { ctdom(c); return (c >= '0' & c <= '9') | (c >= 'A' & c <= 'F') | (c >= 'a' & c <= 'f'); }
int isspace(int c) { ctdom(c); return (c == ' ') | (c >= 9 & c <= 13); }
int isprint(int c) { ctdom(c); return c >= 32 & c < 127; }
int isgraph(int c) { ctdom(c); return c > 32 & c < 127; }
int iscntrl(int c) { ctdom(c); return (c >= 0 & c < 32) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int tolower(int c) { ctdom(c); return (int)sx_smt_ite(c >= 'A' & c <= 'Z', (u32)(c + 32), (u32)c); }
int toupper(int c) { ctdom(c); return (int)sx_smt_ite(c >= 'a' & c <= 'z', (u32)(c - 32), (u32)c); }

/* ---- strings */
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strcat(char *d, const char *s) { memcpy(d + strlen(d), s, strlen(s) + 1); return d; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char *strncat(char *d, const char *s, size_t n) {
    char *p = d + strlen(d); size_t i;
    for (i = 0; i < n && s[i]; i++) p[i] = s[i];
    p[i] = 0; return d;
}
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strchr(const char *s, int c) {
    for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; }
}
char *strrchr(const char *s, int c) {
    char *r = NULL;
    for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; }
}
void *memchr(const void *p, int c, size_t n) { const u8 *s = p; for (; n--; s++) if (*s == (u8)c) return (void *)s; return NULL; }
size_t strspn(const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char *strstr(const char *h, const char *n) {
    size_t l = strlen(n), i;
    for (;; h++) { for (i = 0; i < l && h[i] == n[i]; i++) ; if (i == l) return (char *)h; if (!*h) return NULL; }
}
char *strdup(const char *s) { char *p = malloc(strlen(s) + 1); return strcpy(p, s); }
char *strerror(int e) { (void)e; return "error"; }

/* ---- numbers */
static int digitval(int c, int base) {
    /* one fork only: is it a digit of this base */
    u32 v;
    int isd = c >= '0' & c <= '9', isl = c >= 'a' & c <= 'f', isu = c >= 'A' & c <= 'F';
    v = (u32)sx_smt_ite(isd, (u32)(c - '0'), sx_smt_ite(isl, (u32)(c - 'a' + 10), sx_smt_ite(isu, (u32)(c - 'A' + 10), 99)));
    return (int)v;
}
/* A decimal numeral 77000kk or a hexadecimal 0x77000kk stands for symbolic value kk. */
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
long labs(long x) { return x < 0 ? -x : x; }
static int magic(const char *s, int n, int base) {
    int k = 0, i;
    if (base == 8 && n == 8 && !sx_is_symbolic(s[0]) && s[0] == '0') { s++; n--; base = 10; }
    if (n != 7 || (base != 10 && base != 16)) return -1;
    for (i = 0; i < 7; i++) if (sx_is_symbolic(s[i])) return -1;
    if (s[0] != '7' || s[1] != '7' || s[2] != '0' || s[3] != '0' || s[4] != '0') return -1;
    if (s[5] < '0' || s[5] > '9' || s[6] < '0' || s[6] > '9') return -1;
    return (s[5] - '0') * 10 + s[6] - '0';
}
static u64 parse(const char *s, char **end, int base, int *neg, int *over, int *any) {
    const char *p = s, *d; u64 v = 0; int k;
    *neg = 0; *over = 0; *any = 0;
    while (isspace(*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit(p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    d = p;
    for (;;) {
        int x = digitval(*p, base); u64 t; int o;
        if (x >= base) break;
        *any = 1;
        o = v > (~0ul - (u64)x) / (u64)base;   /* exact for v*base+x > max */
        if (base == 16) o = v > (~0ul >> 4);
        else if (base == 8) o = v > (~0ul >> 3);
        else { o = (v > 1844674407370955161ul) | ((v == 1844674407370955161ul) & (x > 5)); }
        *over = *over | o;
        t = v * (u64)base + (u64)x; v = t;
        p++;
    }
    if (end) *end = (char *)(*any ? p : s);
    if ((k = magic(d, (int)(p - d), base)) >= 0) v = sx_magic(k);
    return v;
}
u64 strtoul(const char *s, char **end, int base) {
    int neg, over, any; u64 v = parse(s, end, base, &neg, &over, &any);
    if (over) { errno_v = 34; return ~0ul; }
    return neg ? -v : v;
}
long strtol(const char *s, char **end, int base) {
    int neg, over, any; u64 v = parse(s, end, base, &neg, &over, &any);
    if (neg) { if (over || v > 1ul << 63) { errno_v = 34; return (long)(1ul << 63); } return (long)-v; }
    if (over || v > ~0ul >> 1) { errno_v = 34; return (long)(~0ul >> 1); }
    return (long)v;
}
unsigned long long strtoull(const char *s, char **end, int base) { return strtoul(s, end, base); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
double strtod(const char *s, char **end) {
    u64 i; union { u64 u; double d; } u; 
    u.u = sx_strtod(s, end);
    for (i = 0; s[i]; i++) ;
    /* d77000kk.0 style numerals: 7.7000kk with exactly that spelling */
    if (s[0] == '7' && s[1] == '.' && s[2] == '7' && s[3] == '0' && s[4] == '0' && s[5] == '0' && s[6] >= '0' && s[6] <= '9' && s[7] >= '0' && s[7] <= '9')
        u.u = sx_magic((s[6] - '0') * 10 + s[7] - '0');
    return u.d;
}
int abs(int x) { return x < 0 ? -x : x; }

/* ---- process and time */
long time(long *t) { if (t) *t = 1000000000; return 1000000000; }
char *ctime(const long *t) { static char b[32]; (void)t; strcpy(b, "Sun Sep  9 01:46:40 2001\n"); return b; }
int vf_fork_child, vf_ld_rc;   /* run as the child: execvp records its arguments in "exec.txt" and ends with vf_ld_rc */
int fork(void) { vf_exec_count++; return vf_fork_child ? 0 : 1000; }
int execvp(const char *f, char *const argv[]) {
    struct vnode *v = vlookup("exec.txt", 1); int i;
    if (!vf_fork_child) sx_unsupported("execvp in the parent");
    v->size = 0; vput(v, f, strlen(f)); vput(v, "\n", 1);
    for (i = 0; argv[i]; i++) { vput(v, argv[i], strlen(argv[i])); vput(v, "\n", 1); }
    exit(vf_ld_rc); return -1;
}
int waitpid(int p, int *st, int o) { (void)o; if (st) *st = vf_ld_rc << 8; return p; }
int getpid(void) { return 1234; }
char *getenv(const char *n) { (void)n; return NULL; }
int access(const char *p, int m) { (void)m; return vf_exists(p) ? 0 : -1; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    size_t i, j, k; char *a = b, t;
    for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--)
        for (k = 0; k < sz; k++) { t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; }
}
