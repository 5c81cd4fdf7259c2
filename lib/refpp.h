/* A small reference preprocessor (C11 6.4, 6.10.3), used as the oracle on symbolic source text.
 * Hide sets are kept twice: hs (hidden in every reading of the standard) and hx (hidden in some);
 * a token for which they disagree ends the path, as does undefined behaviour. */
#ifndef REFPP_H
#define REFPP_H
enum { P_ID = 1, P_NUM, P_STR, P_CHR, P_PUN, P_PM };
typedef struct { u16 s, n; u8 k, ws; signed char p; u32 hs, hx; } PT;
typedef struct { PT name; int fn, np, va, nr, live; PT par[6], rep[40]; } PM_;
static char pool[6000]; static int pn;
static PM_ pmac[24]; static int npm;
static int rp_bad;                       /* 1: undefined or unspecified, 2: constraint violation */
#define RP_MAX 160
static void rp_stop(int k) { if (!rp_bad) rp_bad = k; }
static int rp_digraphs;                  /* recognized in C99 and later */
static int p_al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int p_dg(int c) { return c >= '0' && c <= '9'; }
/* length of the token at p (no white space before it), its kind in *k */
static int p_munch(const char *p, u8 *k) {
    static const char *const P3[] = { "...", "<<=", ">>=", 0 };
    static const char *const P2[] = { "##", "++", "--", "->", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", 0 };
    int n = 0, i;
    if (p_al(p[0])) { *k = P_ID; while (p_al(p[n]) || p_dg(p[n])) n++; return n; }
    if (p_dg(p[0]) || (p[0] == '.' && p_dg(p[1]))) {
        *k = P_NUM; n = 1;
        for (;;) {
            if ((p[n] == '+' || p[n] == '-') && (p[n - 1] == 'e' || p[n - 1] == 'E' || p[n - 1] == 'p' || p[n - 1] == 'P')) n++;
            else if (p_al(p[n]) || p_dg(p[n]) || p[n] == '.') n++;
            else return n;
        }
    }
    if (p[0] == '"' || p[0] == '\'') {
        char q = p[0]; *k = q == '"' ? P_STR : P_CHR; n = 1;
        while (p[n] && p[n] != '\n' && p[n] != q) { if (p[n] == '\\' && p[n + 1] && p[n + 1] != '\n') n++; n++; }
        if (p[n] != q) { rp_stop(1); return n; }
        if (q == '\'' && !(n == 2 && p[1] != '\\' || n == 3 && p[1] == '\\')) rp_stop(1);  /* empty and multi-character constants */
        return n + 1;
    }
    *k = P_PUN;
    if (rp_digraphs) {
        if (p[0] == '%' && p[1] == ':' && p[2] == '%' && p[3] == ':') return 4;
        if ((p[0] == '<' && (p[1] == ':' || p[1] == '%')) || (p[0] == ':' && p[1] == '>') || (p[0] == '%' && (p[1] == ':' || p[1] == '>'))) return 2;
    }
    for (i = 0; P3[i]; i++) if (p[0] == P3[i][0] && p[1] == P3[i][1] && p[2] == P3[i][2]) return 3;
    for (i = 0; P2[i]; i++) if (p[0] == P2[i][0] && p[1] == P2[i][1]) return 2;
    return 1;
}
static int p_is(PT t, int c) { return t.k == P_PUN && t.n == 1 && pool[t.s] == c; }
static int p_is2(PT t, const char *c) { return t.k == P_PUN && t.n == 2 && pool[t.s] == c[0] && pool[t.s + 1] == c[1]; }
static int p_same(PT a, PT b) { int i; if (a.n != b.n) return 0; for (i = 0; i < a.n; i++) if (pool[a.s + i] != pool[b.s + i]) return 0; return 1; }
/* tokens of the text [p, e), new-lines count as white space */
static int p_lex(const char *p, const char *e, PT *out) {
    int n = 0, ws = 0, i;
    while (p < e && !rp_bad) {
        PT t = { 0 };
        if (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\v' || *p == '\f') { ws = 1; p++; continue; }
        if (p[0] == '/' && (p[1] == '/' || p[1] == '*')) { rp_stop(1); break; }
        t.n = p_munch(p, &t.k); t.ws = ws; t.p = -1; ws = 0; t.s = pn;
        if (n >= RP_MAX - 1 || pn + t.n > sizeof pool) { rp_stop(1); break; }
        for (i = 0; i < t.n; i++) pool[pn++] = p[i];
        p += t.n; out[n++] = t;
    }
    return n;
}
static int p_find(PT t) { int i; for (i = npm - 1; i >= 0; i--) if (pmac[i].live && p_same(pmac[i].name, t)) return i; return -1; }
static void p_undef(PT t) { int i; for (i = 0; i < npm; i++) if (pmac[i].live && p_same(pmac[i].name, t)) pmac[i].live = 0; }
static PT p_lit(const char *s, int k) { PT t = { 0 }; t.s = pn; t.k = k; t.p = -1; while (*s) { pool[pn++] = *s++; t.n++; } return t; }
/* text after "#define " */
static void p_define(const char *p, const char *e) {
    static PT b[RP_MAX]; int n = p_lex(p, e, b), i = 1, k, o; PM_ *m = &pmac[npm];
    if (rp_bad) return;
    if (!n || b[0].k != P_ID || npm >= 24) { rp_stop(2); return; }
    m->name = b[0]; m->fn = m->np = m->va = m->nr = 0; m->live = 0;
    if (n > 1 && p_is(b[1], '(') && !b[1].ws) {
        m->fn = 1; i = 2;
        if (i < n && p_is(b[i], ')')) i++;
        else for (;;) {
            if (i + 1 >= n || m->np >= 6 || m->va) { rp_stop(2); return; }
            if (b[i].k == P_ID) { for (k = 0; k < m->np; k++) if (p_same(m->par[k], b[i])) { rp_stop(2); return; } m->par[m->np++] = b[i]; }
            else if (b[i].k == P_PUN && b[i].n == 3 && pool[b[i].s] == '.') { m->par[m->np++] = p_lit("__VA_ARGS__", P_ID); m->va = 1; }
            else { rp_stop(2); return; }
            i++;
            if (p_is(b[i], ')')) { i++; break; }
            if (!p_is(b[i], ',')) { rp_stop(2); return; }
            i++;
        }
    } else if (n > 1 && !b[1].ws) { rp_stop(1); return; }
    if (n - i > 40) { rp_stop(1); return; }
    for (; i < n; i++) { PT t = b[i]; if (t.k == P_ID) for (k = 0; k < m->np; k++) if (p_same(m->par[k], t)) t.p = k; m->rep[m->nr++] = t; }
    if (m->nr) m->rep[0].ws = 0;
    for (i = 0; i < m->nr; i++) {
        if (m->fn && p_is(m->rep[i], '#') && (i + 1 == m->nr || m->rep[i + 1].p < 0)) { rp_stop(2); return; }
        if (i && p_is2(m->rep[i], "##") && p_is2(m->rep[i - 1], "##")) { rp_stop(1); return; }
        if (p_is2(m->rep[i], "##") && (i == 0 || i + 1 == m->nr)) { rp_stop(2); return; }
    }
    o = p_find(m->name);
    if (o >= 0) {
        PM_ *q = &pmac[o]; int ok = q->fn == m->fn && q->np == m->np && q->va == m->va && q->nr == m->nr;
        for (i = 0; ok && i < m->nr; i++) ok = (q->rep[i].p >= 0 ? q->rep[i].p == m->rep[i].p : p_same(q->rep[i], m->rep[i])) && q->rep[i].ws == m->rep[i].ws;
        for (i = 0; ok && i < m->np; i++) if (!p_same(q->par[i], m->par[i])) { rp_stop(1); return; }
        if (!ok) { rp_stop(2); return; }
    }
    m->live = 1; npm++;
}
static PT p_string(const PT *a, int n) {
    PT t = { 0 }; int i, j; t.k = P_STR; t.p = -1; t.s = pn; pool[pn++] = '"';
    for (i = 0; i < n; i++) {
        if (i && a[i].ws == 2) rp_stop(1);
        if (i && a[i].ws) pool[pn++] = ' ';
        for (j = 0; j < a[i].n; j++) { char c = pool[a[i].s + j]; if ((a[i].k == P_STR || a[i].k == P_CHR) && (c == '"' || c == '\\')) pool[pn++] = '\\'; pool[pn++] = c; if (pn > sizeof pool - 40) { rp_stop(1); return t; } }
    }
    for (i = 0; i < n; i++) if (p_is(a[i], '\\')) rp_stop(1);   /* not a valid string literal */
    pool[pn++] = '"'; t.n = pn - t.s; return t;
}
static PT p_paste(PT l, PT r) {
    PT t = l; int i; u8 k;
    if (l.k == P_PM) { r.ws = l.ws; return r; } if (r.k == P_PM) return l;
    t.s = pn; t.n = l.n + r.n; t.p = -1; t.hs = l.hs & r.hs; t.hx = l.hx | r.hx;
    for (i = 0; i < l.n; i++) pool[pn++] = pool[l.s + i];
    for (i = 0; i < r.n; i++) pool[pn++] = pool[r.s + i];
    pool[pn] = 0;
    if (pool[t.s] == '/' && (pool[t.s + 1] == '/' || pool[t.s + 1] == '*')) { rp_stop(1); return t; }
    if (p_munch(pool + t.s, &k) != t.n) rp_stop(1);
    t.k = k; pn++;
    return t;
}
typedef struct { PT t[RP_MAX]; int n; } PL;
static int p_expand(const PT *in, int n, PT *out);
static int p_subst(PM_ *m, PL *raw, PT *out, u32 hs, u32 hx, int ws) {
    static PL full[4][6]; static int lev; PL *ex = full[lev & 3]; int done[6] = { 0 }, i, j, n = 0, k, glue = 0; u8 pend = 0;
    if (lev >= 4) { rp_stop(1); return 0; }
    for (i = 0; i < m->nr && !rp_bad; i++) {
        PT t = m->rep[i]; int before = i && p_is2(m->rep[i - 1], "##"), after = i + 1 < m->nr && p_is2(m->rep[i + 1], "##");
        PT one; const PT *src = &one; int len = 1; one = t;
        if (p_is2(t, "##") && i && i + 1 < m->nr) { glue = 1; continue; }
        if (m->fn && p_is(t, '#')) { i++; one = p_string(raw[m->rep[i].p].t, raw[m->rep[i].p].n); one.ws = t.ws; after = i + 1 < m->nr && p_is2(m->rep[i + 1], "##"); }
        else if (t.p >= 0) {
            PL *a = &raw[t.p];
            if (before && t.p == m->np - 1 && m->va && i >= 2 && p_is(m->rep[i - 2], ',')) rp_stop(1);  /* GNU comma */
            if (before || after) { src = a->t; len = a->n; if (!len) { one.k = P_PM; one.n = 0; src = &one; len = 1; } }
            else { if (!done[t.p]) { lev++; ex[t.p].n = p_expand(a->t, a->n, ex[t.p].t); lev--; done[t.p] = 1; } src = ex[t.p].t; len = ex[t.p].n; if (!len && t.ws) pend = 1; }
        }
        for (j = 0; j < len; j++) {
            PT u = src[j]; u.p = -1;
            if (!j) { if (t.p >= 0 || src == &one) u.ws = t.ws; }
            if (!j && pend && !u.ws) u.ws = 2;
            pend = 0;
            if (n >= RP_MAX - 1) { rp_stop(1); return 0; }
            if (!j && glue) { out[n - 1] = p_paste(out[n - 1], u); } else out[n++] = u;
        }
        glue = 0;
    }
    for (i = k = 0; i < n; i++) { if (out[i].k == P_PM) { if (out[i].ws && i + 1 < n && !out[i + 1].ws) out[i + 1].ws = 2; continue; } out[k] = out[i]; out[k].hs |= hs; out[k].hx |= hx; k++; }
    n = k;
    if (n) out[0].ws = ws;
    return n;
}
static int p_expand(const PT *in, int n, PT *out) {
    static PT stk[6][RP_MAX]; static PL args[6][6]; static PT res[6][RP_MAX]; static int lev;
    PT *st = stk[lev]; PL *a = args[lev]; PT *r = res[lev]; int sp = 0, i, no = 0, m, k, d, na, pend = 0, fuel = 400;
    if (lev >= 5) { rp_stop(1); return 0; }
    lev++;
    for (i = n - 1; i >= 0; i--) st[sp++] = in[i];
    while (sp && !rp_bad) {
        PT t = st[--sp]; u32 hs, hx;
        if (pend && !t.ws) t.ws = 2;
        pend = 0;
        if (!fuel--) { rp_stop(1); break; }
        if (no >= RP_MAX - 1) { rp_stop(1); break; }
        if (t.k != P_ID || (m = p_find(t)) < 0) { out[no++] = t; continue; }
        if (t.hs >> m & 1) { out[no++] = t; continue; }
        if (t.hx >> m & 1) { rp_stop(1); break; }
        hs = t.hs; hx = t.hx; k = sp;
        if (pmac[m].fn) {
            if (!sp || !p_is(st[sp - 1], '(')) { out[no++] = t; continue; }
            k = sp - 2; d = 1; na = 0; a[0].n = 0;
            for (;; k--) {
                if (k < 0) { rp_stop(2); break; }
                if (p_is(st[k], '(')) d++;
                if (p_is(st[k], ')') && !--d) break;
                if (p_is(st[k], ',') && d == 1 && !(pmac[m].va && na == pmac[m].np - 1)) { if (++na >= 6) { rp_stop(2); break; } a[na].n = 0; continue; }
                a[na].t[a[na].n++] = st[k];
            }
            if (rp_bad) break;
            na++;
            if (pmac[m].np == 0) { if (na != 1 || a[0].n) { rp_stop(2); break; } }
            else if (na != pmac[m].np) { rp_stop(2); break; }
            hs &= st[k].hs; hx |= st[k].hx;
        }
        i = p_subst(&pmac[m], a, r, hs | 1u << m, hx | 1u << m, t.ws);
        if (rp_bad) break;
        sp = k;
        if (!i && t.ws) pend = 1;
        if (sp + i >= RP_MAX - 1) { rp_stop(1); break; }
        while (i) st[sp++] = r[--i];
    }
    lev--;
    return rp_bad ? 0 : no;
}
/* translation phases 1 to 3: trigraphs, line splices, comments */
static void p_clean(const char *s, char *d) {
    static const char tf[] = "=(/)'<!>-", tt[] = "#[\\]^{|}~"; static char a[12000]; int n = 0, i, k; char q;
    while (*s) {
        if (s[0] == '?' && s[1] == '?') { for (k = 0; tf[k]; k++) if (s[2] == tf[k]) { a[n++] = tt[k]; s += 3; break; } if (tf[k]) continue; }
        a[n++] = *s++;
    }
    a[n] = 0;
    for (i = k = 0; a[i]; ) { if (a[i] == '\\' && a[i + 1] == '\n') { i += 2; continue; } a[k++] = a[i++]; }
    if (k < n && i != k && (!k || a[k - 1] != '\n')) rp_stop(1);      /* splice at the end of the file */
    a[k] = 0;
    for (i = 0; a[i]; ) {
        if (a[i] == '/' && a[i + 1] == '*') { i += 2; while (a[i] && !(a[i] == '*' && a[i + 1] == '/')) i++; if (!a[i]) { rp_stop(2); break; } i += 2; *d++ = ' '; continue; }
        if (a[i] == '/' && a[i + 1] == '/') { while (a[i] && a[i] != '\n') i++; continue; }
        if (a[i] == '"' || a[i] == '\'') {
            q = a[i]; *d++ = a[i++];
            while (a[i] && a[i] != '\n' && a[i] != q) { if (a[i] == '\\' && a[i + 1] && a[i + 1] != '\n') *d++ = a[i++]; *d++ = a[i++]; }
            if (a[i] != q) { rp_stop(1); break; }
        }
        *d++ = a[i++];
    }
    *d = 0;
}
/* a line that would be a directive */
static int p_directive(const char *s) {
    int bol = 1;
    for (; *s; s++) { if (*s == '\n') bol = 1; else if (bol && (*s == '#' || (rp_digraphs && *s == '%' && s[1] == ':'))) return 1; else if (*s != ' ' && *s != '\t') bol = 0; }
    return 0;
}
/* whole text: directives #define and #undef at the start of a line, everything else is expanded */
static int p_run(const char *s, PT *out) {
    static PT seg[RP_MAX]; const char *b = s; int no = 0;
    static const char std[] = "__STDC__ 1";
    pn = npm = rp_bad = 0;
    p_define(std, std + 10);
    while (!rp_bad) {
        const char *e = s; while (*e && *e != '\n') e++;
        if (*s == '#' || !*s) {
            if (s > b) { int n = p_lex(b, s, seg); if (!rp_bad) no += p_expand(seg, n, out + no); if (no > RP_MAX) rp_stop(1); }
            if (!*s) break;
            if (s[1] == 'd') p_define(s + 8, e); else { static PT u[RP_MAX]; int n = p_lex(s + 7, e, u); if (n != 1 || u[0].k != P_ID) rp_stop(2); else p_undef(u[0]); }
            b = *e ? e + 1 : e;
        }
        s = *e ? e + 1 : e;
    }
    return rp_bad ? 0 : no;
}
#endif
