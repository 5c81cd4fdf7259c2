#include "expr.hpp"
#include <algorithm>
#include <cmath>
std::vector<VarInfo> g_vars;
std::vector<Expr *> g_varExpr;

// ---------------------------------------------------------------- varsets
static std::unordered_map<uint64_t, std::vector<const VarSet *>> vsTab;
static const VarSet *internVS(std::vector<uint32_t> &&v) {
  uint64_t h = 1469598103934665603ull;
  for (auto x : v) { h ^= x; h *= 1099511628211ull; }
  auto &b = vsTab[h];
  for (auto p : b) if (p->v == v) return p;
  auto *n = new VarSet{std::move(v), h};
  b.push_back(n);
  return n;
}
static const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
struct PairHash { size_t operator()(const std::pair<const void *, const void *> &p) const {
  return (size_t)p.first * 0x9E3779B97F4A7C15ull ^ (size_t)p.second; } };
static std::unordered_map<std::pair<const void *, const void *>, const VarSet *, PairHash> unionCache;
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a > b) std::swap(a, b);
  auto &r = unionCache[{a, b}];
  if (r) return r;
  std::vector<uint32_t> v;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(v));
  r = internVS(std::move(v));
  return r;
}

// ---------------------------------------------------------------- consing
static std::vector<Expr *> tab(1 << 16, nullptr);
static size_t nexpr = 0;
size_t exprCount() { return nexpr; }
static inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
static uint64_t hashE(uint8_t op, uint8_t w, u128 val, Expr *a, Expr *b, Expr *c) {
  uint64_t h = op * 131 + w;
  h = mix(h, (uint64_t)val); h = mix(h, (uint64_t)(val >> 64));
  h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
  return h;
}
static Expr *pool = nullptr; static size_t poolLeft = 0;
static Expr *cons(Op op, unsigned w, u128 val, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
  uint64_t h = hashE(op, w, val, a, b, c);
  size_t m = tab.size() - 1, i = h & m;
  while (tab[i]) {
    Expr *e = tab[i];
    if (e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
    i = (i + 1) & m;
  }
  if (!poolLeft) { poolLeft = 4096; pool = (Expr *)calloc(poolLeft, sizeof(Expr)); }
  Expr *e = pool++; poolLeft--;
  e->op = op; e->w = w; e->val = val; e->a = a; e->b = b; e->c = c; e->id = nexpr++;
  const VarSet *vs = emptyVS();
  if (op == O_VAR) vs = internVS({(uint32_t)val});
  else { if (a) vs = unionVS(vs, a->vs); if (b) vs = unionVS(vs, b->vs); if (c) vs = unionVS(vs, c->vs); }
  e->vs = vs;
  e->fp = op >= O_FADD || (a && a->fp) || (b && b->fp) || (c && c->fp);
  tab[i] = e;
  if (nexpr * 2 > tab.size()) {
    std::vector<Expr *> nt(tab.size() * 2, nullptr);
    size_t nm = nt.size() - 1;
    for (auto p : tab) if (p) {
      size_t j = hashE(p->op, p->w, p->val, p->a, p->b, p->c) & nm;
      while (nt[j]) j = (j + 1) & nm;
      nt[j] = p;
    }
    tab.swap(nt);
  }
  return e;
}

Expr *mkConst(u128 v, unsigned w) { return cons(O_CONST, w, v & maskw(w)); }
Expr *mkVar(const std::string &name, unsigned w, bool undef) {
  g_vars.push_back({name, (uint8_t)w, undef});
  Expr *e = cons(O_VAR, w, g_vars.size() - 1);
  g_varExpr.push_back(e);
  return e;
}

// ---------------------------------------------------------------- semantics
static double toD(u128 v) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float toF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static long double toL(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 frD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 frF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static u128 frL(long double d) { u128 x = 0; memcpy(&x, &d, 10); return x; }

template <class T> static u128 f2si(T x, unsigned w) {
  if (w == 32) { if (x > (T)-2147483649.0 - (T)0 && x < (T)2147483648.0) { T t = std::trunc(x); if (t >= (T)-2147483648.0 && t <= (T)2147483647.0) return (u128)(uint32_t)(int32_t)t; } return 0x80000000u; }
  if (x >= (T)-9223372036854775808.0 && x < (T)9223372036854775808.0) return (u128)(uint64_t)(int64_t)x;
  return (u128)0x8000000000000000ull;
}
template <class T> static u128 f2ui(T x, unsigned w) {
  if (x > (T)-1 && x < (T)18446744073709551616.0) return (u128)(uint64_t)x;
  return (u128)0x8000000000000000ull;
}
template <class T> static u128 fcmpT(Op op, T x, T y) {
  switch (op) { case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y; default: return x != x || y != y; }
}
template <class T> static T farT(Op op, T x, T y) {
  volatile T a = x, b = y;
  switch (op) { case O_FADD: return a + b; case O_FSUB: return a - b; case O_FMUL: return a * b; default: return a / b; }
}
u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, u128 val, unsigned cw) {
  u128 m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m;
  case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case O_SREM: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case O_ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sx128(a, w) >> s) & m; }
  case O_EQ: return a == b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SLT: return sx128(a, aw) < sx128(b, aw);
  case O_SLE: return sx128(a, aw) <= sx128(b, aw);
  case O_ITE: return a ? b : c;
  case O_CONCAT: return ((a << cw) | b) & m;   // cw: width of low part
  case O_EXTRACT: return (a >> (unsigned)val) & m;
  case O_ZEXT: return a;
  case O_SEXT: return (u128)sx128(a, aw) & m;
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
    if (w == 32) return frF(farT<float>(op, toF(a), toF(b)));
    if (w == 64) return frD(farT<double>(op, toD(a), toD(b)));
    return frL(farT<long double>(op, toL(a), toL(b)));
  case O_FEQ: case O_FLT: case O_FLE: case O_FUNO:
    if (aw == 32) return fcmpT<float>(op, toF(a), toF(b));
    if (aw == 64) return fcmpT<double>(op, toD(a), toD(b));
    return fcmpT<long double>(op, toL(a), toL(b));
  case O_F2F: {
    long double x = aw == 32 ? (long double)toF(a) : aw == 64 ? (long double)toD(a) : toL(a);
    if (w == 32) return frF((float)x);
    if (w == 64) return frD((double)x);
    return frL(x); }
  case O_F2SI: return aw == 32 ? f2si<float>(toF(a), w) : aw == 64 ? f2si<double>(toD(a), w) : f2si<long double>(toL(a), w);
  case O_F2UI: return aw == 32 ? f2ui<float>(toF(a), w) : aw == 64 ? f2ui<double>(toD(a), w) : f2ui<long double>(toL(a), w);
  case O_SI2F: { int64_t x = (int64_t)sx128(a, aw); if (w == 32) return frF((float)x); if (w == 64) return frD((double)x); return frL((long double)x); }
  case O_UI2F: { uint64_t x = (uint64_t)a; if (w == 32) return frF((float)x); if (w == 64) return frD((double)x); return frL((long double)x); }
  default: fprintf(stderr, "evalOp %d\n", op); abort();
  }
}

static uint64_t g_stamp = 1;
static u128 evalRec(Expr *e, const Model &m) {
  if (e->op == O_CONST) return e->val;
  if (e->op == O_VAR) return (size_t)e->val < m.size() ? m[(size_t)e->val] : 0;
  if (e->stamp == g_stamp) return e->cache;
  u128 r;
  if (e->op == O_ITE) r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
  else r = evalOp((Op)e->op, e->w, e->a->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, 0, e->val, e->b ? e->b->w : 0);
  e->stamp = g_stamp; e->cache = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) { g_stamp++; return evalRec(e, m); }

static std::unordered_map<Expr *, Bits256> ttCache;
const Bits256 &truthTable(Expr *e) {
  auto it = ttCache.find(e);
  if (it != ttCache.end()) return it->second;
  Bits256 b = {0, 0, 0, 0};
  uint32_t v = e->vs->v[0];
  static Model m;
  if (m.size() <= v) m.resize(v + 1);
  unsigned n = 1u << g_vars[v].w;
  for (unsigned i = 0; i < n; i++) { m[v] = i; if (evalExpr(e, m)) b[i >> 6] |= 1ull << (i & 63); }
  m[v] = 0;
  return ttCache[e] = b;
}

// ---------------------------------------------------------------- simplifier
Expr *mkNot(Expr *a) { return mkBin(O_XOR, a, mkConst(maskw(a->w), a->w)); }

static bool isNot1(Expr *e) { return e->w == 1 && e->op == O_XOR && e->b->isc(); }

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (c->isc()) return c->val ? a : b;
  if (a == b) return a;
  if (isNot1(c)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a->isc() && b->isc()) return a->val ? c : mkNot(c);
    if (a->isc()) return a->val ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (b->isc()) return b->val ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->op == O_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->op == O_ITE && b->a == c) return mkIte(c, a, b->c);
  if (a->op == O_ITE && a->c == b) return mkIte(mkAnd1(c, a->a), a->b, b);
  if (b->op == O_ITE && b->b == a) return mkIte(mkOr1(c, b->a), a, b->c);
  return cons(O_ITE, a->w, 0, c, a, b);
}

Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
  if (a->isc()) return mkConst(a->val >> off, w);
  // memo for the recursive push-down cases
  struct Memo { Expr *a; unsigned off, w; Expr *r; };
  static std::vector<Memo> memo(1 << 16);
  bool rec = a->op == O_ITE || a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL;
  size_t mi = (a->id * 0x9E3779B1u ^ (off * 131 + w) * 2654435761u) & 0xffff;
  if (rec) { Memo &mm = memo[mi]; if (mm.a == a && mm.off == off && mm.w == w) return mm.r; }
  Expr *res = nullptr;
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->a, off + (unsigned)a->val, w);
  case O_CONCAT: {
    unsigned lw = a->b->w;
    if (off + w <= lw) return mkExtract(a->b, off, w);
    if (off >= lw) return mkExtract(a->a, off - lw, w);
    return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off)); }
  case O_ZEXT: {
    unsigned iw = a->a->w;
    if (off >= iw) return mkConst(0, w);
    if (off + w <= iw) return mkExtract(a->a, off, w);
    return mkZExt(mkExtract(a->a, off, iw - off), w); }
  case O_SEXT: {
    unsigned iw = a->a->w;
    if (off + w <= iw) return mkExtract(a->a, off, w);
    if (off < iw) return mkSExt(mkExtract(a->a, off, iw - off), w);
    return mkSExt(mkExtract(a->a, iw - 1, 1), w); }
  case O_ITE:
    res = mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    res = mkBin((Op)a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    break;
  case O_ADD: case O_SUB: case O_MUL:
    if (off == 0) res = mkBin((Op)a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  }
  if (!res) res = cons(O_EXTRACT, w, off, a);
  if (rec) memo[mi] = {a, off, w, res};
  return res;
}

Expr *mkZExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "bad zext\n"); abort(); }
  if (a->isc()) return mkConst(a->val, w);
  if (a->op == O_ZEXT) return mkZExt(a->a, w);
  if (a->op == O_ITE && (a->b->isc() || a->c->isc())) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return cons(O_ZEXT, w, 0, a);
}
static bool knownTopZero(Expr *a) {
  if (a->op == O_ZEXT) return true;
  if (a->isc()) return !((a->val >> (a->w - 1)) & 1);
  return false;
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->w > w) { fprintf(stderr, "bad sext\n"); abort(); }
  if (a->isc()) return mkConst((u128)sx128(a->val, a->w), w);
  if (a->op == O_SEXT) return mkSExt(a->a, w);
  if (knownTopZero(a)) return mkZExt(a, w);
  if (a->op == O_ITE && (a->b->isc() || a->c->isc())) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return cons(O_SEXT, w, 0, a);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) throw TooWide();
  if (hi->isc() && lo->isc()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->isc() && hi->val == 0) return mkZExt(lo, w);
  // right-associated: (x.y).z -> x.(y.z)
  if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == O_ZEXT && 0) return lo;
  // adjacent extracts
  auto tryMerge = [&](Expr *h, Expr *l) -> Expr * {
    if (h->isc() && l->isc()) return mkConst((h->val << l->w) | l->val, h->w + l->w);
    if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->a == l->a && (unsigned)h->val == (unsigned)l->val + l->w)
      return mkExtract(h->a, (unsigned)l->val, h->w + l->w);
    if (h->op == O_EXTRACT && h->a == l && (unsigned)h->val == l->w) return mkExtract(l, 0, h->w + l->w); // impossible unless l wider
    // sext(extract msb) over the value -> sext
    if (h->op == O_SEXT && h->a->w == 1) {
      Expr *bit = h->a;
      if (bit->op == O_EXTRACT && bit->a == l && (unsigned)bit->val == l->w - 1) return mkSExt(l, h->w + l->w);
      if (l->op == O_EXTRACT && bit->op == O_EXTRACT && bit->a == l->a && (unsigned)bit->val == (unsigned)l->val + l->w - 1) return mkSExt(l, h->w + l->w);
      if (l == bit) return mkSExt(l, h->w + l->w);
    }
    if (h->op == O_EXTRACT && h->w == 1 && l->op == O_EXTRACT) {
      // repeated msb
    }
    // sext(x) split:  extract(hi of sext(x)) . extract(lo of sext(x)) already normalised to sext(ext).x
    if (h->op == O_SEXT && h->a->op == O_EXTRACT && l->op == O_EXTRACT && h->a->a == l->a && (unsigned)h->a->val == (unsigned)l->val + l->w)
      return mkSExt(mkExtract(l->a, (unsigned)l->val, h->a->w + l->w), h->w + l->w);
    if (h->op == O_ZEXT && h->a->op == O_EXTRACT && l->op == O_EXTRACT && h->a->a == l->a && (unsigned)h->a->val == (unsigned)l->val + l->w)
      return mkZExt(mkExtract(l->a, (unsigned)l->val, h->a->w + l->w), h->w + l->w);
    if (h->op == O_ITE && l->op == O_ITE && h->a == l->a)
      return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    if ((h->op == l->op) && (h->op == O_AND || h->op == O_OR || h->op == O_XOR)) {
      // reassemble bitwise ops of split words
      Expr *ha = h->a, *hb = h->b, *la = l->a, *lb = l->b;
      auto adj = [](Expr *x, Expr *y) { return (x->isc() && y->isc()) || (x->op == O_EXTRACT && y->op == O_EXTRACT && x->a == y->a && (unsigned)x->val == (unsigned)y->val + y->w); };
      if (adj(ha, la) && adj(hb, lb)) return mkBin((Op)h->op, mkConcat(ha, la), mkConcat(hb, lb));
    }
    return nullptr;
  };
  if (Expr *m = tryMerge(hi, lo)) return m;
  if (lo->op == O_CONCAT) {
    if (Expr *m = tryMerge(hi, lo->a)) return mkConcat(m, lo->b);
  }
  if (hi->op == O_ZEXT) { // 0.x . lo -> 0 . (x.lo)
    return mkZExt(mkConcat(hi->a, lo), w);
  }
  return cons(O_CONCAT, w, 0, hi, lo);
}

static bool commutes(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ || op == O_FADD || op == O_FMUL || op == O_FEQ || op == O_FUNO; }
static int contiguousLow(u128 v) { // v == 2^k - 1 ? k : -1
  if (v == 0 || (v & (v + 1))) return -1;
  int k = 0; while (v) { k++; v >>= 1; } return k;
}
static unsigned zextBits(Expr *e) { // number of significant low bits (rest known zero)
  if (e->op == O_ZEXT) return e->a->w;
  if (e->isc()) { u128 v = e->val; unsigned k = 0; while (v) { k++; v >>= 1; } return k; }
  return e->w;
}
static unsigned sextBits(Expr *e) { // value fits in this many bits, signed
  if (e->op == O_SEXT) return e->a->w;
  if (e->op == O_ZEXT) return e->a->w + 1;
  if (e->isc()) { s128 v = sx128(e->val, e->w); unsigned k = 1; while (k < e->w && (v < -((s128)1 << (k - 1)) || v >= ((s128)1 << (k - 1)))) k++; return k; }
  return e->w;
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = a->w;
  bool cmp = (op >= O_EQ && op <= O_SLE) || (op >= O_FEQ && op <= O_FUNO);
  unsigned rw = cmp ? 1 : w;
  if (a->isc() && b->isc()) return mkConst(evalOp(op, rw, w, a->val, b->val, 0, 0, w), rw);
  if (commutes(op) && (a->isc() || (!b->isc() && a->id > b->id))) std::swap(a, b);
  if (op >= O_FEQ && op <= O_FUNO) {
    // comparisons survive exact conversions: compare in the narrowest exact format
    auto exactInt = [](Expr *e) { // the integer this value is, exactly
      if (e->op != O_SI2F) return (Expr *)nullptr;
      Expr *x = e->a; unsigned bits = x->op == O_SEXT ? x->a->w : x->op == O_ZEXT ? x->a->w + 1 : x->w;
      unsigned man = e->w == 80 ? 64 : e->w == 64 ? 53 : 24;
      return bits <= man ? x : (Expr *)nullptr; };
    auto constInt = [](Expr *e) -> Expr * {
      if (!e->isc()) return nullptr;
      u128 i = evalOp(O_F2SI, 64, e->w, e->val, 0, 0, 0, 0);
      u128 back = evalOp(O_SI2F, e->w, 64, i, 0, 0, 0, 0);
      return evalOp(O_FEQ, 1, e->w, back, e->val, 0, 0, e->w) ? mkConst(i, 64) : nullptr; };
    if (op == O_FUNO && a != b) {
      auto finite = [](Expr *e) { return e->op == O_SI2F || (e->isc() && !evalOp(O_FUNO, 1, e->w, e->val, e->val, 0, 0, e->w) && (e->w == 80 ? (e->val >> 64 & 0x7fff) < 0x4100 : e->w == 64 ? (e->val >> 52 & 0x7ff) < 0x480 : (e->val >> 23 & 0xff) < 0xf0)); };
      auto noNan = [&](Expr *e) { while (e->op == O_F2F) e = e->a; return finite(e) || ((e->op == O_FADD || e->op == O_FSUB || e->op == O_FMUL) && finite(e->a) && finite(e->b)); };
      bool na = noNan(a), nb = noNan(b);
      if (na && nb) return mkConst(0, 1);
      if (na) return mkBin(O_FUNO, b, b);
      if (nb) return mkBin(O_FUNO, a, a);
    }
    Expr *ia = exactInt(a), *ib = exactInt(b);
    if (ia || ib) {
      if (op == O_FUNO && ia && ib) return mkConst(0, 1);
      if (op == O_FUNO) { Expr *o = ia ? b : a; if (!(o->isc()) && !(ia ? ib : ia)) { if (a != o || b != o) return mkBin(O_FUNO, o, o); } }
      else {
        if (!ia) ia = constInt(a);
        if (!ib) ib = constInt(b);
        if (ia && ib) return mkBin(op == O_FEQ ? O_EQ : op == O_FLT ? O_SLT : O_SLE, ia, ib);
      }
    }
    auto inner = [](Expr *e, unsigned w) -> Expr * {
      if (e->op == O_F2F && e->a->w <= w) return mkConv(O_F2F, e->a, w);
      if (e->isc()) { u128 n = evalOp(O_F2F, w, e->w, e->val, 0, 0, 0, 0); u128 b = evalOp(O_F2F, e->w, w, n, 0, 0, 0, 0); return b == e->val ? mkConst(n, w) : nullptr; }
      if (Expr *x = e->op == O_SI2F ? e->a : nullptr) { unsigned bits = x->op == O_SEXT ? x->a->w : x->op == O_ZEXT ? x->a->w + 1 : x->w; if (bits <= (w == 64 ? 53u : 24u)) return mkConv(O_SI2F, x, w); }
      return nullptr; };
    for (unsigned nw : {32u, 64u}) if (nw < w && !(a->isc() && b->isc())) { Expr *x = inner(a, nw), *y = x ? inner(b, nw) : nullptr; if (x && y) return mkBin(op, x, y); }
  }
  u128 M = maskw(w);
  bool bc = b->isc();
  switch (op) {
  case O_ADD:
    if (bc) {
      if (!b->val) return a;
      if (a->op == O_ADD && a->b->isc()) return mkBin(O_ADD, a->a, mkConst(a->b->val + b->val, w));
      if (a->op == O_SUB && a->a->isc()) return mkBin(O_SUB, mkConst(a->a->val + b->val, w), a->b);
      if (a->op == O_ITE && a->b->isc() && a->c->isc()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    } else {
      if (w == 1) return mkBin(O_XOR, a, b);
      if (a->op == O_ADD && a->b->isc()) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
      if (b->op == O_ADD && b->b->isc()) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
      if (b->op == O_SUB && b->b == a) return b->a;
      if (a->op == O_SUB && a->b == b) return a->a;
      if (b->op == O_SUB && b->a->isc() && b->a->val == 0) return mkBin(O_SUB, a, b->b);
      if (a->op == O_SUB && a->a->isc() && a->a->val == 0) return mkBin(O_SUB, b, a->b);
    }
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (bc) return mkBin(O_ADD, a, mkConst((u128)0 - b->val, w));
    if (w == 1) return mkBin(O_XOR, a, b);
    if (a->op == O_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (a->op == O_ADD && a->b->isc()) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
    if (b->op == O_ADD && b->b->isc()) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst((u128)0 - b->b->val, w));
    if (b->op == O_ADD && b->a == a) return mkBin(O_SUB, mkConst(0, w), b->b);
    if (b->op == O_ADD && b->b == a) return mkBin(O_SUB, mkConst(0, w), b->a);
    break;
  case O_MUL:
    if (bc) {
      if (!b->val) return b;
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(O_SHL, a, mkConst(k, w)); }
      if (a->op == O_MUL && a->b->isc()) return mkBin(O_MUL, a->a, mkConst(a->b->val * b->val, w));
      if (a->op == O_ADD && a->b->isc()) return mkBin(O_ADD, mkBin(O_MUL, a->a, b), mkConst(a->b->val * b->val, w));
    }
    if (w == 1) return mkBin(O_AND, a, b);
    break;
  case O_UDIV:
    if (bc && b->val == 1) return a;
    if (bc && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(O_LSHR, a, mkConst(k, w)); }
    { unsigned n = std::max(zextBits(a), zextBits(b)); if (bc && b->val && n < w && n > 0) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    break;
  case O_UREM:
    if (bc && b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_AND, a, mkConst(b->val - 1, w));
    { unsigned n = std::max(zextBits(a), zextBits(b)); if (bc && b->val && n < w && n > 0) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    break;
  case O_SDIV: if (bc && b->val == 1) return a; break;
  case O_SREM: if (bc && b->val == 1) return mkConst(0, w); break;
  case O_AND:
    if (a == b) return a;
    if (bc) {
      if (!b->val) return b;
      if (b->val == M) return a;
      int k = contiguousLow(b->val);
      if (k > 0) return mkZExt(mkExtract(a, 0, k), w);
      if (a->op == O_AND && a->b->isc()) return mkBin(O_AND, a->a, mkConst(a->b->val & b->val, w));
      // general mask with few runs: split into concat of pieces
      { unsigned runs = 0; u128 v = b->val; int last = -1; for (unsigned i = 0; i < w; i++) { int bit = (int)((v >> i) & 1); if (bit != last) { runs++; last = bit; } }
        if (runs <= 4) {
          Expr *r = nullptr; unsigned i = 0;
          while (i < w) { int bit = (int)((v >> i) & 1); unsigned j = i; while (j < w && (int)((v >> j) & 1) == bit) j++;
            Expr *p = bit ? mkExtract(a, i, j - i) : mkConst(0, j - i); r = r ? mkConcat(p, r) : p; i = j; }
          return r; } }
    }
    if (w == 1) { if (isNot1(a) && a->a == b) return mkConst(0, 1); if (isNot1(b) && b->a == a) return mkConst(0, 1);
      if (a->op == O_AND && (a->a == b || a->b == b)) return a;
      if (b->op == O_AND && (b->a == a || b->b == a)) return b; }
    if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); if (n < w) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    if (a->op == O_CONCAT || b->op == O_CONCAT) {
      Expr *c = a->op == O_CONCAT ? a : b; unsigned lw = c->b->w;
      return mkConcat(mkBin(op, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkBin(op, mkExtract(a, 0, lw), mkExtract(b, 0, lw))); }
    if (a->op == O_ZEXT || b->op == O_ZEXT) { Expr *z = a->op == O_ZEXT ? a : b; unsigned n = z->a->w; return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    break;
  case O_OR: case O_XOR:
    if (a == b) return op == O_OR ? a : mkConst(0, w);
    if (bc) {
      if (!b->val) return a;
      if (op == O_OR && b->val == M) return b;
      if (op == O_XOR && a->op == O_XOR && a->b->isc()) return mkBin(O_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      if (w == 1 && op == O_XOR) { // not
        if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a);
        if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
        if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a);
        if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a);
      }
      if (a->op == O_ITE && a->b->isc() && a->c->isc()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (op == O_OR) { unsigned runs = 0; u128 v = b->val; int last = -1; for (unsigned i = 0; i < w; i++) { int bit = (int)((v >> i) & 1); if (bit != last) { runs++; last = bit; } }
        if (runs <= 4 && w > 1) {
          Expr *r = nullptr; unsigned i = 0;
          while (i < w) { int bit = (int)((v >> i) & 1); unsigned j = i; while (j < w && (int)((v >> j) & 1) == bit) j++;
            Expr *p = bit ? mkConst(maskw(j - i), j - i) : mkExtract(a, i, j - i); r = r ? mkConcat(p, r) : p; i = j; }
          return r; } }
    }
    if (w == 1 && op == O_OR) { if (isNot1(a) && a->a == b) return mkConst(1, 1); if (isNot1(b) && b->a == a) return mkConst(1, 1);
      if (a->op == O_OR && (a->a == b || a->b == b)) return a;
      if (b->op == O_OR && (b->a == a || b->b == a)) return b; }
    if (a->op == O_ZEXT && b->op == O_ZEXT) { unsigned n = std::max(a->a->w, b->a->w); if (n < w) return mkZExt(mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
    if (w > 1 && (a->op == O_CONCAT || b->op == O_CONCAT)) {
      Expr *c = a->op == O_CONCAT ? a : b; unsigned lw = c->b->w;
      return mkConcat(mkBin(op, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkBin(op, mkExtract(a, 0, lw), mkExtract(b, 0, lw))); }
    if (!bc && w > 1 && (a->op == O_ZEXT || b->op == O_ZEXT)) { Expr *z = a->op == O_ZEXT ? a : b; unsigned n = z->a->w;
      return mkConcat(mkBin(op, mkExtract(a, n, w - n), mkExtract(b, n, w - n)), mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n))); }
    break;
  case O_SHL:
    if (bc) { if (b->val >= w) return mkConst(0, w); unsigned k = (unsigned)b->val; if (!k) return a;
      return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k)); }
    break;
  case O_LSHR:
    if (bc) { if (b->val >= w) return mkConst(0, w); unsigned k = (unsigned)b->val; if (!k) return a;
      return mkZExt(mkExtract(a, k, w - k), w); }
    break;
  case O_ASHR:
    if (bc) { unsigned k = b->val >= w ? w - 1 : (unsigned)b->val; if (!k) return a;
      return mkSExt(mkExtract(a, k, w - k), w); }
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (bc) {
      if (w == 1) return b->val ? a : mkNot(a);
      switch (a->op) {
      case O_ZEXT: { unsigned n = a->a->w; if (b->val >> n) return mkConst(0, 1); return mkEq(a->a, mkConst(b->val, n)); }
      case O_SEXT: { unsigned n = a->a->w; u128 t = b->val & maskw(n); if (((u128)sx128(t, n) & M) != b->val) return mkConst(0, 1); return mkEq(a->a, mkConst(t, n)); }
      case O_ADD: if (a->b->isc()) return mkEq(a->a, mkConst(b->val - a->b->val, w)); break;
      case O_SUB: if (a->a->isc()) return mkEq(a->b, mkConst(a->a->val - b->val, w)); if (b->val == 0) return mkEq(a->a, a->b); break;
      case O_XOR: if (a->b->isc()) return mkEq(a->a, mkConst(a->b->val ^ b->val, w)); if (b->val == 0) return mkEq(a->a, a->b); break;
      case O_ITE: {
        Expr *x = a->b, *y = a->c;
        if (x->isc() || y->isc()) return mkIte(a->a, mkEq(x, b), mkEq(y, b));
        break; }
      case O_CONCAT: { unsigned lw = a->b->w; return mkAnd1(mkEq(a->a, mkConst(b->val >> lw, w - lw)), mkEq(a->b, mkConst(b->val, lw))); }
      }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == O_ADD && b->op == O_ADD) { if (a->b == b->b) return mkEq(a->a, b->a); if (a->a == b->a) return mkEq(a->b, b->b); }
      if (a->op == O_ADD && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, mkConst(0, w));
      if (b->op == O_ADD && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, mkConst(0, w));
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (w == 1) return mkNot(mkBin(O_XOR, a, b));
      if (a->op == O_ITE && b->op == O_ITE && a->a == b->a) return mkIte(a->a, mkEq(a->b, b->b), mkEq(a->c, b->c));
      if (b->op == O_ITE && (b->b == a || b->c == a)) return b->b == a ? mkOr1(b->a, mkEq(a, b->c)) : mkOr1(mkNot(b->a), mkEq(a, b->b));
      if (a->op == O_ITE && (a->b == b || a->c == b)) return a->b == b ? mkOr1(a->a, mkEq(b, a->c)) : mkOr1(mkNot(a->a), mkEq(b, a->b));
    }
    break;
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (bc && b->val == 0) return mkConst(0, 1);
    if (bc && b->val == 1) return mkEq(a, mkConst(0, w));
    if (a->isc() && a->val == M) return mkConst(0, 1);
    if (a->isc() && a->val == 0) return mkNot(mkEq(b, a));
    if (w == 1) return mkAnd1(mkNot(a), b);
    { unsigned n = std::max(zextBits(a), zextBits(b)); if (n < w && n > 0 && (a->op == O_ZEXT || b->op == O_ZEXT)) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)); }
    { unsigned n = std::max(sextBits(a), sextBits(b)); if (n < w && (a->op == O_SEXT || b->op == O_SEXT)) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)); }
    if (a->op == O_ITE && a->b->isc() && a->c->isc() && bc) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  case O_ULE:
    if (a == b) return mkConst(1, 1);
    if (bc && b->val == M) return mkConst(1, 1);
    if (a->isc() && a->val == 0) return mkConst(1, 1);
    if (bc) return mkBin(O_ULT, a, mkConst(b->val + 1, w));
    if (a->isc()) return mkBin(O_ULT, mkConst(a->val - 1, w), b);
    { unsigned n = std::max(zextBits(a), zextBits(b)); if (n < w && n > 0 && (a->op == O_ZEXT || b->op == O_ZEXT)) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)); }
    { unsigned n = std::max(sextBits(a), sextBits(b)); if (n < w && (a->op == O_SEXT || b->op == O_SEXT)) return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n)); }
    break;
  case O_SLT: case O_SLE:
    if (a == b) return mkConst(op == O_SLE, 1);
    { unsigned n = std::max(sextBits(a), sextBits(b));
      if (n < w && (a->op == O_SEXT || b->op == O_SEXT || a->op == O_ZEXT || b->op == O_ZEXT)) {
        // if both non-negative (zext) use unsigned compare
        if (knownTopZero(a) && knownTopZero(b)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
        return mkBin(op, mkExtract(a, 0, n), mkExtract(b, 0, n));
      }
      if (knownTopZero(a) && knownTopZero(b)) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    }
    if (bc && op == O_SLE) { if (b->val == (M >> 1)) return mkConst(1, 1); return mkBin(O_SLT, a, mkConst(b->val + 1, w)); }
    if (a->isc() && op == O_SLE) { if (a->val == (((u128)1) << (w - 1))) return mkConst(1, 1); return mkBin(O_SLT, mkConst(a->val - 1, w), b); }
    if (bc && b->val == (((u128)1) << (w - 1))) return mkConst(0, 1);
    if (bc && b->val == 0) return mkExtract(a, w - 1, 1);
    if (a->isc() && a->val == M) return mkNot(mkExtract(b, w - 1, 1));
    if (a->op == O_ITE && a->b->isc() && a->c->isc() && bc) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  case O_FUNO:
    if (a == b) break;
    break;
  default: break;
  }
  return cons(op, rw, 0, a, b);
}

Expr *mkConv(Op op, Expr *a, unsigned w) {
  if (op == O_F2F && a->w == w) return a;
  if (a->isc()) return mkConst(evalOp(op, w, a->w, a->val, 0, 0, 0, 0), w);
  if (op == O_UI2F && a->w < 64) return mkConv(O_SI2F, mkZExt(a, 64), w);
  if (op == O_UI2F && a->op == O_ZEXT) return mkConv(O_SI2F, a, w);
  if (op == O_SI2F) {
    if (a->w != 64) return mkConv(op, mkSExt(a, 64), w);
  }
  if ((op == O_F2SI || op == O_F2UI) && a->op == O_F2F && a->a->w < a->w) return mkConv(op, a->a, w);
  // exact round trip float -> wider -> float
  if (op == O_F2F && a->op == O_F2F && a->a->w <= w && a->w > a->a->w) return mkConv(O_F2F, a->a, w);
  return cons(op, w, 0, a);
}

std::string exprStr(Expr *e, int depth) {
  static const char *n[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "ext", "zx", "sx", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "funo", "f2f", "f2si", "f2ui", "si2f", "ui2f"};
  char buf[64];
  if (e->isc()) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->val, e->w); return buf; }
  if (e->op == O_VAR) return g_vars[(size_t)e->val].name;
  if (!depth) return "...";
  std::string s = "(" + std::string(n[e->op]);
  if (e->op == O_EXTRACT) { snprintf(buf, 64, "[%d+:%d]", (int)e->val, e->w); s += buf; }
  else if (e->op == O_ZEXT || e->op == O_SEXT) { snprintf(buf, 64, "%d", e->w); s += buf; }
  for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}
