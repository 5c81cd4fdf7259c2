#include "solver.hpp"
#include <z3.h>
#include <chrono>
#include <algorithm>
SolverStats g_sstat;
unsigned g_queryTimeoutMs = 20000;
static Z3_context ctx;
static Z3_sort fsort32, fsort64, fsort80, rmsort;
static Z3_ast rne, rtz;
static std::unordered_map<uint64_t, Z3_func_decl> ufs;

static void errh(Z3_context c, Z3_error_code e) { if (e == Z3_OK) return; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
  fsort32 = Z3_mk_fpa_sort_32(ctx); fsort64 = Z3_mk_fpa_sort_64(ctx); fsort80 = Z3_mk_fpa_sort(ctx, 15, 64);
  rmsort = Z3_mk_fpa_rounding_mode_sort(ctx);
  rne = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx);
}
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast bvc(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bv(w - 64)), lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, bvc(1, 1), bvc(0, 1)); }
static Z3_ast isT(Z3_ast b) { return Z3_mk_eq(ctx, b, bvc(1, 1)); }
static Z3_ast toFP(Z3_ast x, unsigned w) {
  if (w == 80) { // drop the explicit integer bit
    Z3_ast se = Z3_mk_extract(ctx, 79, 64, x), fr = Z3_mk_extract(ctx, 62, 0, x);
    return Z3_mk_fpa_to_fp_bv(ctx, Z3_mk_concat(ctx, se, fr), fsort80);
  }
  return Z3_mk_fpa_to_fp_bv(ctx, x, w == 32 ? fsort32 : fsort64);
}
static Z3_sort fs(unsigned w) { return w == 32 ? fsort32 : w == 64 ? fsort64 : fsort80; }
static Z3_ast fromFP(Z3_ast f, unsigned w) {
  Z3_ast nan = Z3_mk_fpa_is_nan(ctx, f);
  Z3_ast b = Z3_mk_fpa_to_ieee_bv(ctx, f);
  if (w == 80) {
    Z3_ast se = Z3_mk_extract(ctx, 78, 63, b), fr = Z3_mk_extract(ctx, 62, 0, b), ex = Z3_mk_extract(ctx, 77, 63, b);
    Z3_ast ib = Z3_mk_ite(ctx, Z3_mk_eq(ctx, ex, bvc(0, 15)), bvc(0, 1), bvc(1, 1));
    b = Z3_mk_concat(ctx, se, Z3_mk_concat(ctx, ib, fr));
    return Z3_mk_ite(ctx, nan, bvc(((u128)0xffff << 64) | 0xc000000000000000ull, 80), b);
  }
  return Z3_mk_ite(ctx, nan, bvc(w == 32 ? 0xffc00000ull : 0xfff8000000000000ull, w), b);
}
static Z3_ast uf(unsigned key, unsigned rw, Z3_ast a, unsigned aw, Z3_ast b) {
  uint64_t k = ((uint64_t)key << 32) | (rw << 16) | (aw << 1) | (b != nullptr);
  Z3_func_decl &d = ufs[k];
  if (!d) {
    char nm[48]; snprintf(nm, 48, "uf_%llx", (unsigned long long)k);
    Z3_sort dom[2] = {bv(aw), bv(aw)};
    d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm), b ? 2 : 1, dom, bv(rw));
  }
  Z3_ast args[2] = {a, b};
  return Z3_mk_app(ctx, d, b ? 2 : 1, args);
}

static Z3_ast conv(Expr *e, int mode) {
  int slot = e->fp ? mode : 0;
  if (e->z3[slot]) return (Z3_ast)e->z3[slot];
  // iterative depth guard: recursion is fine for our DAG depths
  Z3_ast a = e->a ? conv(e->a, mode) : nullptr, b = e->b ? conv(e->b, mode) : nullptr, c = e->c ? conv(e->c, mode) : nullptr, r = nullptr;
  unsigned w = e->w, aw = e->a ? e->a->w : 0;
  bool boolOps = w == 1;
  (void)boolOps;
  switch (e->op) {
  case O_CONST: r = bvc(e->val, w); break;
  case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(w)); break; }
  case O_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
  case O_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
  case O_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
  case O_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
  case O_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
  case O_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
  case O_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
  case O_AND: r = Z3_mk_bvand(ctx, a, b); break;
  case O_OR: r = Z3_mk_bvor(ctx, a, b); break;
  case O_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
  case O_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
  case O_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
  case O_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
  case O_EQ: r = b2bv(Z3_mk_eq(ctx, a, b)); break;
  case O_ULT: r = b2bv(Z3_mk_bvult(ctx, a, b)); break;
  case O_ULE: r = b2bv(Z3_mk_bvule(ctx, a, b)); break;
  case O_SLT: r = b2bv(Z3_mk_bvslt(ctx, a, b)); break;
  case O_SLE: r = b2bv(Z3_mk_bvsle(ctx, a, b)); break;
  case O_ITE: r = Z3_mk_ite(ctx, isT(a), b, c); break;
  case O_CONCAT: r = Z3_mk_concat(ctx, a, b); break;
  case O_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->val + w - 1, (unsigned)e->val, a); break;
  case O_ZEXT: r = Z3_mk_zero_ext(ctx, w - aw, a); break;
  case O_SEXT: r = Z3_mk_sign_ext(ctx, w - aw, a); break;
  default:
    if (mode == 0) r = uf(e->op, w, a, aw, b);
    else switch (e->op) {
    case O_FADD: r = fromFP(Z3_mk_fpa_add(ctx, rne, toFP(a, w), toFP(b, w)), w); break;
    case O_FSUB: r = fromFP(Z3_mk_fpa_sub(ctx, rne, toFP(a, w), toFP(b, w)), w); break;
    case O_FMUL: r = fromFP(Z3_mk_fpa_mul(ctx, rne, toFP(a, w), toFP(b, w)), w); break;
    case O_FDIV: r = fromFP(Z3_mk_fpa_div(ctx, rne, toFP(a, w), toFP(b, w)), w); break;
    case O_FEQ: r = b2bv(Z3_mk_fpa_eq(ctx, toFP(a, aw), toFP(b, aw))); break;
    case O_FLT: r = b2bv(Z3_mk_fpa_lt(ctx, toFP(a, aw), toFP(b, aw))); break;
    case O_FLE: r = b2bv(Z3_mk_fpa_leq(ctx, toFP(a, aw), toFP(b, aw))); break;
    case O_FUNO: { Z3_ast o[2] = {Z3_mk_fpa_is_nan(ctx, toFP(a, aw)), Z3_mk_fpa_is_nan(ctx, toFP(b, aw))}; r = b2bv(Z3_mk_or(ctx, 2, o)); break; }
    case O_F2F: r = fromFP(Z3_mk_fpa_to_fp_float(ctx, rne, toFP(a, aw), fs(w)), w); break;
    case O_SI2F: r = fromFP(Z3_mk_fpa_to_fp_signed(ctx, rne, a, fs(w)), w); break;
    case O_UI2F: r = fromFP(Z3_mk_fpa_to_fp_unsigned(ctx, rne, a, fs(w)), w); break;
    case O_F2SI: case O_F2UI: {
      Z3_ast f = toFP(a, aw), t = Z3_mk_fpa_round_to_integral(ctx, rtz, f);
      Z3_sort s = fs(aw);
      bool sg = e->op == O_F2SI;
      Z3_ast lo = sg ? Z3_mk_fpa_neg(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, bvc((u128)1 << (w - 1), w), s)) : Z3_mk_fpa_zero(ctx, s, false);
      Z3_ast hi = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bvc((u128)1 << (sg ? w - 1 : w), w + 1), s);
      Z3_ast cond[2] = {Z3_mk_fpa_leq(ctx, lo, t), Z3_mk_fpa_lt(ctx, t, hi)};
      Z3_ast ok = Z3_mk_and(ctx, 2, cond);
      Z3_ast v = sg ? Z3_mk_fpa_to_sbv(ctx, rtz, f, w) : Z3_mk_fpa_to_ubv(ctx, rtz, f, w);
      r = Z3_mk_ite(ctx, ok, v, bvc((u128)1 << (w - 1), w));
      break; }
    default: abort();
    }
  }
  e->z3[slot] = r;
  return r;
}

struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, u128>> m; };
static std::unordered_map<uint64_t, CacheEnt> qcache;

static u128 numeral(Z3_ast v, unsigned w) {
  uint64_t x = 0;
  if (w <= 64) { Z3_get_numeral_uint64(ctx, v, &x); return x; }
  const char *s = Z3_get_numeral_string(ctx, v); u128 r = 0; for (; *s >= '0' && *s <= '9'; s++) r = r * 10 + (*s - '0'); return r;
}

static Sat run(const std::vector<Expr *> &cs, int mode, std::vector<std::pair<uint32_t, u128>> *model, unsigned tmo) {
  Z3_solver s;
  bool anyfp = false; for (auto c : cs) anyfp |= c->fp;

  if (anyfp) s = Z3_mk_solver(ctx);
  else { static Z3_tactic t = nullptr; if (!t) { t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t); } s = Z3_mk_solver_from_tactic(ctx, t); }
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
  Z3_solver_set_params(ctx, s, p);
  for (auto c : cs) Z3_solver_assert(ctx, s, isT(conv(c, mode)));
  Z3_lbool r = Z3_solver_check(ctx, s);
  Sat out = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (out == SAT && model) {
    model->clear();
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    std::vector<uint32_t> vars;
    for (auto c : cs) vars.insert(vars.end(), c->vs->v.begin(), c->vs->v.end());
    std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (auto v : vars) {
      char nm[32]; snprintf(nm, 32, "v%u", v);
      Z3_ast k = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bv(g_vars[v].w)), val;
      if (Z3_model_eval(ctx, m, k, true, &val)) model->push_back({v, numeral(val, g_vars[v].w)});
    }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  return out;
}

Sat solve(const std::vector<Expr *> &cs0, std::vector<std::pair<uint32_t, u128>> *model, unsigned tmo) {
  init();
  if (!tmo) tmo = g_queryTimeoutMs;
  std::vector<Expr *> cs(cs0);
  std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  uint64_t h = 1469598103934665603ull; bool fp = false;
  for (auto c : cs) { h ^= c->id + 0x9E3779B97F4A7C15ull; h *= 1099511628211ull; h ^= h >> 29; fp |= c->fp; }
  auto it = qcache.find(h);
  if (it != qcache.end()) { g_sstat.cacheHits++; if (model) *model = it->second.m; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ce;
  ce.r = UNKNOWN;
  if (!fp) ce.r = run(cs, 0, &ce.m, tmo);
  else {
    // uninterpreted floating point operators first: unsat there is unsat in IEEE
    ce.r = run(cs, 0, &ce.m, std::min(tmo, 5000u));
    if (ce.r != UNSAT) ce.r = run(cs, 1, &ce.m, tmo);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sstat.secs += dt; g_sstat.maxSecs = std::max(g_sstat.maxSecs, dt); g_sstat.queries++;
  (ce.r == SAT ? g_sstat.sat : ce.r == UNSAT ? g_sstat.unsat : g_sstat.unknown)++;
  if (getenv("SX_SLOWQ") && dt > 0.5) { fprintf(stderr, "slow query %.1fs r=%d n=%zu\n", dt, ce.r, cs.size()); for (auto c : cs) fprintf(stderr, "    %s\n", exprStr(c, 9).c_str()); }
  if (ce.r != UNKNOWN) qcache[h] = ce;
  if (model) *model = ce.m;
  return ce.r;
}
