// x86-64 machine code executor and ELF loader, sharing memory and expressions with the IR executor.
#include "exec.hpp"
#include <elf.h>
#include <algorithm>
uint64_t g_x86insts;
static const uint64_t RET_SENTINEL = 0x00007eadbeef0000ull;
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI };
static std::string hx(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static X86 *C; // current cpu

static Val und(unsigned w, const char *n) { return VE(freshUndef(w, n)); }
static Val ext(Val v, unsigned lo, unsigned w) { return v.e ? VE(mkExtract(v.e, lo, w)) : VC(w >= 64 ? v.c >> lo : (v.c >> lo) & ((1ull << w) - 1)); }
static Val zx(Val v, unsigned from, unsigned to) { return v.e ? VE(mkZExt(v.e, to)) : v; }
static Val sx(Val v, unsigned from, unsigned to) { if (v.e) return VE(mkSExt(v.e, to)); int64_t x = from >= 64 ? (int64_t)v.c : ((int64_t)(v.c << (64 - from))) >> (64 - from); return VC(to >= 64 ? (uint64_t)x : (uint64_t)x & ((1ull << to) - 1)); }
static Val bop(Op op, unsigned w, Val a, Val b) { return VE(mkBin(op, EX(a, w), EX(b, w))); }
static Val addv(Val a, int64_t k) { return a.e ? VE(mkBin(O_ADD, a.e, mkConst((u128)(s128)k, 64))) : VC(a.c + k); }

static Val getr(int i, unsigned w, bool rex = true) {
  if (w == 8 && !rex && i >= 4 && i < 8) return ext(C->r[i - 4], 8, 8);
  return w == 64 ? C->r[i] : ext(C->r[i], 0, w);
}
static void setr(int i, unsigned w, Val v, bool rex = true) {
  if (w == 64) C->r[i] = v;
  else if (w == 32) C->r[i] = zx(v, 32, 64);
  else {
    bool hi = w == 8 && !rex && i >= 4 && i < 8; if (hi) i -= 4;
    Val o = C->r[i];
    if (!o.e && !v.e) { uint64_t m = ((1ull << w) - 1) << (hi ? 8 : 0); C->r[i] = VC((o.c & ~m) | (v.c << (hi ? 8 : 0))); }
    else {
      Expr *e = EX(o, 64);
      if (hi) C->r[i] = VE(mkConcat(mkExtract(e, 16, 48), mkConcat(EX(v, 8), mkExtract(e, 0, 8))));
      else C->r[i] = VE(mkConcat(mkExtract(e, w, 64 - w), EX(v, w)));
    }
  }
}
// ---------------------------------------------------------------- flags
static void setf(FK k, unsigned w, Val a, Val b, Val r) { C->fk = k; C->fw = w; C->fa = a; C->fb = b; C->fr = r; }
static Expr *flagCond(unsigned cc) {
  unsigned w = C->fw; bool neg = cc & 1; Expr *r = nullptr;
  Expr *one = mkConst(1, 1), *zero = mkConst(0, 1); (void)one;
  auto E = [&](Val v) { return EX(v, w); };
  switch (C->fk) {
  case FK_SUB: {
    Expr *a = E(C->fa), *b = E(C->fb), *res = E(C->fr);
    switch (cc >> 1) {
    case 0: { Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1), *sr = mkExtract(res, w - 1, 1); r = mkAnd1(mkBin(O_XOR, sa, sb), mkBin(O_XOR, sa, sr)); break; }
    case 1: r = mkBin(O_ULT, a, b); break;
    case 2: r = mkEq(a, b); break;
    case 3: r = mkBin(O_ULE, a, b); break;
    case 4: r = mkExtract(res, w - 1, 1); break;
    case 6: r = mkBin(O_SLT, a, b); break;
    case 7: r = mkBin(O_SLE, a, b); break;
    }
    break; }
  case FK_LOGIC: {
    Expr *res = E(C->fr), *z = mkEq(res, mkConst(0, w)), *s = mkExtract(res, w - 1, 1);
    switch (cc >> 1) { case 0: r = zero; break; case 1: r = zero; break; case 2: r = z; break; case 3: r = z; break; case 4: r = s; break; case 6: r = s; break; case 7: r = mkOr1(z, s); break; }
    break; }
  case FK_ADD: case FK_INC: case FK_DEC: {
    Expr *a = E(C->fa), *b = E(C->fb), *res = E(C->fr);
    Expr *z = mkEq(res, mkConst(0, w)), *s = mkExtract(res, w - 1, 1), *c = mkBin(O_ULT, res, a);
    Expr *sa = mkExtract(a, w - 1, 1), *sb = mkExtract(b, w - 1, 1);
    Expr *o = mkAnd1(mkNot(mkBin(O_XOR, sa, sb)), mkBin(O_XOR, sa, s));
    if (C->fk != FK_ADD && ((cc >> 1) == 1 || (cc >> 1) == 3)) break;
    switch (cc >> 1) { case 0: r = o; break; case 1: r = c; break; case 2: r = z; break; case 3: r = mkOr1(c, z); break; case 4: r = s; break; case 6: r = mkBin(O_XOR, s, o); break; case 7: r = mkOr1(z, mkBin(O_XOR, s, o)); break; }
    break; }
  case FK_UCOMI32: case FK_UCOMI64: case FK_UCOMI80: {
    Expr *a = E(C->fa), *b = E(C->fb), *un = mkBin(O_FUNO, a, b);
    switch (cc >> 1) {
    case 0: r = zero; break;
    case 1: r = mkOr1(mkBin(O_FLT, a, b), un); break;
    case 2: r = mkOr1(mkBin(O_FEQ, a, b), un); break;
    case 3: r = mkOr1(mkBin(O_FLE, a, b), un); break;
    case 4: r = zero; break;
    case 5: r = un; break;
    case 6: r = zero; break;
    case 7: r = mkOr1(mkBin(O_FEQ, a, b), un); break;
    }
    // exact negations keep the structure of the C comparison
    if (neg && (cc >> 1) == 3) return mkBin(O_FLT, b, a);
    if (neg && (cc >> 1) == 1) return mkBin(O_FLE, b, a);
    break; }
  default: break;
  }
  if (!r) r = freshUndef(1, "flag");
  return neg ? mkNot(r) : r;
}

// ---------------------------------------------------------------- memory and fetch
static Val ld(Val a, unsigned bits) {
  if (S->overread && !a.e) { // machine code reading past the end of an object: bytes outside are arbitrary
    Obj *o = objAt(a.c); uint64_t off = a.c & SLOTMASK; unsigned n = bits / 8;
    if (o && off < o->size && off + n > o->size) {
      S->overreads++; Expr *e = nullptr; unsigned in = o->size - off;
      for (unsigned i = 0; i < n; i++) { Expr *b = i < in ? EX(readByte(a.c + i), 8) : freshUndef(8, "overread"); e = e ? mkConcat(b, e) : b; }
      return VE(e);
    }
  }
  return memRead(a, bits / 8);
}
static void st(Val a, Val v, unsigned bits) { memWrite(a, v, bits / 8); }
static void pushv(Val v) { C->r[RSP] = addv(C->r[RSP], -8); st(C->r[RSP], v, 64); }
static Val popv() { Val v = ld(C->r[RSP], 64); C->r[RSP] = addv(C->r[RSP], 8); return v; }

struct Dec { uint64_t p; bool opsz, rep, repne, rexp; uint8_t rex; int mod, reg, rm; bool mem; Val ea; };
static Dec D;
static uint8_t fetch8() { Val b = readByte(D.p); if (b.e) b = VC(concretize(b, 8)); D.p++; return (uint8_t)b.c; }
static Val fetchImm(unsigned n) { Val v = memRead(VC(D.p), n); D.p += n; return v; }
static void modrm(unsigned immBytes) {
  uint8_t m = fetch8(); D.mod = m >> 6; D.reg = ((m >> 3) & 7) | ((D.rex & 4) << 1); D.rm = m & 7; D.mem = D.mod != 3;
  if (!D.mem) { D.rm |= (D.rex & 1) << 3; return; }
  Val ea = VC(0); bool rip = false;
  if (D.rm == 4) {
    uint8_t s = fetch8(); int sc = s >> 6, ix = ((s >> 3) & 7) | ((D.rex & 2) << 2), ba = (s & 7) | ((D.rex & 1) << 3);
    if ((s & 7) == 5 && D.mod == 0) ea = sx(fetchImm(4), 32, 64); else ea = C->r[ba];
    if (ix != 4) { Val i = C->r[ix]; i = bop(O_SHL, 64, i, VC(sc)); ea = bop(O_ADD, 64, ea, i); }
  } else if (D.rm == 5 && D.mod == 0) { ea = sx(fetchImm(4), 32, 64); rip = true; }
  else ea = C->r[D.rm | ((D.rex & 1) << 3)];
  if (D.mod == 1) ea = bop(O_ADD, 64, ea, sx(fetchImm(1), 8, 64));
  else if (D.mod == 2) ea = bop(O_ADD, 64, ea, sx(fetchImm(4), 32, 64));
  if (rip) ea = bop(O_ADD, 64, ea, VC(D.p + immBytes));
  D.ea = ea;
}
static Val getrm(unsigned w) { return D.mem ? ld(D.ea, w) : getr(D.rm, w, D.rexp); }
static void setrm(unsigned w, Val v) { if (D.mem) st(D.ea, v, w); else setr(D.rm, w, v, D.rexp); }
static void bad(const std::string &s) { throw PathUnsup{"x86: " + s + " at " + hx(C->rip)}; }
static void fault(int k, const std::string &s) { throw PathError{k, "machine code: " + s + " at " + hx(C->rip)}; }

static Val alu(int op, unsigned w, Val a, Val b) {
  Val r;
  switch (op) {
  case 0: r = bop(O_ADD, w, a, b); setf(FK_ADD, w, a, b, r); return r;
  case 1: r = bop(O_OR, w, a, b); setf(FK_LOGIC, w, a, b, r); return r;
  case 4: r = bop(O_AND, w, a, b); setf(FK_LOGIC, w, a, b, r); return r;
  case 5: case 7: r = bop(O_SUB, w, a, b); setf(FK_SUB, w, a, b, r); return r;
  case 6: r = bop(O_XOR, w, a, b);
    setf(FK_LOGIC, w, a, b, r); return r;
  case 2: case 3: { Expr *cf = flagCond(2); Expr *c = mkZExt(cf, w); Expr *x = EX(a, w), *y = EX(b, w);
    r = VE(op == 2 ? mkBin(O_ADD, mkBin(O_ADD, x, y), c) : mkBin(O_SUB, mkBin(O_SUB, x, y), c)); setf(FK_UNDEF, w, a, b, r); return r; }
  }
  bad("alu"); return VC(0);
}
static void shiftOp(int op, unsigned w, Val cnt) {
  Val a = getrm(w);
  Val c = bop(O_AND, 8, cnt, VC(w == 64 ? 63 : 31));
  Expr *x = EX(a, w), *ce = EX(c, 8), *r;
  Expr *cw = w > 8 ? mkZExt(ce, w) : ce;
  switch (op) {
  case 4: case 6: r = mkBin(O_SHL, x, cw); break;
  case 5: r = mkBin(O_LSHR, x, cw); break;
  case 7: r = mkBin(O_ASHR, x, cw); break;
  case 0: case 1: { if (!ce->isc()) bad("rotate by variable"); unsigned k = (unsigned)ce->val % w; if (op == 1) k = (w - k) % w; r = k ? mkConcat(mkExtract(x, 0, w - k), mkExtract(x, w - k, k)) : x; break; }
  default: bad("shift kind"); return;
  }
  setrm(w, VE(r));
  if (ce->isc() && ce->val == 0) return;
  if (ce->isc()) setf(FK_UNDEF, w, a, c, VE(r)); else setf(FK_UNDEF, w, a, c, VE(r));
  // ZF and SF are defined for non-zero counts
  if (ce->isc()) setf(FK_SHIFT, w, a, c, VE(r));
}
static void divide(bool sg, unsigned w, Val d) {
  Expr *de = EX(d, w), *lo, *hi;
  if (w == 8) { Expr *ax = EX(getr(RAX, 16), 16); lo = mkExtract(ax, 0, 8); hi = mkExtract(ax, 8, 8); }
  else { lo = EX(getr(RAX, w), w); hi = EX(getr(RDX, w), w); }
  if (decide(mkEq(de, mkConst(0, w)))) fault(E_DIV, "divide error (zero)");
  Expr *q, *m;
  if (!sg && hi->isc() && hi->val == 0) { q = mkBin(O_UDIV, lo, de); m = mkBin(O_UREM, lo, de); }
  else if (sg && mkEq(hi, mkSExt(mkExtract(lo, w - 1, 1), w))->isc() && mkEq(hi, mkSExt(mkExtract(lo, w - 1, 1), w))->val) {
    if (decide(mkAnd1(mkEq(de, mkConst(maskw(w), w)), mkEq(lo, mkConst((u128)1 << (w - 1), w))))) fault(E_DIV, "divide error (overflow)");
    q = mkBin(O_SDIV, lo, de); m = mkBin(O_SREM, lo, de);
  } else {
    Expr *n = mkConcat(hi, lo), *dd = sg ? mkSExt(de, 2 * w) : mkZExt(de, 2 * w);
    Expr *qq = mkBin(sg ? O_SDIV : O_UDIV, n, dd), *mm = mkBin(sg ? O_SREM : O_UREM, n, dd);
    q = mkExtract(qq, 0, w); m = mkExtract(mm, 0, w);
    Expr *fits = sg ? mkEq(mkSExt(q, 2 * w), qq) : mkEq(mkZExt(q, 2 * w), qq);
    if (!decide(fits)) fault(E_DIV, "divide error (overflow)");
  }
  if (w == 8) setr(RAX, 16, VE(mkConcat(m, q)));
  else { setr(RAX, w, VE(q)); setr(RDX, w, VE(m)); }
  setf(FK_UNDEF, w, VC(0), VC(0), VC(0));
}
static void mulwide(bool sg, unsigned w, Val b) {
  Expr *x = EX(getr(RAX, w), w), *y = EX(b, w);
  Expr *p = sg ? mkBin(O_MUL, mkSExt(x, 2 * w), mkSExt(y, 2 * w)) : mkBin(O_MUL, mkZExt(x, 2 * w), mkZExt(y, 2 * w));
  if (w == 8) setr(RAX, 16, VE(p));
  else { setr(RAX, w, VE(mkExtract(p, 0, w))); setr(RDX, w, VE(mkExtract(p, w, w))); }
  setf(FK_UNDEF, w, VC(0), VC(0), VC(0));
}

// ---------------------------------------------------------------- x87
static void fpush(Expr *e) { if (C->st[7].e) fault(E_X86, "x87 stack overflow"); for (int i = 7; i > 0; i--) C->st[i] = C->st[i - 1]; C->st[0].e = e; }
static Expr *fst(int i) { if (!C->st[i].e) fault(E_X86, "x87 stack underflow"); return C->st[i].e; }
static void fpop() { fst(0); for (int i = 1; i < 8; i++) C->st[i - 1] = C->st[i]; C->st[7].e = nullptr; }
static bool fany() { for (int i = 0; i < 8; i++) if (C->st[i].e) return true; return false; }
static void x87(uint8_t op) {
  modrm(0);
  int k = D.reg & 7;
  if (D.mem) {
    auto ldf = [&](unsigned w) { return mkConv(O_F2F, EX(ld(D.ea, w), w), 80); };
    auto stf = [&](unsigned w) { st(D.ea, VE(mkConv(O_F2F, fst(0), w)), w); };
    auto sti = [&](unsigned w) { uint64_t rc = (concretize(C->fcw, 16) >> 10) & 3; if (rc != 3) bad("x87 store with rounding mode"); Expr *e = fst(0); st(D.ea, VE(w == 16 ? mkExtract(mkConv(O_F2SI, e, 32), 0, 16) : mkConv(O_F2SI, e, w)), w); };
    switch (op << 4 | k) {
    case 0xD90: fpush(ldf(32)); return;
    case 0xDD0: fpush(ldf(64)); return;
    case 0xDB5: { Val v = memRead(D.ea, 10); fpush(v.e ? v.e : mkConst(v.c, 80)); return; }
    case 0xD92: stf(32); return; case 0xD93: stf(32); fpop(); return;
    case 0xDD2: stf(64); return; case 0xDD3: stf(64); fpop(); return;
    case 0xDB7: memWrite(D.ea, Val{0, fst(0)}, 10); fpop(); return;
    case 0xDF0: fpush(mkConv(O_SI2F, EX(ld(D.ea, 16), 16), 80)); return;
    case 0xDB0: fpush(mkConv(O_SI2F, EX(ld(D.ea, 32), 32), 80)); return;
    case 0xDF5: fpush(mkConv(O_SI2F, EX(ld(D.ea, 64), 64), 80)); return;
    case 0xDF3: sti(16); fpop(); return; case 0xDB3: sti(32); fpop(); return; case 0xDF7: sti(64); fpop(); return;
    case 0xD95: C->fcw = ld(D.ea, 16); return;
    case 0xD97: st(D.ea, C->fcw, 16); return;
    case 0xD80: C->st[0].e = mkBin(O_FADD, fst(0), ldf(32)); return;
    case 0xDC0: C->st[0].e = mkBin(O_FADD, fst(0), ldf(64)); return;
    }
    bad("x87 mem op " + hx(op) + "/" + std::to_string(k));
  }
  int i = D.rm & 7;
  auto arith = [&](Op o, bool rev, int dst, bool pop) {
    Expr *a = fst(dst), *b = fst(dst == 0 ? i : 0);
    C->st[dst].e = rev ? mkBin(o, b, a) : mkBin(o, a, b); if (pop) fpop(); };
  switch (op << 4 | k) {
  case 0xD90: { Expr *e = fst(i); fpush(e); return; }
  case 0xD91: { Expr *a = fst(0), *b = fst(i); C->st[0].e = b; C->st[i].e = a; return; }
  case 0xD95: if (i == 6) { fpush(mkConst(0, 80)); return; } if (i == 0) { fpush(mkConst(((u128)0x3fff << 64) | 0x8000000000000000ull, 80)); return; } break;
  case 0xD94: if (i == 0) { C->st[0].e = mkBin(O_XOR, fst(0), mkConst((u128)1 << 79, 80)); return; } break;
  case 0xDD3: { Expr *e = fst(0); C->st[i].e = e; fpop(); return; }
  case 0xDD2: { Expr *e = fst(0); C->st[i].e = e; return; }
  case 0xDE0: arith(O_FADD, false, i, true); return;
  case 0xDE1: arith(O_FMUL, false, i, true); return;
  case 0xDE4: arith(O_FSUB, true, i, true); return;   // fsubrp  (DE E0+i): st(i) = st(0) - st(i)
  case 0xDE5: arith(O_FSUB, false, i, true); return;  // fsubp   (DE E8+i): st(i) = st(i) - st(0)
  case 0xDE6: arith(O_FDIV, true, i, true); return;   // fdivrp
  case 0xDE7: arith(O_FDIV, false, i, true); return;  // fdivp
  case 0xDF5: case 0xDB5: case 0xDF6: case 0xDB6: { setf(FK_UCOMI80, 80, VE(fst(0)), VE(fst(i)), VC(0)); if (C->fa.e == nullptr) {} C->fa = Val{0, fst(0)}; C->fb = Val{0, fst(i)}; if (op == 0xDF) fpop(); return; }
  }
  bad("x87 reg op " + hx(op) + "/" + std::to_string(k));
}

// ---------------------------------------------------------------- SSE
static Val xlo(int i, unsigned w) { return w == 64 ? C->x[i].lo : ext(C->x[i].lo, 0, w); }
static void setxlo(int i, unsigned w, Val v, bool zeroUpper) {
  if (w == 64) C->x[i].lo = v;
  else if (zeroUpper) C->x[i].lo = zx(v, w, 64);
  else C->x[i].lo = VE(mkConcat(mkExtract(EX(C->x[i].lo, 64), w, 64 - w), EX(v, w)));
  if (zeroUpper) C->x[i].hi = VC(0);
}
static Val xrm(unsigned w) { return D.mem ? ld(D.ea, w) : xlo(D.rm, w); }

static void clobberBelow() {
  // bytes below the stack pointer are dead across calls
  if (C->r[RSP].e) return;
  uint64_t sp = C->r[RSP].c, off = sp & ((1ull << SLOT) - 1); uint64_t n = std::min<uint64_t>(off, 512);
  Obj *o = objAt(sp); if (!o || !(o->name && !strcmp(o->name, "x86 stack"))) return;
  o = objW(sp); memset(o->st + off - n, 2, n);
}
static void randCaller() {
  static const int cs[] = {RAX, RCX, RDX, RSI, RDI, 8, 9, 10, 11};
  for (int i : cs) C->r[i] = und(64, "reg");
  for (int i = 0; i < 16; i++) { C->x[i].lo = und(64, "xmm"); C->x[i].hi = und(64, "xmm"); }
  setf(FK_UNDEF, 64, VC(0), VC(0), VC(0));
}

// IR function called from machine code; return address is on the stack
static void callIR(Func *f) {
  if (C->r[RSP].e) bad("symbolic stack pointer at call");
  uint64_t sp = C->r[RSP].c;
  if ((sp & 15) != 8) fault(E_X86, "stack not 16-byte aligned at call to " + f->name);
  if (fany()) fault(E_X86, "x87 stack not empty at call to " + f->name);
  static const int gpr[6] = {RDI, RSI, RDX, RCX, 8, 9};
  unsigned g = 0, x = 0; uint64_t stk = sp + 8;
  std::vector<Val> args;
  for (auto &t : f->at) {
    if (t.kind == 0) { if (g < 6) args.push_back(ext(C->r[gpr[g++]], 0, t.bits)); else { args.push_back(ld(VC(stk), t.bits < 8 ? 8 : t.bits)); stk += 8; } if (t.bits == 1) args.back() = ext(args.back(), 0, 1); }
    else if (t.kind == 1) {
      if (x < 8) { args.push_back(t.bits > 64 ? Val{0, mkConcat(EX(C->x[x].hi, 64), EX(C->x[x].lo, 64))} : xlo(x, t.bits)); x++; } else { args.push_back(ld(VC(stk), t.bits)); stk += 8; } }
    else if (t.kind == 2) { stk = (stk + 15) & ~15ull; Val v = memRead(VC(stk), 10); args.push_back(v.e ? v : Val{0, mkConst(v.c, 80)}); stk += 16; }
    else if (t.kind == 3) { if (t.byalign > 8) stk = (stk + 15) & ~15ull;
      uint64_t o = mallocObj(t.bysize, true, "byval", OF_HEAP);
      for (unsigned k = 0; k < t.bysize; k++) { Obj *so = objAt(stk + k); uint64_t off = (stk + k) & ((1ull << SLOT) - 1); if (so && so->st && so->st[off] == 2) continue; writeByte(o + k, readByte(stk + k)); }
      args.push_back(VC(o)); stk = (stk + t.bysize + 7) & ~7ull; }
    else bad("argument kind calling " + f->name);
  }
  uint64_t save = 0;
  if (f->vararg) {
    // %al must be an upper bound of the vector registers used
    save = mallocObj(176, true, "reg_save_area", OF_HEAP);
    uint64_t al = concretize(ext(C->r[RAX], 0, 8), 8);
    if (al > 8) fault(E_X86, "%al > 8 at variadic call to " + f->name);
    for (int i = 0; i < 6; i++) memWrite(VC(save + 8 * i), C->r[gpr[i]], 8);
    for (unsigned i = 0; i < al; i++) { memWrite(VC(save + 48 + 16 * i), C->x[i].lo, 8); memWrite(VC(save + 56 + 16 * i), C->x[i].hi, 8); }
  }
  clobberBelow();
  if (f->builtin) { std::vector<Val> r; if (f->builtin(args, r, nullptr)) x86ReturnFromIR(r, f); return; }
  doCall(f, args, nullptr, true);
  Frame &n = S->fr.back();
  n.vaStack = stk; n.vaBy.assign(1, save);
}
void x86ReturnFromIR(std::vector<Val> &r, Func *f) {
  C = S->fr.back().x;
  randCaller();
  unsigned gi = 0, xi = 0; static const int rg[2] = {RAX, RDX};
  for (size_t i = 0; i < r.size() && i < f->rt.size(); i++) {
    auto &t = f->rt[i];
    if (t.kind == 0) { Val v = r[i]; int reg = rg[gi++];
      if (t.bits == 1) { v = zx(v, 1, 8); C->r[reg] = VE(mkConcat(EX(ext(C->r[reg], 8, 56), 56), EX(v, 8))); }
      else if (t.bits < 64) C->r[reg] = VE(mkConcat(mkExtract(EX(C->r[reg], 64), t.bits, 64 - t.bits), EX(v, t.bits)));
      else C->r[reg] = v; }
    else if (t.kind == 1) { if (t.bits > 64) { C->x[xi].lo = VE(mkExtract(EX(r[i], 128), 0, 64)); C->x[xi].hi = VE(mkExtract(EX(r[i], 128), 64, 64)); xi++; } else setxlo(xi++, t.bits, r[i], false); }
    else if (t.kind == 2) fpush(r[i].e);
    else bad("return kind");
  }
  if (!f->at.empty() && f->at[0].sret) { }
  uint64_t ra = concretize(popv(), 64);
  C->rip = ra;
}

static void finish() {
  // returned to the IR caller
  for (int i : {(int)RBX, (int)RBP, 12, 13, 14, 15}) {
    Expr *e = mkEq(EX(C->r[i], 64), EX(C->saved[i], 64));
    if (!mustBeTrue(e)) fault(E_X86, "callee-saved register " + std::to_string(i) + " not preserved");
  }
  if (C->r[RSP].e || C->r[RSP].c != C->rsp0 + 8) fault(E_X86, "stack pointer not restored");
  if (C->fcw.e || (C->fcw.c & 0x0c00) != 0) fault(E_X86, "x87 control word not restored");
  for (size_t k = 0; k < C->canary.size(); k++) {
    Val b = readByte(C->argTop + k);
    if (!mustBeTrue(mkEq(EX(b, 8), EX(C->canary[k], 8)))) fault(E_X86, "caller's stack frame modified");
  }
  Frame &f = S->fr.back(); CallInfo *ci = f.ci;
  std::vector<Val> r; unsigned gi = 0, xi = 0, fi = 0; static const int rg[2] = {RAX, RDX};
  for (auto &t : ci->rt) {
    if (t.kind == 0) { r.push_back(ext(C->r[rg[gi++]], 0, t.bits)); }
    else if (t.kind == 1) { r.push_back(t.bits > 64 ? Val{0, mkConcat(EX(C->x[xi].hi, 64), EX(C->x[xi].lo, 64))} : xlo(xi, t.bits)); xi++; }
    else if (t.kind == 2) { r.push_back(Val{0, fst(0)}); fi++; fpop(); }
    else bad("return kind");
  }
  if (fany()) fault(E_X86, "x87 stack not empty at return");
  // pop frame
  uint64_t so = C->stackObj; (void)so;
  delete f.x; f.x = nullptr;
  S->fr.pop_back();
  Frame &c = S->fr.back(); Val *R = &S->regs[c.rbase];
  if (ci->dst >= 0) for (int k = 0; k < ci->nret; k++) R[ci->dst + k] = r[k];
  c.pc++;
}

static uint32_t g_stackSize = 65536;
void x86Call(uint64_t target, CallInfo *ci, std::vector<Val> &args) {
  X86 *c = new X86(); C = c;
  for (int i = 0; i < 16; i++) { c->r[i] = und(64, "reg"); c->x[i].lo = und(64, "xmm"); c->x[i].hi = und(64, "xmm"); }
  for (auto &q : c->st) q.e = nullptr; c->fk = FK_UNDEF; c->fw = 64; c->fcw = VC(0x37f); c->ci = ci; c->df = 0;
  c->stackObj = mallocObj(g_stackSize, true, "x86 stack", OF_HEAP);
  // stack arguments
  static const int gpr[6] = {RDI, RSI, RDX, RCX, 8, 9};
  unsigned g = 0, x = 0; uint64_t off = 0; 
  struct SA { uint64_t off; Val v; unsigned bytes; uint64_t src; unsigned n; };
  std::vector<SA> sa; unsigned nx = 0;
  for (size_t i = 0; i < args.size(); i++) {
    auto &t = ci->at[i];
    if (t.kind == 0) {
      Val v = args[i];
      if (t.bits < 64) {
        Expr *e = EX(v, t.bits); unsigned w = t.bits;
        if (w == 1) { e = mkZExt(e, 8); w = 8; }
        if (w < 32 && t.sext) { e = mkSExt(e, 32); w = 32; } else if (w < 32 && t.zext) { e = mkZExt(e, 32); w = 32; }
        v = VE(mkConcat(freshUndef(64 - w, "argbits"), e));
      }
      if (g < 6) c->r[gpr[g++]] = v; else { sa.push_back({off, v, 8, 0, 0}); off += 8; }
    } else if (t.kind == 1) {
      if (x < 8) { if (t.bits > 64) { c->x[x].lo = VE(mkExtract(EX(args[i], 128), 0, 64)); c->x[x].hi = VE(mkExtract(EX(args[i], 128), 64, 64)); } else setxlo(x, t.bits, args[i], false); x++; nx++; }
      else { sa.push_back({off, args[i], t.bits / 8, 0, 0}); off += 8; }
    } else if (t.kind == 2) { off = (off + 15) & ~15ull; sa.push_back({off, args[i], 10, 0, 0}); off += 16; }
    else if (t.kind == 3) { if (t.byalign > 8) off = (off + 15) & ~15ull; sa.push_back({off, VC(0), 0, args[i].c, t.bysize}); off = (off + t.bysize + 7) & ~7ull; }
    else throw PathUnsup{"argument kind"};
  }
  off = (off + 15) & ~15ull;
  uint64_t top = c->stackObj + g_stackSize - 64; // 64 canary bytes above the argument area
  c->argTop = top;
  for (int k = 0; k < 64; k += 8) memWrite(VC(top + k), und(64, "canary"), 8);
  for (int k = 0; k < 64; k++) c->canary.push_back(readByte(top + k));
  uint64_t base = top - off;
  for (auto &s : sa) {
    if (s.n) for (unsigned k = 0; k < s.n; k++) { Obj *o = objAt(s.src + k); uint64_t of = (s.src + k) & ((1ull << SLOT) - 1); if (!o || of >= o->size) throw PathError{E_MEM, "byval source"}; if (o->st && o->st[of] == 2) continue; writeByte(base + s.off + k, readByte(s.src + k)); }
    else memWrite(VC(base + s.off), s.v, s.bytes);
  }
  if (ci->vararg) c->r[RAX] = VE(mkConcat(freshUndef(56, "rax"), mkConst(nx, 8)));
  c->rsp0 = base - 8;
  memWrite(VC(c->rsp0), VC(RET_SENTINEL), 8);
  c->r[RSP] = VC(c->rsp0);
  for (int i = 0; i < 16; i++) c->saved[i] = c->r[i];
  c->rip = target;
  Frame n{}; n.f = nullptr; n.isX86 = true; n.x = c; n.rbase = S->regs.size(); n.stackBase = S->stack.next; n.ci = ci;
  S->fr.push_back(std::move(n));
}

static void exec1();
void x86Step() {
  for (int budget = 5000; budget > 0; budget--) {
    C = S->fr.back().x;
    if (C->rip == RET_SENTINEL) { finish(); return; }
    if (C->rip >= FUNC_BASE) {
      Func *f = funcAt(C->rip);
      if (!f) fault(E_MEM, "jump to invalid address");
      callIR(f); return;
    }
    Obj *o = objAt(C->rip);
    if (!o || !(o->flags & OF_X86)) fault(E_MEM, "execution of non-code address " + hx(C->rip));
    g_x86insts++; S->steps += 20;
    exec1();
  }
}
static void jcc(unsigned cc, Val disp, unsigned w) {
  uint64_t next = D.p; Val t = bop(O_ADD, 64, VC(next), sx(disp, w, 64));
  Expr *c = flagCond(cc);
  // restartable: the fresh flag variable case re-creates it, which is fine
  if (decide(c)) C->rip = concretize(t, 64); else C->rip = next;
}
static void exec1() {
  D = Dec{}; D.p = C->rip;
  uint8_t op;
  for (;;) { op = fetch8(); if (op == 0x66) D.opsz = true; else if (op == 0xF2) D.repne = true; else if (op == 0xF3) D.rep = true; else if (op == 0x2E || op == 0x3E || op == 0x64 || op == 0x65) { if (op >= 0x64) bad("segment"); } else break; }
  if ((op & 0xF0) == 0x40) { D.rex = op; D.rexp = true; op = fetch8(); }
  bool W = D.rex & 8; unsigned w = W ? 64 : D.opsz ? 16 : 32;
  auto immw = [&](unsigned ww) { return ww == 64 ? sx(fetchImm(4), 32, 64) : fetchImm(ww / 8); };
  if (op < 0x40 && (op & 7) < 6) {
    int a = op >> 3;
    switch (op & 7) {
    case 0: { modrm(0); Val x = getrm(8), y = getr(D.reg, 8, D.rexp), r = alu(a, 8, x, y); if (a != 7) setrm(8, r); break; }
    case 1: { modrm(0); Val x = getrm(w), y = getr(D.reg, w), r = alu(a, w, x, y); if (a != 7) setrm(w, r); break; }
    case 2: { modrm(0); Val y = getrm(8), x = getr(D.reg, 8, D.rexp), r = alu(a, 8, x, y); if (a != 7) setr(D.reg, 8, r, D.rexp); break; }
    case 3: { modrm(0); Val y = getrm(w), x = getr(D.reg, w), r = alu(a, w, x, y); if (a != 7) setr(D.reg, w, r); break; }
    case 4: { Val y = fetchImm(1), r = alu(a, 8, getr(RAX, 8), y); if (a != 7) setr(RAX, 8, r); break; }
    case 5: { Val y = immw(w), r = alu(a, w, getr(RAX, w), y); if (a != 7) setr(RAX, w, r); break; }
    }
    C->rip = D.p; return;
  }
  switch (op) {
  case 0x50: case 0x51: case 0x52: case 0x53: case 0x54: case 0x55: case 0x56: case 0x57: { Val v = C->r[(op & 7) | ((D.rex & 1) << 3)]; pushv(v); break; }
  case 0x58: case 0x59: case 0x5A: case 0x5B: case 0x5C: case 0x5D: case 0x5E: case 0x5F: { Val v = popv(); C->r[(op & 7) | ((D.rex & 1) << 3)] = v; break; }
  case 0x63: { modrm(0); Val v = getrm(32); setr(D.reg, w, sx(v, 32, w == 64 ? 64 : 32)); break; }
  case 0x68: pushv(sx(fetchImm(4), 32, 64)); break;
  case 0x6A: pushv(sx(fetchImm(1), 8, 64)); break;
  case 0x69: { modrm(w == 16 ? 2 : 4); Val a = getrm(w), b = immw(w); setr(D.reg, w, bop(O_MUL, w, a, b)); setf(FK_UNDEF, w, a, b, a); break; }
  case 0x6B: { modrm(1); Val a = getrm(w), b = sx(fetchImm(1), 8, w); setr(D.reg, w, bop(O_MUL, w, a, b)); setf(FK_UNDEF, w, a, b, a); break; }
  case 0x70: case 0x71: case 0x72: case 0x73: case 0x74: case 0x75: case 0x76: case 0x77: case 0x78: case 0x79: case 0x7A: case 0x7B: case 0x7C: case 0x7D: case 0x7E: case 0x7F: { Val d = fetchImm(1); jcc(op & 15, d, 8); return; }
  case 0x80: { modrm(1); Val y = fetchImm(1), x = getrm(8), r = alu(D.reg & 7, 8, x, y); if ((D.reg & 7) != 7) setrm(8, r); break; }
  case 0x81: { modrm(w == 16 ? 2 : 4); Val y = immw(w), x = getrm(w), r = alu(D.reg & 7, w, x, y); if ((D.reg & 7) != 7) setrm(w, r); break; }
  case 0x83: { modrm(1); Val y = sx(fetchImm(1), 8, w), x = getrm(w), r = alu(D.reg & 7, w, x, y); if ((D.reg & 7) != 7) setrm(w, r); break; }
  case 0x84: { modrm(0); alu(4, 8, getrm(8), getr(D.reg, 8, D.rexp)); break; }
  case 0x85: { modrm(0); alu(4, w, getrm(w), getr(D.reg, w)); break; }
  case 0x86: { modrm(0); Val a = getrm(8), b = getr(D.reg, 8, D.rexp); setrm(8, b); setr(D.reg, 8, a, D.rexp); break; }
  case 0x87: { modrm(0); Val a = getrm(w), b = getr(D.reg, w); setrm(w, b); setr(D.reg, w, a); break; }
  case 0x88: { modrm(0); setrm(8, getr(D.reg, 8, D.rexp)); break; }
  case 0x89: { modrm(0); setrm(w, getr(D.reg, w)); break; }
  case 0x8A: { modrm(0); setr(D.reg, 8, getrm(8), D.rexp); break; }
  case 0x8B: { modrm(0); setr(D.reg, w, getrm(w)); break; }
  case 0x8D: { modrm(0); if (!D.mem) bad("lea"); setr(D.reg, w, ext(D.ea, 0, w)); break; }
  case 0x8F: { modrm(0); Val v = popv(); setrm(64, v); break; }
  case 0x90: break;
  case 0x98: { if (w == 64) setr(RAX, 64, sx(getr(RAX, 32), 32, 64)); else if (w == 32) setr(RAX, 32, sx(getr(RAX, 16), 16, 32)); else setr(RAX, 16, sx(getr(RAX, 8), 8, 16)); break; }
  case 0x99: { Val a = getr(RAX, w); setr(RDX, w, VE(mkSExt(mkExtract(EX(a, w), w - 1, 1), w))); break; }
  case 0xA4: case 0xA5: case 0xAA: case 0xAB: {
    unsigned ew = op & 1 ? w : 8; uint64_t n = 1; bool movs = op < 0xA8;
    if (D.rep) n = concretize(C->r[RCX], 64);
    if (n > 100000) bad("rep count");
    // concretize pointers up front so that the copy is restartable
    uint64_t si = movs ? concretize(C->r[RSI], 64) : 0, di = concretize(C->r[RDI], 64);
    for (uint64_t k = 0; k < n; k++) { Val v = movs ? ld(VC(si), ew) : getr(RAX, ew); st(VC(di), v, ew); si += ew / 8; di += ew / 8; }
    if (movs) C->r[RSI] = VC(si);
    C->r[RDI] = VC(di); if (D.rep) C->r[RCX] = VC(0);
    break; }
  case 0xA8: alu(4, 8, getr(RAX, 8), fetchImm(1)); break;
  case 0xA9: { Val i = immw(w); alu(4, w, getr(RAX, w), i); break; }
  case 0xB0: case 0xB1: case 0xB2: case 0xB3: case 0xB4: case 0xB5: case 0xB6: case 0xB7: setr((op & 7) | ((D.rex & 1) << 3), 8, fetchImm(1), D.rexp); break;
  case 0xB8: case 0xB9: case 0xBA: case 0xBB: case 0xBC: case 0xBD: case 0xBE: case 0xBF: setr((op & 7) | ((D.rex & 1) << 3), w, fetchImm(w / 8)); break;
  case 0xC0: case 0xC1: { modrm(1); Val c = fetchImm(1); shiftOp(D.reg & 7, op & 1 ? w : 8, c); break; }
  case 0xD0: case 0xD1: { modrm(0); shiftOp(D.reg & 7, op & 1 ? w : 8, VC(1)); break; }
  case 0xD2: case 0xD3: { modrm(0); shiftOp(D.reg & 7, op & 1 ? w : 8, getr(RCX, 8)); break; }
  case 0xC3: { uint64_t ra = concretize(ld(C->r[RSP], 64), 64); popv(); C->rip = ra; return; }
  case 0xC6: { modrm(1); setrm(8, fetchImm(1)); break; }
  case 0xC7: { modrm(w == 16 ? 2 : 4); setrm(w, immw(w)); break; }
  case 0xC9: { C->r[RSP] = C->r[RBP]; C->r[RBP] = popv(); break; }
  case 0xE8: { Val d = fetchImm(4); Val t = bop(O_ADD, 64, VC(D.p), sx(d, 32, 64)); uint64_t ta = concretize(t, 64); pushv(VC(D.p)); C->rip = ta; return; }
  case 0xE9: { Val d = fetchImm(4); C->rip = concretize(bop(O_ADD, 64, VC(D.p), sx(d, 32, 64)), 64); return; }
  case 0xEB: { Val d = fetchImm(1); C->rip = concretize(bop(O_ADD, 64, VC(D.p), sx(d, 8, 64)), 64); return; }
  case 0xF6: case 0xF7: {
    unsigned ew = op & 1 ? w : 8; uint64_t save = D.p; Dec sd = D; (void)save;
    // immediate size depends on /reg (needed for rip-relative operands)
    { Val m = readByte(D.p); int rg = (int)((m.e ? concretize(m, 8) : m.c) >> 3) & 7; modrm(rg < 2 ? (ew == 8 ? 1 : ew == 16 ? 2 : 4) : 0); }
    switch (D.reg & 7) {
    case 0: case 1: { Val i = ew == 8 ? fetchImm(1) : immw(ew); alu(4, ew, getrm(ew), i); break; }
    case 2: setrm(ew, bop(O_XOR, ew, getrm(ew), VE(mkConst(maskw(ew), ew)))); break;
    case 3: { Val a = getrm(ew), r = bop(O_SUB, ew, VC(0), a); setf(FK_SUB, ew, VC(0), a, r); setrm(ew, r); break; }
    case 4: mulwide(false, ew, getrm(ew)); break;
    case 5: mulwide(true, ew, getrm(ew)); break;
    case 6: divide(false, ew, getrm(ew)); break;
    case 7: divide(true, ew, getrm(ew)); break;
    }
    break; }
  case 0xFE: case 0xFF: {
    unsigned ew = op & 1 ? w : 8; modrm(0);
    switch (D.reg & 7) {
    case 0: { Val a = getrm(ew), r = bop(O_ADD, ew, a, VC(1)); setf(FK_INC, ew, a, VC(1), r); setrm(ew, r); break; }
    case 1: { Val a = getrm(ew), r = bop(O_SUB, ew, a, VC(1)); setf(FK_UNDEF, ew, a, VC(1), r); setrm(ew, r); break; }
    case 2: { uint64_t t = concretize(D.mem ? ld(D.ea, 64) : C->r[D.rm], 64); pushv(VC(D.p)); C->rip = t; return; }
    case 4: { C->rip = concretize(D.mem ? ld(D.ea, 64) : C->r[D.rm], 64); return; }
    case 6: { Val v = D.mem ? ld(D.ea, 64) : C->r[D.rm]; pushv(v); break; }
    default: bad("group5");
    }
    break; }
  case 0xCC: case 0xF4: fault(E_UNREACH, "trap instruction"); break;
  case 0xD8: case 0xD9: case 0xDA: case 0xDB: case 0xDC: case 0xDD: case 0xDE: case 0xDF: x87(op); break;
  case 0x0F: {
    uint8_t o2 = fetch8();
    unsigned fw = D.rep ? 32 : D.repne ? 64 : D.opsz ? 64 : 32; // scalar width
    bool scalar = D.rep || D.repne;
    if (o2 >= 0x80 && o2 <= 0x8F) { Val d = fetchImm(4); jcc(o2 & 15, d, 32); return; }
    if (o2 >= 0x90 && o2 <= 0x9F) { modrm(0); Expr *c = flagCond(o2 & 15); setrm(8, VE(mkZExt(c, 8))); break; }
    if (o2 >= 0x40 && o2 <= 0x4F) { modrm(0); Expr *c = flagCond(o2 & 15); Val a = getrm(w), b = getr(D.reg, w); setr(D.reg, w, VE(mkIte(c, EX(a, w), EX(b, w)))); break; }
    switch (o2) {
    case 0x0B: fault(E_UNREACH, "ud2"); break;
    case 0x1F: modrm(0); break;
    case 0x1E: modrm(0); break; // endbr64 etc.
    case 0x10: case 0x28: case 0x6F: { modrm(0);
      if (o2 == 0x10 && scalar) { if (D.mem) setxlo(D.reg, fw, ld(D.ea, fw), true); else setxlo(D.reg, fw, xlo(D.rm, fw), false); }
      else { if (o2 == 0x28 && D.mem) { Val e = D.ea; if (!e.e && (e.c & 15)) fault(E_MEM, "unaligned movaps"); } if (D.mem) { Val lo = ld(D.ea, 64), hi = ld(addv(D.ea, 8), 64); C->x[D.reg].lo = lo; C->x[D.reg].hi = hi; } else C->x[D.reg] = C->x[D.rm]; }
      break; }
    case 0x11: case 0x29: case 0x7F: { modrm(0);
      if (o2 == 0x11 && scalar) { if (D.mem) st(D.ea, xlo(D.reg, fw), fw); else setxlo(D.rm, fw, xlo(D.reg, fw), false); }
      else { if (o2 == 0x29 && D.mem) { Val e = D.ea; if (!e.e && (e.c & 15)) fault(E_MEM, "unaligned movaps"); }
        if (D.mem) { 
          st(D.ea, C->x[D.reg].lo, 64); st(addv(D.ea, 8), C->x[D.reg].hi, 64); } else C->x[D.rm] = C->x[D.reg]; }
      break; }
    case 0x2A: { modrm(0); Val v = getrm(w == 64 ? 64 : 32); setxlo(D.reg, fw, VE(mkConv(O_SI2F, EX(v, w == 64 ? 64 : 32), fw)), false); break; }
    case 0x2C: { modrm(0); Val v = xrm(fw); unsigned iw = W ? 64 : 32; setr(D.reg, iw, VE(mkConv(O_F2SI, EX(v, fw), iw))); break; }
    case 0x2E: case 0x2F: { modrm(0); unsigned cw = D.opsz ? 64 : 32; Val b = xrm(cw), a = xlo(D.reg, cw); setf(cw == 64 ? FK_UCOMI64 : FK_UCOMI32, cw, a, b, VC(0)); break; }
    case 0x54: case 0x55: case 0x56: case 0x57: case 0xEF: case 0xEB: case 0xDB: { modrm(0);
      XmmVal b; if (D.mem) { b.lo = ld(D.ea, 64); b.hi = ld(addv(D.ea, 8), 64); } else b = C->x[D.rm];
      XmmVal &a = C->x[D.reg];
      if (!D.mem && D.rm == D.reg && (o2 == 0x57 || o2 == 0xEF)) { a.lo = VC(0); a.hi = VC(0); break; }
      Op oo = o2 == 0x54 || o2 == 0x55 || o2 == 0xDB ? O_AND : o2 == 0x56 || o2 == 0xEB ? O_OR : O_XOR;
      if (o2 == 0x55) { a.lo = bop(O_XOR, 64, a.lo, VC(~0ull)); a.hi = bop(O_XOR, 64, a.hi, VC(~0ull)); }
      a.lo = bop(oo, 64, a.lo, b.lo); a.hi = bop(oo, 64, a.hi, b.hi); break; }
    case 0x58: case 0x59: case 0x5C: case 0x5E: { modrm(0); if (!scalar) bad("packed arithmetic"); Val b = xrm(fw), a = xlo(D.reg, fw); Op oo = o2 == 0x58 ? O_FADD : o2 == 0x59 ? O_FMUL : o2 == 0x5C ? O_FSUB : O_FDIV; setxlo(D.reg, fw, VE(mkBin(oo, EX(a, fw), EX(b, fw))), false); break; }
    case 0x5A: { modrm(0); if (!scalar) bad("packed cvt"); Val b = xrm(fw); setxlo(D.reg, fw == 32 ? 64 : 32, VE(mkConv(O_F2F, EX(b, fw), fw == 32 ? 64 : 32)), false); break; }
    case 0x6E: { modrm(0); unsigned iw = W ? 64 : 32; Val v = getrm(iw); C->x[D.reg].lo = zx(v, iw, 64); C->x[D.reg].hi = VC(0); break; }
    case 0x7E: { modrm(0); if (D.rep) { Val v = xrm(64); C->x[D.reg].lo = v; C->x[D.reg].hi = VC(0); } else { unsigned iw = W ? 64 : 32; setrm(iw, xlo(D.reg, iw)); } break; }
    case 0xD6: { modrm(0); if (D.mem) st(D.ea, C->x[D.reg].lo, 64); else { C->x[D.rm].lo = C->x[D.reg].lo; C->x[D.rm].hi = VC(0); } break; }
    case 0xAF: { modrm(0); Val a = getr(D.reg, w), b = getrm(w); setr(D.reg, w, bop(O_MUL, w, a, b)); setf(FK_UNDEF, w, a, b, a); break; }
    case 0xB6: { modrm(0); setr(D.reg, w, zx(getrm(8), 8, w)); break; }
    case 0xB7: { modrm(0); setr(D.reg, w, zx(getrm(16), 16, w)); break; }
    case 0xBE: { modrm(0); setr(D.reg, w, sx(getrm(8), 8, w)); break; }
    case 0xBF: { modrm(0); setr(D.reg, w, sx(getrm(16), 16, w)); break; }
    case 0xC8: case 0xC9: case 0xCA: case 0xCB: case 0xCC: case 0xCD: case 0xCE: case 0xCF: { int i = (o2 & 7) | ((D.rex & 1) << 3); Expr *e = EX(getr(i, w), w), *r = nullptr; for (unsigned k = 0; k < w; k += 8) { Expr *b = mkExtract(e, k, 8); r = r ? mkConcat(r, b) : b; } setr(i, w, VE(r)); break; }
    default: bad("opcode 0f " + hx(o2));
    }
    break; }
  default: bad("opcode " + hx(op));
  }
  C->rip = D.p;
}

// ---------------------------------------------------------------- ELF
static void rd(uint64_t a, void *dst, unsigned n) { for (unsigned i = 0; i < n; i++) { Val b = readByte(a + i); ((uint8_t *)dst)[i] = (uint8_t)(b.e ? concretize(b, 8) : b.c); } }
static std::string rdStr(uint64_t a) { std::string s; for (;;) { Val b = readByte(a++); uint8_t c = (uint8_t)(b.e ? concretize(b, 8) : b.c); if (!c) return s; s += (char)c; } }
uint64_t x86Symbol(const std::string &n) { auto it = S->xsyms.find(n); return it == S->xsyms.end() ? 0 : it->second; }
static void cpy(uint64_t dst, uint64_t src, uint64_t n) { for (uint64_t i = 0; i < n; i++) { Val b = readByte(src + i); Obj *o = objW(dst); uint64_t off = (dst & ((1ull << SLOT) - 1)) + i; if (!b.e) { o->data[off] = (uint8_t)b.c; if (o->st) o->st[off] = 0; } else { if (!o->st) o->st = (uint8_t *)calloc(o->size + 8, 1); if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); o->st[off] = 1; o->sym[off] = b.e; } } }
static void elfErr(const std::string &m) { throw PathError{E_X86, "invalid object file: " + m}; }

uint64_t elfLoad(uint64_t addr, uint64_t size) {
  // Everything that can fork happens before memory is modified; relocation fields are added symbolically.
  Elf64_Ehdr eh;
  if (size < sizeof eh) elfErr("truncated header");
  rd(addr, &eh, sizeof eh);
  if (memcmp(eh.e_ident, "\177ELF\2\1\1", 7) || eh.e_type != ET_REL || eh.e_machine != EM_X86_64 || eh.e_shentsize != sizeof(Elf64_Shdr) || eh.e_ehsize != sizeof eh) elfErr("bad header");
  if (eh.e_shoff + (uint64_t)eh.e_shnum * sizeof(Elf64_Shdr) > size) elfErr("section headers outside file");
  std::vector<Elf64_Shdr> sh(eh.e_shnum); std::vector<std::string> nm(eh.e_shnum);
  for (int i = 0; i < eh.e_shnum; i++) rd(addr + eh.e_shoff + i * sizeof(Elf64_Shdr), &sh[i], sizeof sh[i]);
  if (eh.e_shstrndx >= eh.e_shnum) elfErr("bad e_shstrndx");
  for (int i = 1; i < eh.e_shnum; i++) {
    if (sh[i].sh_type != SHT_NOBITS && sh[i].sh_offset + sh[i].sh_size > size) elfErr("section outside file");
    if (sh[i].sh_name >= sh[eh.e_shstrndx].sh_size) elfErr("section name outside string table");
    nm[i] = rdStr(addr + sh[eh.e_shstrndx].sh_offset + sh[i].sh_name);
  }
  int symi = -1; for (int i = 0; i < eh.e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) symi = i;
  std::vector<Elf64_Sym> syms; std::vector<std::string> sn;
  if (symi >= 0) {
    auto &ss = sh[symi]; if (ss.sh_entsize != sizeof(Elf64_Sym) || ss.sh_size % sizeof(Elf64_Sym)) elfErr("symtab entsize");
    if (ss.sh_link >= eh.e_shnum || sh[ss.sh_link].sh_type != SHT_STRTAB) elfErr("symtab link");
    unsigned n = ss.sh_size / sizeof(Elf64_Sym); syms.resize(n); sn.resize(n);
    for (unsigned i = 0; i < n; i++) { rd(addr + ss.sh_offset + i * sizeof(Elf64_Sym), &syms[i], sizeof(Elf64_Sym)); if (syms[i].st_name >= sh[ss.sh_link].sh_size) elfErr("symbol name outside string table"); sn[i] = rdStr(addr + sh[ss.sh_link].sh_offset + syms[i].st_name);
      bool local = ELF64_ST_BIND(syms[i].st_info) == STB_LOCAL;
      if (local && i >= ss.sh_info) elfErr("local symbol " + sn[i] + " after sh_info"); if (!local && i < ss.sh_info) elfErr("global symbol " + sn[i] + " before sh_info");
      if (syms[i].st_shndx != SHN_ABS && syms[i].st_shndx != SHN_COMMON && syms[i].st_shndx >= eh.e_shnum) elfErr("symbol section index");
      if (!local && i) for (unsigned j = ss.sh_info; j < i; j++) if (sn[j] == sn[i] && syms[j].st_shndx != SHN_UNDEF && syms[i].st_shndx != SHN_UNDEF) elfErr("duplicate global symbol " + sn[i]);
    }
  }
  struct Rel { int sec; Elf64_Rela r; }; std::vector<Rel> rels;
  for (int i = 0; i < eh.e_shnum; i++) if (sh[i].sh_type == SHT_RELA) {
    if (sh[i].sh_entsize != sizeof(Elf64_Rela) || (int)sh[i].sh_link != symi) elfErr("rela header");
    if (sh[i].sh_info >= eh.e_shnum) elfErr("rela target");
    for (unsigned k = 0; k < sh[i].sh_size / sizeof(Elf64_Rela); k++) {
      Elf64_Rela r; uint64_t ra = addr + sh[i].sh_offset + k * sizeof r;
      // the addend may be symbolic
      rd(ra, &r, 16); Val ad = memRead(VC(ra + 16), 8); r.r_addend = ad.e ? (int64_t)ra : 0; rels.push_back({(int)sh[i].sh_info, r});
      rels.back().r.r_addend = (int64_t)(ra + 16); // address of the addend
      if (ELF64_R_SYM(r.r_info) >= syms.size()) elfErr("relocation symbol index");
    }
  }
  // sizes (concretised) were read above; now place sections
  std::vector<uint64_t> sa(eh.e_shnum, 0);
  for (int i = 1; i < eh.e_shnum; i++) if (sh[i].sh_flags & SHF_ALLOC) {
    uint32_t fl = OF_X86; if (!(sh[i].sh_flags & SHF_WRITE)) fl |= 0;
    sa[i] = mallocObj(sh[i].sh_size, false, strdup(("section " + nm[i]).c_str()), (sh[i].sh_flags & SHF_EXECINSTR) ? OF_X86 : 0);
    if (sh[i].sh_type != SHT_NOBITS && sh[i].sh_size) cpy(sa[i], addr + sh[i].sh_offset, sh[i].sh_size);
  }
  std::vector<uint64_t> sv(syms.size(), 0); std::vector<char> isExtF(syms.size(), 0), weakU(syms.size(), 0);
  for (unsigned i = 1; i < syms.size(); i++) {
    auto &s = syms[i]; bool local = ELF64_ST_BIND(s.st_info) == STB_LOCAL, weak = ELF64_ST_BIND(s.st_info) == STB_WEAK; (void)weak;
    if (s.st_shndx == SHN_ABS) sv[i] = s.st_value;
    else if (s.st_shndx == SHN_COMMON) {
      auto it = S->xsyms.find(sn[i]);
      if (it != S->xsyms.end()) sv[i] = it->second; else { sv[i] = mallocObj(s.st_size, false, strdup(("common " + sn[i]).c_str()), 0); S->xsyms[sn[i]] = sv[i]; }
    } else if (s.st_shndx == SHN_UNDEF) { }
    else {
      if (sa[s.st_shndx] && s.st_value > sh[s.st_shndx].sh_size) elfErr("symbol " + sn[i] + " outside section");
      if (sa[s.st_shndx] && (ELF64_ST_TYPE(s.st_info) == STT_OBJECT || ELF64_ST_TYPE(s.st_info) == STT_FUNC) && s.st_value + s.st_size > sh[s.st_shndx].sh_size) elfErr("symbol " + sn[i] + " extends outside section");
      sv[i] = sa[s.st_shndx] + s.st_value;
      if (!local) { if (S->xsyms.count(sn[i]) && !S->xweak.count(sn[i])) elfErr("multiple definition of " + sn[i]); S->xsyms[sn[i]] = sv[i]; }
    }
  }
  uint64_t plt = 0, pltOff = 0, got = 0, gotOff = 0; std::map<unsigned, uint64_t> gotEnt, pltEnt;
  unsigned nent = rels.size() + 1;
  plt = mallocObj(nent * 8, false, "plt", OF_X86); got = mallocObj(nent * 16, false, "got", 0);
  for (unsigned i = 1; i < syms.size(); i++) if (syms[i].st_shndx == SHN_UNDEF) {
    auto it = S->xsyms.find(sn[i]);
    if (it != S->xsyms.end()) sv[i] = it->second;
    else if (Func *f = funcByName(sn[i])) { sv[i] = f->addr; isExtF[i] = 1; }
    else if (uint64_t g = globalAddr(sn[i])) sv[i] = g;
    else weakU[i] = 1;
  }
  auto near = [&](uint64_t d) { if ((int64_t)d != (int32_t)d) throw PathUnsup{"displacement out of range"}; return VC(d); };
  for (auto &rl : rels) {
    if (!sa[rl.sec]) continue; // debug sections
    unsigned sy = ELF64_R_SYM(rl.r.r_info), ty = ELF64_R_TYPE(rl.r.r_info); uint64_t off = rl.r.r_offset;
    uint64_t P = sa[rl.sec] + off; unsigned fs = ty == R_X86_64_64 ? 8 : 4;
    if (off + fs > sh[rl.sec].sh_size) elfErr("relocation offset outside section");
    if (weakU[sy] && ELF64_ST_BIND(syms[sy].st_info) != STB_WEAK) throw PathError{E_X86, "undefined symbol '" + sn[sy] + "' referenced"};
    Val A = memRead(VC((uint64_t)rl.r.r_addend), 8); uint64_t Sv = sv[sy]; Val v;
    auto gotOf = [&]() { auto it = gotEnt.find(sy); if (it != gotEnt.end()) return it->second; uint64_t g = got + gotOff; gotOff += 8; memWrite(VC(g), VC(Sv), 8); return gotEnt[sy] = g; };
    auto pltOf = [&]() { if (!isExtF[sy]) return Sv; auto it = pltEnt.find(sy); if (it != pltEnt.end()) return it->second; uint64_t g = gotOf(), p = plt + pltOff; pltOff += 8; int32_t d = (int32_t)(g - (p + 6)); uint8_t b[6] = {0xFF, 0x25}; memcpy(b + 2, &d, 4); for (int k = 0; k < 6; k++) writeByte(p + k, VC(b[k])); return pltEnt[sy] = p; };
    switch (ty) {
    case R_X86_64_64: v = bop(O_ADD, 64, VC(Sv), A); memWrite(VC(P), v, 8); break;
    case R_X86_64_PC32: { uint64_t base = isExtF[sy] ? pltOf() : Sv; v = bop(O_ADD, 64, near(base - P), A); memWrite(VC(P), ext(v, 0, 32), 4); break; }
    case R_X86_64_PLT32: { uint64_t base = pltOf(); v = bop(O_ADD, 64, near(base - P), A); memWrite(VC(P), ext(v, 0, 32), 4); break; }
    case R_X86_64_GOTPCREL: case 41: case 42: { uint64_t g = gotOf(); v = bop(O_ADD, 64, near(g - P), A); memWrite(VC(P), ext(v, 0, 32), 4); break; }
    case R_X86_64_32S: case R_X86_64_32: { v = bop(O_ADD, 64, VC(Sv), A); 
      Expr *fits = mkEq(EX(v, 64), ty == R_X86_64_32S ? mkSExt(mkExtract(EX(v, 64), 0, 32), 64) : mkZExt(mkExtract(EX(v, 64), 0, 32), 64));
      if (!mustBeTrue(fits)) throw PathUnsup{"32-bit absolute relocation out of range"};
      memWrite(VC(P), ext(v, 0, 32), 4); break; }
    default: elfErr("relocation type " + std::to_string(ty));
    }
  }
  return 1;
}
