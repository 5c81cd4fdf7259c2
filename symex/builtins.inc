// Engine-implemented functions. Included by exec.cpp.
typedef bool (*BI)(std::vector<Val> &, std::vector<Val> &, CallInfo *);
static std::unordered_map<std::string, BI> builtinTab;
#define B(name) static bool bi_##name(std::vector<Val> &a, std::vector<Val> &r, CallInfo *ci)
void reportAssert(Expr *c, const std::string &msg);
static bool unwindToCatch(uint64_t code);
static uint64_t statTrap = 0;

static std::string uniqName(const std::string &n) {
  int k = S->nameCount[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static Obj *checkedObj(uint64_t addr, uint64_t n, const char *what) {
  Obj *o = objAt(addr); uint64_t off = addr & SLOTMASK;
  if (!o || off + n > o->size) memErr(std::string("out-of-bounds ") + what + " of " + std::to_string(n) + " at " + hex(addr) + (o ? std::string(" object ") + (o->name ? o->name : "?") + " size " + std::to_string(o->size) : ""));
  return o;
}
B(malloc) { uint64_t n = concretize(a[0], 64); if (n > (12u << 20)) { r.push_back(VC(0)); return true; } r.push_back(VC(mallocObj(n, true, "malloc", OF_HEAP))); return true; }
B(calloc) { uint64_t n = concretize(a[0], 64) * concretize(a[1], 64); if (n > (12u << 20)) { r.push_back(VC(0)); return true; } r.push_back(VC(mallocObj(n, false, "calloc", OF_HEAP))); return true; }
static void rawCopy(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj *so = checkedObj(src, n, "read"), *dobj = checkedObj(dst, n, "write");
  if (dobj->flags & OF_RO) memErr("write to read-only object");
  uint64_t so_ = src & SLOTMASK, do_ = dst & SLOTMASK;
  dobj = objW(dst); so = objAt(src);
  if (!so->st) { memmove(dobj->data + do_, so->data + so_, n); if (dobj->st) memset(dobj->st + do_, 0, n); return; }
  bool anySym = false, any = false;
  for (uint64_t i = 0; i < n; i++) { if (so->st[so_ + i] == 1) anySym = true; if (so->st[so_ + i]) any = true; }
  if (!any) { memmove(dobj->data + do_, so->data + so_, n); if (dobj->st) memset(dobj->st + do_, 0, n); return; }
  if (!dobj->st) dobj->st = (uint8_t *)calloc(dobj->size + 8, 1);
  if (anySym && !dobj->sym) dobj->sym = (Expr **)calloc(dobj->size, sizeof(Expr *));
  so = objAt(src);
  memmove(dobj->data + do_, so->data + so_, n);
  memmove(dobj->st + do_, so->st + so_, n);
  if (anySym) memmove(dobj->sym + do_, so->sym + so_, n * sizeof(Expr *));
}
B(realloc) {
  uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
  if (n > (12u << 20)) { r.push_back(VC(0)); return true; }
  uint64_t q = mallocObj(n, true, "realloc", OF_HEAP);
  if (p) { Obj *o = objAt(p); if (!o || (p & SLOTMASK) || !(o->flags & OF_HEAP)) memErr("realloc of invalid pointer"); rawCopy(q, p, std::min<uint64_t>(n, o->size)); freeSlot(S->heap, p >> SLOT); }
  r.push_back(VC(q)); return true;
}
B(free) { uint64_t p = concretize(a[0], 64); if (!p) return true; Obj *o = objAt(p); if (!o || (p & SLOTMASK) || !(o->flags & OF_HEAP)) memErr("free of invalid pointer " + hex(p)); freeSlot(S->heap, p >> SLOT); return true; }
B(memcpy) {
  uint64_t n = concretize(a[2], 64), d = concretize(a[0], 64), s = n ? concretize(a[1], 64) : 0;
  if (n > (1u << 24)) memErr("memcpy of huge size " + hex(n));
  rawCopy(d, s, n); r.push_back(VC(d)); return true;
}
B(memset) {
  uint64_t n = concretize(a[2], 64), d = concretize(a[0], 64);
  if (n > (1u << 24)) memErr("memset of huge size " + hex(n));
  if (n) {
    Obj *o = checkedObj(d, n, "write"); if (o->flags & OF_RO) memErr("write to read-only object"); o = objW(d);
    if (!a[1].e) { memset(o->data + (d & SLOTMASK), (int)a[1].c, n); if (o->st) memset(o->st + (d & SLOTMASK), 0, n); }
    else for (uint64_t i = 0; i < n; i++) writeByte(d + i, VE(mkExtract(EX(a[1], 32), 0, 8)));
  }
  r.push_back(VC(d)); return true;
}
B(memcmp) {
  uint64_t n = concretize(a[2], 64), p = concretize(a[0], 64), q = concretize(a[1], 64);
  if (!n) { r.push_back(VC(0)); return true; }
  Obj *x = checkedObj(p, n, "read"), *y = checkedObj(q, n, "read");
  if (!x->st && !y->st) { int c = memcmp(x->data + (p & SLOTMASK), y->data + (q & SLOTMASK), n); r.push_back(VC((uint32_t)(c < 0 ? -1 : c > 0))); return true; }
  Expr *e = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    Expr *u = EX(readByte(p + i), 8), *v = EX(readByte(q + i), 8);
    e = mkIte(mkEq(u, v), e, mkIte(mkBin(O_ULT, u, v), mkConst(~0u, 32), mkConst(1, 32)));
  }
  r.push_back(VE(e)); return true;
}
B(strlen) {
  uint64_t p = concretize(a[0], 64); Obj *o = objAt(p); if (!o) memErr("strlen of invalid pointer " + hex(p));
  for (uint64_t i = 0;; i++) {
    Val b = readByte(p + i);
    if (b.e ? decide(mkEq(b.e, mkConst(0, 8))) : b.c == 0) { r.push_back(VC(i)); return true; }
  }
}
static void strcmpN(uint64_t p, uint64_t q, uint64_t n, std::vector<Val> &r) {
  // collect until a definite end, then build one expression
  std::vector<std::pair<Expr *, Expr *>> v; 
  for (uint64_t i = 0; i < n; i++) {
    Val x = readByte(p + i), y = readByte(q + i);
    v.push_back({EX(x, 8), EX(y, 8)});
    if (!x.e && !y.e && (x.c != y.c || x.c == 0)) break;
    // a concrete nul on one side ends the comparison
    if ((!x.e && x.c == 0) || (!y.e && y.c == 0)) break;
    if (x.e && y.e && decide(mkEq(x.e, mkConst(0, 8)))) break;
  }
  Expr *e = mkConst(0, 32);
  for (size_t i = v.size(); i-- > 0;) {
    Expr *u = v[i].first, *w = v[i].second;
    Expr *next = mkIte(mkEq(u, mkConst(0, 8)), mkConst(0, 32), e);
    e = mkIte(mkEq(u, w), next, mkIte(mkBin(O_ULT, u, w), mkConst(~0u, 32), mkConst(1, 32)));
  }
  r.push_back(VE(e));
}
B(strcmp) { strcmpN(concretize(a[0], 64), concretize(a[1], 64), ~0ull, r); return true; }
B(strncmp) { strcmpN(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64), r); return true; }
B(abort) { throw PathError{E_ABORT, "abort() " + whereAmI()}; }
B(__assert_fail) { throw PathError{E_ASSERT, "assertion failed: " + readCStr(a[0].c) + " in " + readCStr(a[3].c) + " " + whereAmI()}; }
B(exit) {
  uint64_t c = concretize(a[0], 32);
  if (!unwindToCatch(c & 0xff)) throw PathKill{};
  return false;
}
// ---- intrinsics
B(sx_is_engine) { r.push_back(VC(1)); return true; }
B(sx_make_symbolic) {
  uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64); std::string nm = uniqName(readCStr(a[2].c));
  std::vector<uint32_t> vs;
  for (uint64_t i = 0; i < n; i++) { Expr *v = mkVar(nm + "[" + std::to_string(i) + "]", 8); vs.push_back((uint32_t)v->val); writeByte(p + i, VE(v)); }
  S->inputVars.push_back({nm, vs});
  return true;
}
B(sx_var) {
  unsigned w = (unsigned)concretize(a[0], 32); std::string nm = uniqName(readCStr(a[1].c));
  Expr *v = mkVar(nm, w); S->inputVars.push_back({nm, {(uint32_t)v->val}});
  r.push_back(VE(mkZExt(v, 64))); return true;
}
B(sx_magic) {
  uint64_t k = concretize(a[0], 64);
  auto it = S->magic.find(k);
  if (it == S->magic.end()) {
    Expr *v = mkVar("mag" + std::to_string(k), 64); S->inputVars.push_back({"mag" + std::to_string(k), {(uint32_t)v->val}});
    S->magic[k] = v; r.push_back(VE(v)); return true;
  }
  r.push_back(VE(it->second)); return true;
}
B(sx_set_magic) { S->magic[concretize(a[0], 64)] = EX(a[1], 64); return true; }
B(sx_assume) { assumeC(mkNot(mkEq(EX(a[0], 32), mkConst(0, 32)))); return true; }
B(sx_assert) { reportAssert(mkNot(mkEq(EX(a[0], 32), mkConst(0, 32))), readCStr(a[1].c)); return true; }
B(sx_cover) { covers[readCStr(a[0].c)]++; return true; }
B(sx_kill) { throw PathKill{}; }
B(sx_unsupported) { throw PathUnsup{readCStr(a[0].c)}; }
B(sx_fork) { // arbitrary boolean decision made by the environment
  r.push_back(VC(decide(mkEq(EX(a[0], 32), mkConst(0, 32))) ? 0 : 1)); return true; }
B(sx_choose) {
  // restartable: the variable is remembered in nameCount-keyed magic slot
  uint64_t n = concretize(a[0], 32); 
  std::string base = readCStr(a[1].c);
  std::string key = "\x01pending-" + base;
  Expr *v;
  if (S->nameCount[key] == 0) {
    std::string nm = uniqName(base);
    v = mkVar(nm, n <= 256 ? 8 : 32); S->inputVars.push_back({nm, {(uint32_t)v->val}}); // byte domains are decided by truth table
    S->nameCount[key] = (int)v->val + 1;
    if (n != 256) assumeC(mkBin(O_ULT, v, mkConst(n, v->w)));
  } else v = g_varExpr[S->nameCount[key] - 1];
  uint64_t x = concretize(VE(v), v->w);
  S->nameCount[key] = 0;
  r.push_back(VC(x)); return true;
}
B(sx_concretize) { r.push_back(VC(concretize(a[0], 64))); return true; }
B(sx_value) { r.push_back(VC(a[0].e ? (uint64_t)evalExpr(a[0].e, S->model) : a[0].c)); return true; } // a value allowed on this path, no fork
B(sx_is_symbolic) { r.push_back(VC(a[0].e != nullptr)); return true; }
B(sx_bytes_symbolic) { uint64_t p = a[0].c, n = a[1].c; Obj *o = checkedObj(p, n, "read"); bool s = false; if (o->st) for (uint64_t i = 0; i < n; i++) if (o->st[(p & SLOTMASK) + i]) s = true; r.push_back(VC(s)); return true; }
B(sx_log) { S->log.push_back(readCStr(a[0].c)); if (S->log.size() > 60) S->log.erase(S->log.begin()); return true; }
B(sx_print) { std::string s = readCStr(a[0].c); fprintf(stderr, "%s", s.c_str()); return true; }
B(sx_print_val) { std::string s = readCStr(a[0].c); fprintf(stderr, "%s %s\n", s.c_str(), a[1].e ? exprStr(a[1].e, 12).c_str() : hex(a[1].c).c_str()); return true; }
B(sx_last_error) {
  uint64_t p = a[0].c, n = a[1].c; std::string s = S->lastError.substr(0, n - 1);
  for (size_t i = 0; i <= s.size(); i++) writeByte(p + i, VC(i < s.size() ? (uint8_t)s[i] : 0));
  return true;
}
B(sx_catch) {
  uint64_t fa = concretize(a[0], 64); Func *f = funcAt(fa); if (!f) throw PathUnsup{"sx_catch target"};
  std::vector<Val> args(a.begin() + 1, a.end());
  S->lastError.clear(); S->lastErrorKind = 0; S->steps = 0;
  Frame &caller = S->fr.back(); (void)caller;
  doCall(f, args, ci, false);
  S->fr.back().isCatch = true;
  return false;
}
B(sx_reset_target) {
  for (auto &g : targetGlobals) {
    Obj **o = slotRef(S->heap, g.first >> SLOT, true); unrefObj(*o); g.second->ref++; *o = g.second;
  }
  return true;
}
B(sx_heap_down) { static const uint64_t top = STACK_ID0 - 16; S->heapDown = !concretize(a[0], 32) ? 0 : S->heapDown ? S->heapDown : top; return true; }
B(sx_arg) { // command line argument i as string, 0 if absent
  uint64_t i = a[0].c; if (i >= optArgs.size()) { r.push_back(VC(0)); return true; }
  const std::string &s = optArgs[i]; uint64_t p = mallocObj(s.size() + 1, false, "arg", OF_HEAP); for (size_t k = 0; k < s.size(); k++) writeByte(p + k, VC((uint8_t)s[k])); r.push_back(VC(p)); return true; }
B(sx_host_file) { // (path, size_t *n) -> buffer with the contents of a real file, or 0
  std::string p = readCStr(a[0].c); FILE *f = fopen(p.c_str(), "rb"); if (!f) { r.push_back(VC(0)); return true; }
  std::string s; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); fclose(f);
  uint64_t m = mallocObj(s.size() + 1, false, "hostfile", OF_HEAP); Obj *o = objW(m); memcpy(o->data, s.data(), s.size());
  memWrite(a[1], VC(s.size()), 8); r.push_back(VC(m)); return true;
}
B(sx_dump) { // (path, data, n): write bytes (model values) to a real file, debugging aid
  std::string p = readCStr(a[0].c); FILE *f = fopen(p.c_str(), "wb"); if (!f) return true;
  for (uint64_t i = 0; i < a[2].c; i++) { Val b = readByte(a[1].c + i); fputc(b.e ? (int)evalExpr(b.e, S->model) : (int)b.c, f); } fclose(f); return true;
}
B(sx_strtod) { // host conversion of a concrete string; (str, char **end) -> double bits
  uint64_t p = concretize(a[0], 64), pe = concretize(a[1], 64); std::string s; char *e;
  for (uint64_t i = 0; ; i++) { uint8_t c = (uint8_t)concretize(readByte(p + i), 8); if (!c) break; s += (char)c; }
  double d = strtod(s.c_str(), &e);
  if (pe) memWrite(VC(pe), VC(p + (e - s.c_str())), 8);
  uint64_t b; memcpy(&b, &d, 8); r.push_back(VC(b)); return true;
}
B(sx_fmt) { // (buf, n, spec, ptr to value, isLongDouble): host formatting of a concrete floating value
  std::string sp = readCStr(a[2].c); char out[400]; unsigned char v[16] = {0}; int nb = a[4].c ? 10 : 8;
  for (int i = 0; i < nb; i++) { Val b = readByte(a[3].c + i); if (b.e) throw PathUnsup{"printing a symbolic float"}; v[i] = (unsigned char)b.c; }
  if (a[4].c) { long double d; memcpy(&d, v, 16); snprintf(out, sizeof out, sp.c_str(), d); } else { double d; memcpy(&d, v, 8); snprintf(out, sizeof out, sp.c_str(), d); }
  for (size_t i = 0; i < a[1].c; i++) { writeByte(a[0].c + i, VC((uint8_t)out[i])); if (!out[i]) break; }
  return true; }
B(sx_overread) { S->overread = concretize(a[0], 32) != 0; return true; }
B(sx_overreads) { r.push_back(VC(S->overreads)); return true; }
B(sx_path_id) { r.push_back(VC(S->id)); return true; }
B(sx_undef) { r.push_back(VE(freshUndef(64, "undef64"))); return true; }
B(sx_has_undef) { // does the value depend on uninitialised memory?
  bool u = false; if (a[0].e) for (auto v : a[0].e->vs->v) if (g_vars[v].undef) u = true; r.push_back(VC(u)); return true; }
B(sx_range_undef) { // first offset of a byte depending on uninitialised memory, or n
  uint64_t p = a[0].c, n = a[1].c;
  for (uint64_t i = 0; i < n; i++) { Obj *o = objAt(p); uint64_t off = (p & SLOTMASK) + i; bool u = false;
    if (o->st && o->st[off] == 2) u = true; else if (o->st && o->st[off] == 1) for (auto v : o->sym[off]->vs->v) if (g_vars[v].undef) u = true;
    if (u) { r.push_back(VC(i)); return true; } }
  r.push_back(VC(n)); return true; }
B(sx_poison) { // make [p, p+n) uninitialised
  uint64_t p = a[0].c, n = a[1].c; if (!n) return true; checkedObj(p, n, "write"); Obj *o = objW(p); if (!o->st) o->st = (uint8_t *)calloc(o->size + 8, 1); memset(o->st + (p & SLOTMASK), 2, n); return true; }
B(sx_elf_load) { elfLoad(concretize(a[0], 64), concretize(a[1], 64)); r.push_back(VC(0)); return true; }
B(sx_sym) { std::string n = readCStr(a[0].c); r.push_back(VC(x86Symbol(n))); return true; }
B(sx_ref) { std::string n = "ref_" + readCStr(a[0].c); if (Func *f = funcByName(n)) r.push_back(VC(f->addr)); else r.push_back(VC(globalAddr(n))); return true; }
B(trapkill) { statTrap++; throw PathKill{}; }
B(sx_objsize) { Obj *o = objAt(a[0].c); r.push_back(VC(o ? o->size - (a[0].c & SLOTMASK) : 0)); return true; }
B(sx_fresh_paths) { r.push_back(VC(statPaths)); return true; }
B(sx_smt_ite) { // (c, a, b) without forking
  r.push_back(VE(mkIte(mkNot(mkEq(EX(a[0], 32), mkConst(0, 32))), EX(a[1], 64), EX(a[2], 64)))); return true; }
B(stacksave) { r.push_back(VC(0)); return true; }
B(stackrestore) { return true; }  // blocks are released at return
// ---- variadic
B(__va_start) {
  Frame &f = S->fr.back(); uint64_t ap = concretize(a[0], 64);
  unsigned gp = 0, fp = 0;
  for (auto &t : f.f->at) { if (t.kind == 0) gp++; else if (t.kind == 1) fp++; }
  gp = std::min(gp, 6u); fp = std::min(fp, 8u);
  if (f.fromX86) {
    memWrite(VC(ap), VC(gp * 8), 4); memWrite(VC(ap + 4), VC(48 + fp * 16), 4);
    memWrite(VC(ap + 8), VC(f.vaStack), 8); memWrite(VC(ap + 16), VC(f.vaBy[0]), 8); return true;
  }
  uint64_t rs = mallocObj(176, true, "reg_save_area", OF_HEAP);
  uint64_t total = 16; for (size_t i = 0; i < f.va.size(); i++) total += (f.vaK[i] == 3 ? (uint32_t)f.vaBy[i] + 15 : 16) + 8;
  uint64_t ov = mallocObj(total, true, "overflow_arg_area", OF_HEAP), o = 0;
  unsigned g = gp, x = fp;
  for (size_t i = 0; i < f.va.size(); i++) {
    Val v = f.va[i]; unsigned w = f.vaW[i];
    if (f.vaK[i] == 3) { unsigned al = f.vaBy[i] >> 32; if (al > 8) o = (o + 15) & ~15ull; rawCopy(ov + o, v.c, (uint32_t)f.vaBy[i]); o = (o + (uint32_t)f.vaBy[i] + 7) & ~7ull; continue; }
    if (f.vaK[i] == 2) { o = (o + 15) & ~15ull; memWrite(VC(ov + o), v, 10); o += 16; continue; }
    if (f.vaK[i] == 1 && x < 8) { memWrite(VC(rs + 48 + 16 * x++), v, w / 8); continue; }
    if (f.vaK[i] == 0 && g < 6) { memWrite(VC(rs + 8 * g++), v.e ? VE(mkZExt(v.e, 64)) : v, 8); continue; }
    memWrite(VC(ov + o), v, w < 8 ? 1 : w / 8); o += 8;
  }
  memWrite(VC(ap), VC(gp * 8), 4); memWrite(VC(ap + 4), VC(48 + fp * 16), 4);
  memWrite(VC(ap + 8), VC(ov), 8); memWrite(VC(ap + 16), VC(rs), 8);
  return true;
}
B(__va_copy) { rawCopy(concretize(a[0], 64), concretize(a[1], 64), 24); return true; }
B(__va_end) { return true; }

// ---- LLVM integer intrinsics (width from the name suffix)
static unsigned biW(CallInfo *ci) { auto &n = ci->callee->name; size_t k = n.rfind(".i"); return (unsigned)atoi(n.c_str() + k + 2); }
static void pushE(std::vector<Val> &r, Expr *e) { r.push_back(VE(e)); }
B(llvm_abs) { unsigned w = biW(ci); Expr *x = EX(a[0], w); pushE(r, mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); return true; }
B(llvm_ptrmask) { pushE(r, mkBin(O_AND, EX(a[0], 64), EX(a[1], 64))); return true; }
B(llvm_smin) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *y = EX(a[1], w); pushE(r, mkIte(mkBin(O_SLT, x, y), x, y)); return true; }
B(llvm_smax) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *y = EX(a[1], w); pushE(r, mkIte(mkBin(O_SLT, x, y), y, x)); return true; }
B(llvm_umin) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *y = EX(a[1], w); pushE(r, mkIte(mkBin(O_ULT, x, y), x, y)); return true; }
B(llvm_umax) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *y = EX(a[1], w); pushE(r, mkIte(mkBin(O_ULT, x, y), y, x)); return true; }
B(llvm_usub_sat) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *y = EX(a[1], w); pushE(r, mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); return true; }
B(llvm_bswap) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *o = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mkExtract(x, i, 8); o = o ? mkConcat(o, b) : b; } pushE(r, o); return true; }
B(llvm_ctpop) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *o = mkConst(0, w); for (unsigned i = 0; i < w; i++) o = mkBin(O_ADD, o, mkZExt(mkExtract(x, i, 1), w)); pushE(r, o); return true; }
B(llvm_cttz) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *o = mkConst(w, w); for (unsigned i = w; i-- > 0;) o = mkIte(mkExtract(x, i, 1), mkConst(i, w), o); pushE(r, o); return true; }
B(llvm_ctlz) { unsigned w = biW(ci); Expr *x = EX(a[0], w), *o = mkConst(w, w); for (unsigned i = 0; i < w; i++) o = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), o); pushE(r, o); return true; }
static bool ovf(std::vector<Val> &a, std::vector<Val> &r, CallInfo *ci, Op op, bool sg) {
  unsigned w = biW(ci), W = op == O_MUL ? std::min(128u, w * 2) : w + 1; Expr *x = EX(a[0], w), *y = EX(a[1], w);
  Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W), *t = mkBin(op, X, Y), *lo = mkExtract(t, 0, w);
  pushE(r, lo); pushE(r, mkNot(mkEq(sg ? mkSExt(lo, W) : mkZExt(lo, W), t))); return true; }
B(llvm_uadd_with_overflow) { return ovf(a, r, ci, O_ADD, false); }
B(llvm_sadd_with_overflow) { return ovf(a, r, ci, O_ADD, true); }
B(llvm_usub_with_overflow) { return ovf(a, r, ci, O_SUB, false); }
B(llvm_ssub_with_overflow) { return ovf(a, r, ci, O_SUB, true); }
B(llvm_umul_with_overflow) { return ovf(a, r, ci, O_MUL, false); }
B(llvm_smul_with_overflow) { return ovf(a, r, ci, O_MUL, true); }

static void initBuiltins() {
#define R(n) builtinTab[#n] = bi_##n;
  R(malloc) R(calloc) R(realloc) R(free) R(memcpy) R(memset) R(memcmp) R(strlen) R(strcmp) R(strncmp) R(abort) R(__assert_fail) R(exit)
  builtinTab["_exit"] = bi_exit; builtinTab["memmove"] = bi_memcpy;
  R(sx_is_engine) R(sx_make_symbolic) R(sx_var) R(sx_magic) R(sx_set_magic) R(sx_assume) R(sx_assert) R(sx_cover) R(sx_kill) R(sx_unsupported) R(sx_fork) R(sx_choose) R(sx_concretize) R(sx_value) R(sx_is_symbolic) R(sx_bytes_symbolic)
  R(sx_log) R(sx_print) R(sx_print_val) R(sx_last_error) R(sx_catch) R(sx_reset_target) R(sx_heap_down) R(sx_arg) R(sx_host_file) R(sx_dump) R(sx_strtod) builtinTab["llvm.ubsantrap"] = builtinTab["llvm.trap"] = bi_trapkill; R(sx_ref) R(sx_path_id) R(sx_fmt) R(sx_overread) R(sx_overreads) R(sx_undef) R(sx_has_undef) R(sx_range_undef) R(sx_poison) R(sx_elf_load) R(sx_sym) R(sx_objsize) R(sx_fresh_paths) R(sx_smt_ite)
  R(__va_start) R(__va_copy) R(__va_end)
  builtinTab["llvm.stacksave.p0"] = bi_stacksave; builtinTab["llvm.stackrestore.p0"] = bi_stackrestore; builtinTab["llvm_ptrmask_p0"] = bi_llvm_ptrmask; R(llvm_abs) R(llvm_smin) R(llvm_smax) R(llvm_umin) R(llvm_umax) R(llvm_usub_sat) R(llvm_bswap) R(llvm_ctpop) R(llvm_cttz) R(llvm_ctlz)
  R(llvm_uadd_with_overflow) R(llvm_sadd_with_overflow) R(llvm_usub_with_overflow) R(llvm_ssub_with_overflow) R(llvm_umul_with_overflow) R(llvm_smul_with_overflow)
#undef R
}
