// Symbolic executor for LLVM IR (plus bridge to the x86-64 executor in x86.cpp)
#include "exec.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <algorithm>
#include <unistd.h>
#include <sys/resource.h>

using namespace llvm;

State *S;
static std::vector<State *> worklist;
static uint64_t nextStateId = 1;
static std::unique_ptr<llvm::Module> M;
static LLVMContext *Ctx;
static const DataLayout *DL;
static std::vector<Func *> funcs;
static std::unordered_map<const Function *, Func *> funcMap;
static std::unordered_map<std::string, Func *> funcNames;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::unordered_map<std::string, uint64_t> gnames;
static std::set<std::string> targetNames;
static std::vector<std::pair<uint64_t, Obj *>> targetGlobals; // initial images
static std::set<std::string> touchedFuncs;

// statistics / options
static uint64_t statInsts, statPaths, statForks, statAssertStruct, statAssertSolver, statAssertFail, statUnsup, statKilled, statErr, statIncomplete, statCatch;
static std::map<std::string, uint64_t> covers;
static std::vector<std::string> unsupMsgs, errMsgs;
static uint64_t optMaxPaths = 1000000, optSeed = 1; static double optMaxTime = 600; static uint64_t optHang = 400000000ull; static unsigned optMaxCex = 24;
static bool optQuiet = false;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static std::vector<std::string> optArgs;
static std::string cexJson;  // accumulated counterexamples
static std::vector<std::string> sampleInputs;

// ---------------------------------------------------------------- memory
static Obj *allocObj(uint32_t size, uint32_t flags, const char *name, bool undef) {
  Obj *o = new Obj;
  o->ref = 1; o->size = size; o->flags = flags; o->name = name; o->sym = nullptr;
  o->data = (uint8_t *)calloc(size + 8, 1);
  if (undef) { o->st = (uint8_t *)malloc(size + 8); memset(o->st, 2, size + 8); } else o->st = nullptr;
  return o;
}
static Obj *cloneObj(Obj *a) {
  Obj *o = new Obj(*a); o->ref = 1;
  o->data = (uint8_t *)malloc(a->size + 8); memcpy(o->data, a->data, a->size + 8);
  if (a->st) { o->st = (uint8_t *)malloc(a->size + 8); memcpy(o->st, a->st, a->size + 8); }
  if (a->sym) { o->sym = (Expr **)malloc(sizeof(Expr *) * a->size); memcpy(o->sym, a->sym, sizeof(Expr *) * a->size); }
  return o;
}
static void unrefObj(Obj *o) { if (o && --o->ref == 0) { free(o->data); free(o->st); free(o->sym); delete o; } }
static Obj **slotRef(Region &r, uint64_t i, bool write) {
  uint64_t p = i >> 8;
  if (p >= r.pages.size()) { if (!write) return nullptr; r.pages.resize(p + 1, nullptr); }
  Page *&pg = r.pages[p];
  if (!pg) { if (!write) return nullptr; pg = (Page *)calloc(1, sizeof(Page)); pg->ref = 1; }
  if (write && pg->ref > 1) {
    Page *n = (Page *)malloc(sizeof(Page)); memcpy(n, pg, sizeof(Page)); n->ref = 1;
    for (auto o : n->o) if (o) o->ref++;
    pg->ref--; pg = n;
  }
  return &pg->o[i & 255];
}
static inline Region &regionOf(uint64_t id, uint64_t &idx) {
  if (id >= STACK_ID0) { idx = id - STACK_ID0; return S->stack; }
  idx = id; return S->heap;
}
Obj *objAt(uint64_t addr) {
  uint64_t id = addr >> SLOT, idx; if (id >= (FUNC_BASE >> SLOT)) return nullptr;
  Region &r = regionOf(id, idx);
  uint64_t p = idx >> 8; if (p >= r.pages.size() || !r.pages[p]) return nullptr;
  return r.pages[p]->o[idx & 255];
}
Obj *objW(uint64_t addr) {
  uint64_t idx; Region &r = regionOf(addr >> SLOT, idx);
  Obj **o = slotRef(r, idx, true);
  if ((*o)->ref > 1) { (*o)->ref--; *o = cloneObj(*o); }
  return *o;
}
uint64_t mallocObj(uint32_t size, bool undef, const char *name, uint32_t flags) {
  uint64_t i = S->heapDown ? --S->heapDown : S->heap.next++;
  if (i >= STACK_ID0) throw PathUnsup{"heap ids exhausted"};
  if (size > SLOTMASK) throw PathUnsup{"object too large"};
  *slotRef(S->heap, i, true) = allocObj(size, flags, name, undef);
  return i << SLOT;
}
static uint64_t stackObj(uint32_t size) {
  uint64_t i = S->stack.next++;
  *slotRef(S->stack, i, true) = allocObj(size, OF_STACK, "stack", true);
  return (i + STACK_ID0) << SLOT;
}
static void freeSlot(Region &r, uint64_t i) { Obj **o = slotRef(r, i, true); unrefObj(*o); *o = nullptr; }
static void stackPopTo(uint64_t base) { while (S->stack.next > base) freeSlot(S->stack, --S->stack.next); }

static State *cloneState(State *s) {
  State *n = new State(*s);
  n->id = nextStateId++; n->parent = s->id;
  for (Region *r : {&n->heap, &n->stack}) for (auto p : r->pages) if (p) p->ref++;
  for (auto &f : n->fr) if (f.x) f.x = new X86(*f.x);
  return n;
}
static void freeState(State *s) {
  for (Region *r : {&s->heap, &s->stack}) for (auto p : r->pages) if (p && --p->ref == 0) { for (auto o : p->o) unrefObj(o); free(p); }
  for (auto &f : s->fr) delete f.x;
  delete s;
}

// ---------------------------------------------------------------- constraints
static void modelSet(Model &m, uint32_t v, u128 x) { if (m.size() <= v) m.resize(v + 1, 0); m[v] = x; }
static bool small1(Expr *c) { return c->vs->v.size() == 1 && g_vars[c->vs->v[0]].w <= 8; }
static Bits256 domOf(State *s, uint32_t v) {
  auto it = s->dom.find(v);
  if (it != s->dom.end()) return it->second;
  Bits256 b; unsigned n = 1u << g_vars[v].w;
  for (int i = 0; i < 4; i++) b[i] = n >= 64u * (i + 1) ? ~0ull : n > 64u * i ? (1ull << (n - 64 * i)) - 1 : 0;
  return b;
}
static bool bitsAny(const Bits256 &a) { return a[0] | a[1] | a[2] | a[3]; }
static Bits256 bitsAnd(const Bits256 &a, const Bits256 &b, bool neg) { Bits256 r; for (int i = 0; i < 4; i++) r[i] = a[i] & (neg ? ~b[i] : b[i]); return r; }
static unsigned bitsFirst(const Bits256 &a) { for (int i = 0; i < 4; i++) if (a[i]) return i * 64 + __builtin_ctzll(a[i]); return 0; }

static void addConstraint(State *s, Expr *c) {
  if (c->isc()) return;
  if (c->op == O_AND && c->w == 1) { addConstraint(s, c->a); addConstraint(s, c->b); s->facts.insert(c); return; }
  if (!s->facts.insert(c).second) return;
  s->pc.push_back(c);
  if (small1(c)) { uint32_t v = c->vs->v[0]; s->dom[v] = bitsAnd(domOf(s, v), truthTable(c), false); }
  else for (auto v : c->vs->v) s->multi.insert(v);
}
static std::vector<Expr *> slice(State *s, Expr *c) {
  std::vector<Expr *> r{c};
  std::unordered_set<uint32_t> vars(c->vs->v.begin(), c->vs->v.end());
  std::vector<char> in(s->pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s->pc.size(); i++) if (!in[i]) {
      for (auto v : s->pc[i]->vs->v) if (vars.count(v)) {
        in[i] = 1; ch = true; r.push_back(s->pc[i]);
        vars.insert(s->pc[i]->vs->v.begin(), s->pc[i]->vs->v.end());
        break;
      }
    }
  }
  return r;
}
static Sat feasible(State *s, Expr *c, std::vector<std::pair<uint32_t, u128>> &m) {
  if (c->isc()) return c->val ? SAT : UNSAT;
  return solve(slice(s, c), &m);
}
static void pushFork(Expr *c, const std::vector<std::pair<uint32_t, u128>> &m) {
  State *n = cloneState(S);
  for (auto &p : m) modelSet(n->model, p.first, p.second);
  addConstraint(n, c);
  n->forks++;
  statForks++;
  worklist.push_back(n);
}
bool decide(Expr *c) {
  if (c->isc()) return c->val != 0;
  if (S->facts.count(c)) return true;
  Expr *nc = mkNot(c);
  if (S->facts.count(nc)) return false;
  if (small1(c)) {
    uint32_t v = c->vs->v[0];
    const Bits256 tt = truthTable(c);
    Bits256 d = domOf(S, v);
    Bits256 t = bitsAnd(d, tt, false), f = bitsAnd(d, tt, true);
    if (!bitsAny(t)) { g_sstat.domainHits++; return false; }
    if (!bitsAny(f)) { g_sstat.domainHits++; return true; }
    if (!S->multi.count(v)) {
      g_sstat.domainHits++;
      bool cur = evalExpr(c, S->model) != 0;
      std::vector<std::pair<uint32_t, u128>> m{{v, bitsFirst(cur ? f : t)}};
      pushFork(cur ? nc : c, m);
      addConstraint(S, cur ? c : nc);
      return cur;
    }
  }
  bool cur = evalExpr(c, S->model) != 0;
  g_sstat.modelHits++;
  std::vector<std::pair<uint32_t, u128>> m;
  Sat r = feasible(S, cur ? nc : c, m);
  if (r == SAT) {
    pushFork(cur ? nc : c, m);
    addConstraint(S, cur ? c : nc);
  } else if (r == UNKNOWN) { S->incomplete = true; addConstraint(S, cur ? c : nc); statIncomplete++; }
  else S->facts.insert(cur ? c : nc);
  return cur;
}
void assumeC(Expr *c) {
  if (c->isc()) { if (!c->val) throw PathKill{}; return; }
  if (S->facts.count(c)) return;
  if (evalExpr(c, S->model)) { addConstraint(S, c); return; }
  std::vector<std::pair<uint32_t, u128>> m;
  Sat r = feasible(S, c, m);
  if (r != SAT) { if (r == UNKNOWN) { S->incomplete = true; statIncomplete++; } throw PathKill{}; }
  for (auto &p : m) modelSet(S->model, p.first, p.second);
  addConstraint(S, c);
}
bool mustBeTrue(Expr *c, bool *unknown) {
  if (unknown) *unknown = false;
  if (c->isc()) return c->val != 0;
  if (S->facts.count(c)) return true;
  if (!evalExpr(c, S->model)) return false;
  std::vector<std::pair<uint32_t, u128>> m;
  Sat r = feasible(S, mkNot(c), m);
  if (r == UNKNOWN) { if (unknown) *unknown = true; return false; }
  return r == UNSAT;
}
uint64_t concretize(Val v, unsigned w) {
  if (!v.e) return v.c;
  for (int i = 0, max = w <= 8 ? 256 : 16; i < max; i++) {
    uint64_t x = (uint64_t)evalExpr(v.e, S->model);
    if (decide(mkEq(v.e, mkConst(x, w)))) return x;
  }
  throw PathUnsup{"concretize"};
}
Expr *freshUndef(unsigned w, const char *what) { return mkVar(std::string("undef.") + what, w, true); }

// ---------------------------------------------------------------- loads / stores
static void needSym(Obj *o) {
  if (!o->st) o->st = (uint8_t *)calloc(o->size + 8, 1);
  if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
}
// o must be a pointer valid in S at addr; may be replaced by a writable copy when an undefined byte is materialised
Expr *byteAt(Obj *&o, uint64_t base, uint32_t off) {
  if (!o->st || o->st[off] == 0) return mkConst(o->data[off], 8);
  if (o->st[off] == 1) return o->sym[off];
  o = objW(base);
  needSym(o);
  o->st[off] = 1; o->sym[off] = freshUndef(8, o->name ? o->name : "?");
  return o->sym[off];
}
static std::string hex(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static std::string whereAmI();
static void memErr(const std::string &m) { throw PathError{E_MEM, m + " " + whereAmI()}; }

static inline bool inBounds(Obj *o, uint64_t off, unsigned n) { return o && off + n <= o->size && off <= o->size; }


static Val readConcreteAddr(uint64_t addr, unsigned n) {
  Obj *o = objAt(addr); uint64_t off = addr & SLOTMASK;
  if (!inBounds(o, off, n)) memErr(std::string("out-of-bounds read of ") + std::to_string(n) + " at " + hex(addr) + (o ? std::string(" object ") + (o->name ? o->name : "?") + " size " + std::to_string(o->size) : " (no object)"));
  if (n <= 8) {
    bool conc = true;
    if (o->st) { uint64_t t; memcpy(&t, o->st + off, 8); if (n < 8) t &= (1ull << (8 * n)) - 1; conc = t == 0; }
    if (conc) { uint64_t v; memcpy(&v, o->data + off, 8); if (n < 8) v &= (1ull << (8 * n)) - 1; return VC(v); }
  }
  Expr *r = nullptr;
  uint64_t base = addr & ~SLOTMASK;
  for (unsigned i = 0; i < n; i++) { Expr *b = byteAt(o, base, off + i); r = r ? mkConcat(b, r) : b; }
  return n <= 8 ? VE(r) : Val{0, r};
}
static void writeConcreteAddr(uint64_t addr, Val v, unsigned n) {
  Obj *o = objAt(addr); uint64_t off = addr & SLOTMASK;
  if (!inBounds(o, off, n)) memErr(std::string("out-of-bounds write of ") + std::to_string(n) + " at " + hex(addr) + (o ? std::string(" object ") + (o->name ? o->name : "?") + " size " + std::to_string(o->size) : " (no object)"));
  if (o->flags & OF_RO) memErr("write to read-only object " + std::string(o->name ? o->name : "?"));
  o = objW(addr);
  if (!v.e) {
    memcpy(o->data + off, &v.c, n > 8 ? 8 : n);
    if (n > 8) memset(o->data + off + 8, 0, n - 8);
    if (o->st) memset(o->st + off, 0, n);
    return;
  }
  needSym(o);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(v.e, 8 * i, 8);
    if (b->isc()) { o->data[off + i] = (uint8_t)b->val; o->st[off + i] = 0; }
    else { o->st[off + i] = 1; o->sym[off + i] = b; }
  }
}
// Make sure symbolic address e points into one object for n bytes. Returns base; forks otherwise.
static uint64_t resolveObj(Expr *e, unsigned n, bool write) {
  uint64_t a = (uint64_t)evalExpr(e, S->model);
  Obj *o = objAt(a); uint64_t base = a & ~SLOTMASK;
  if (!inBounds(o, a & SLOTMASK, n)) {
    // steer to this particular failing address, then report
    // (all addresses outside the object hit by the current model)
    if (o && n <= o->size) {
      Expr *ib = mkBin(O_ULE, mkBin(O_SUB, e, mkConst(base, 64)), mkConst(o->size - n, 64));
      if (decide(ib)) return base;
    }
    memErr(std::string("out-of-bounds ") + (write ? "write" : "read") + " (symbolic address, e.g. " + hex(a) + ")" + (o ? std::string(" object ") + (o->name ? o->name : "?") + " size " + std::to_string(o->size) : ""));
  }
  Expr *ib = mkBin(O_ULE, mkBin(O_SUB, e, mkConst(base, 64)), mkConst(o->size - n, 64));
  if (!decide(ib)) return resolveObj(e, n, write);
  return base;
}
static bool enumOffsets(Expr *off, std::vector<uint64_t> &vals, unsigned limit) {
  // all feasible values of off (may over-approximate)
  if (small1(off)) {
    uint32_t v = off->vs->v[0]; Bits256 d = domOf(S, v);
    static Model m; if (m.size() <= v) m.resize(v + 1);
    std::set<uint64_t> st;
    for (unsigned i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) { m[v] = i; st.insert((uint64_t)evalExpr(off, m)); }
    m[v] = 0;
    vals.assign(st.begin(), st.end());
    return vals.size() <= limit;
  }
  return false;
}
Val memRead(Val addr, unsigned n) {
  if (!addr.e) return readConcreteAddr(addr.c, n);
  Expr *e = addr.e;
  uint64_t base = resolveObj(e, n, false);
  Obj *o = objAt(base);
  Expr *off = mkBin(O_SUB, e, mkConst(base, 64));
  if (off->isc()) return readConcreteAddr(base + (uint64_t)off->val, n);
  std::vector<uint64_t> vals;
  if (!enumOffsets(off, vals, 2048)) {
    if (o->size > 8192) return readConcreteAddr(concretize(addr, 64), n);
    // feasible offsets: restrict by interval from solver-free reasoning: all aligned offsets
    unsigned align = 0; { Expr *t = off; while (align < 6 && mkExtract(t, align, 1)->isc() && mkExtract(t, align, 1)->val == 0) align++; }
    for (uint64_t i = 0; i + n <= o->size; i += 1ull << align) vals.push_back(i);
    if (vals.size() > 600) return readConcreteAddr(concretize(addr, 64), n);
  }
  // group equal values
  std::vector<std::pair<Expr *, std::vector<uint64_t>>> groups; std::unordered_map<Expr *, size_t> gi;
  for (auto v : vals) {
    if (v + n > o->size) continue;
    Val x = readConcreteAddr(base + v, n); o = objAt(base);
    Expr *xe = EX(x, 8 * n);
    auto it = gi.find(xe);
    if (it == gi.end()) { gi[xe] = groups.size(); groups.push_back({xe, {v}}); } else groups[it->second].second.push_back(v);
  }
  if (groups.empty()) memErr("no feasible offset");
  std::sort(groups.begin(), groups.end(), [](auto &a, auto &b) { return a.second.size() < b.second.size(); });
  Expr *r = groups.back().first;
  for (size_t g = groups.size() - 1; g-- > 0;) {
    Expr *c = mkConst(0, 1);
    for (auto v : groups[g].second) c = mkOr1(c, mkEq(off, mkConst(v, 64)));
    r = mkIte(c, groups[g].first, r);
  }
  return VE(r);
}
void memWrite(Val addr, Val v, unsigned n) {
  if (!addr.e) return writeConcreteAddr(addr.c, v, n);
  Expr *e = addr.e;
  uint64_t base = resolveObj(e, n, true);
  Obj *o = objAt(base);
  Expr *off = mkBin(O_SUB, e, mkConst(base, 64));
  if (off->isc()) return writeConcreteAddr(base + (uint64_t)off->val, v, n);
  if (o->flags & OF_RO) memErr("write to read-only object");
  unsigned align = 0; while (align < 6 && mkExtract(off, align, 1)->isc() && mkExtract(off, align, 1)->val == 0) align++;
  if (o->size > 512) return writeConcreteAddr(concretize(addr, 64), v, n);
  std::vector<uint64_t> vals;
  if (!enumOffsets(off, vals, 512)) { vals.clear(); for (uint64_t i = 0; i + n <= o->size; i += 1ull << align) vals.push_back(i); }
  Expr *ve = EX(v, 8 * n);
  // only offsets that are feasible
  std::vector<Val> olds;
  for (auto i : vals) if (i + n <= o->size) {
    Expr *c = mkEq(off, mkConst(i, 64));
    if (c->isc() && !c->val) continue;
    Val old = readConcreteAddr(base + i, n);
    writeConcreteAddr(base + i, VE(mkIte(c, ve, EX(old, 8 * n))), n);
  }
}
Val readByte(uint64_t a) { return readConcreteAddr(a, 1); }
void writeByte(uint64_t a, Val v) { writeConcreteAddr(a, v, 1); }
std::string readCStr(uint64_t a) {
  std::string s;
  for (unsigned i = 0; i < 100000; i++) { Val b = readByte(a + i); uint64_t c = b.e ? (uint64_t)evalExpr(b.e, S->model) : b.c; if (!c) break; s += (char)c; }
  return s;
}

// ---------------------------------------------------------------- translation
enum IOp : uint16_t { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_FBIN, I_FCMP, I_FCONV, I_FNEG, I_UNREACH, I_FSHL, I_FSHR, I_NOP, I_UNSUP };
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct SwCase { uint64_t v; int edge; };
struct GepExt { std::vector<std::pair<int, std::pair<unsigned, int64_t>>> idx; };
struct SwExt { std::vector<SwCase> cases; int def; std::unordered_map<uint64_t, int> m; };
struct Inst { uint16_t op; uint8_t sub; uint8_t w, w2; int dst, a, b, c; int64_t imm; void *ext; };
static std::vector<Edge> edges;

static unsigned tybits(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy() && t->getIntegerBitWidth() <= 128) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  if (t->isVectorTy()) { unsigned b = DL->getTypeSizeInBits(t).getFixedValue(); if (b <= 128) return b; }
  std::string s; raw_string_ostream os(s); t->print(os); throw PathUnsup{"type " + os.str()};
}
static unsigned stbytes(unsigned bits) { return (bits + 7) / 8; }
struct Flat { uint64_t off; unsigned bits; Type *t; };
static void flatten(Type *t, uint64_t off, std::vector<Flat> &o) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * es, o); return; }
  o.push_back({off, tybits(t), t});
}
static std::vector<Flat> flat(Type *t) { std::vector<Flat> o; flatten(t, 0, o); return o; }
static ArgType argType(Type *t) {
  ArgType a{}; a.bits = tybits(t);
  if (t->isX86_FP80Ty()) a.kind = 2; else if (t->isFloatTy() || t->isDoubleTy() || (t->isVectorTy())) a.kind = 1; else if (a.bits > 64) a.kind = 4; else a.kind = 0;
  return a;
}
static uint64_t constAddr(const Constant *c);
static void constVals(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) out.push_back(VC(ci->getZExtValue()));
    else { auto *p = ci->getValue().getRawData(); out.push_back({0, mkConst(((u128)p[1] << 64) | p[0], ci->getBitWidth())}); }
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) out.push_back(VC(b.getZExtValue()));
    else out.push_back({0, mkConst(((u128)b.getRawData()[1] << 64) | b.getRawData()[0], b.getBitWidth())});
    return;
  }
  if (isa<UndefValue>(c)) { for (auto &f : flat(t)) out.push_back(VE(freshUndef(f.bits, "undef"))); return; }
  if (c->isNullValue()) { for (auto &f : flat(t)) out.push_back(f.bits > 64 ? Val{0, mkConst(0, f.bits)} : VC(0)); return; }
  if (auto *cds = dyn_cast<ConstantDataVector>(c)) { u128 v = 0; unsigned eb = DL->getTypeSizeInBits(cds->getElementType()); for (unsigned i = 0; i < cds->getNumElements(); i++) { std::vector<Val> o; constVals(cds->getElementAsConstant(i), o); v |= (u128)o[0].c << (eb * i); } unsigned w = eb * cds->getNumElements(); if (w <= 64) out.push_back(VC((uint64_t)v)); else out.push_back({0, mkConst(v, w)}); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  out.push_back(VC(constAddr(c) & (uint64_t)maskw(tybits(t))));
}
static uint64_t constAddr(const Constant *c) {
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) throw PathUnsup{"global " + gv->getName().str()}; return it->second; }
  if (auto *f = dyn_cast<Function>(c)) return funcMap[f]->addr;
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (c->isNullValue()) return 0;
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return constAddr(ce->getOperand(0)) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: return constAddr(ce->getOperand(0));
    case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
    case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw PathUnsup{"constant " + os.str()};
}
static void initBytes(Obj *o, uint64_t off, const Constant *c) {
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *ca = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(ca->getType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), ca->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataArray>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initBytes(o, off + i * es, cd->getElementAsConstant(i)); return; }
  std::vector<Val> v; constVals(c, v);
  unsigned bits = tybits(c->getType());
  if (v[0].e) { if (!v[0].e->isc()) return; u128 x = v[0].e->val; memcpy(o->data + off, &x, stbytes(bits)); }
  else memcpy(o->data + off, &v[0].c, stbytes(bits));
}

struct Translator {
  Func *fn; std::vector<Inst> *code; std::unordered_map<const Value *, int> reg; std::map<const BasicBlock *, int> bstart;
  std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> fix; // edge idx -> (from,to)
  int newReg(unsigned n) { int r = fn->nregs; fn->nregs += n; return r; }
  int constOp(Val v) { fn->consts.push_back(v); return ~(int)(fn->consts.size() - 1); }
  std::vector<int> ops(const Value *v) {
    std::vector<int> o;
    if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> vs; constVals(c, vs); for (auto &x : vs) o.push_back(constOp(x)); return o; }
    auto it = reg.find(v);
    if (it == reg.end()) throw PathUnsup{"operand"};
    unsigned n = flat(v->getType()).size();
    for (unsigned i = 0; i < n; i++) o.push_back(it->second + i);
    return o;
  }
  int op(const Value *v) { return ops(v)[0]; }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    edges.push_back({}); int id = edges.size() - 1;
    for (auto &phi : to->phis()) {
      auto src = ops(phi.getIncomingValueForBlock(from)); int d = reg[&phi];
      for (unsigned i = 0; i < src.size(); i++) edges[id].copies.push_back({d + (int)i, src[i]});
    }
    fix.push_back({id, {from, to}});
    return id;
  }
  Inst mk(IOp o) { Inst i{}; i.op = o; i.dst = -1; return i; }
  void call(const CallBase *cb) {
    auto *ci = new CallInfo{};
    std::string fname; const Value *cv = cb->getCalledOperand();
    if (auto *f = dyn_cast<Function>(cv->stripPointerCasts())) { ci->callee = funcMap[f]; fname = f->getName().str(); ci->target = 0; }
    else { ci->callee = nullptr; ci->target = op(cv); }
    if (fname.rfind("llvm.lifetime", 0) == 0 || fname.rfind("llvm.dbg", 0) == 0 || fname.rfind("llvm.assume", 0) == 0) return;
    if (fname.rfind("llvm.expect", 0) == 0) { Inst i = mk(I_COPY); i.a = op(cb->getArgOperand(0)); i.dst = reg[cb]; code->push_back(i); return; }
    if (fname.rfind("llvm.fshl.", 0) == 0 || fname.rfind("llvm.fshr.", 0) == 0) { Inst i = mk(fname[8] == 'l' ? I_FSHL : I_FSHR); i.w = tybits(cb->getType()); i.a = op(cb->getArgOperand(0)); i.b = op(cb->getArgOperand(1)); i.c = op(cb->getArgOperand(2)); i.dst = reg[cb]; code->push_back(i); return; }
    FunctionType *ft = cb->getFunctionType();
    ci->vararg = ft->isVarArg(); ci->nfixed = ft->getNumParams();
    for (unsigned i = 0; i < cb->arg_size(); i++) {
      const Value *a = cb->getArgOperand(i);
      auto o = ops(a);
      auto fl = flat(a->getType());
      for (unsigned k = 0; k < o.size(); k++) {
        ci->ops.push_back(o[k]); ci->opw.push_back(fl[k].bits);
        ArgType at = argType(fl[k].t);
        at.sext = cb->paramHasAttr(i, Attribute::SExt); at.zext = cb->paramHasAttr(i, Attribute::ZExt);
        at.sret = cb->paramHasAttr(i, Attribute::StructRet);
        if (cb->isByValArgument(i)) { at.kind = 3; at.bysize = DL->getTypeAllocSize(cb->getParamByValType(i)); at.byalign = cb->getParamAlign(i) ? cb->getParamAlign(i)->value() : 8; }
        ci->at.push_back(at);
      }
    }
    for (auto &f : flat(cb->getType())) ci->rt.push_back(argType(f.t));
    ci->nret = ci->rt.size(); ci->dst = ci->nret ? reg[cb] : -1;
    ci->where = fn->name;
    Inst i = mk(I_CALL); i.ext = ci; code->push_back(i);
  }
  void run() {
    const Function &F = *fn->F;
    fn->code = code = new std::vector<Inst>;
    for (auto &a : F.args()) { int n = flat(a.getType()).size(); reg[&a] = newReg(n); for (int k = 0; k < n; k++) fn->argRegs.push_back(reg[&a] + k); }
    for (auto &bb : F) for (auto &in : bb) if (!in.getType()->isVoidTy()) reg[&in] = newReg(std::max<size_t>(1, flat(in.getType()).size()));
    for (auto &bb : F) {
      bstart[&bb] = code->size();
      for (auto &in : bb) {
        try { tr(in, bb); } catch (PathUnsup &u) { Inst i = mk(I_UNSUP); i.ext = new std::string(u.msg); code->push_back(i); }
      }
    }
    for (auto &f : fix) edges[f.first].target = bstart[f.second.second];
  }
  void tr(const Instruction &in, const BasicBlock &bb) {
    int d = in.getType()->isVoidTy() ? -1 : reg[&in];
    switch (in.getOpcode()) {
    case Instruction::PHI: return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      if (in.getType()->isVectorTy()) throw PathUnsup{"vector arith"};
      static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      Inst i = mk(I_BIN); i.sub = m.at(in.getOpcode()); i.w = tybits(in.getType()); i.a = op(in.getOperand(0)); i.b = op(in.getOperand(1)); i.dst = d; code->push_back(i); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      if (in.getType()->isVectorTy()) throw PathUnsup{"vector fp"};
      Inst i = mk(I_FBIN); i.sub = in.getOpcode() == Instruction::FAdd ? O_FADD : in.getOpcode() == Instruction::FSub ? O_FSUB : in.getOpcode() == Instruction::FMul ? O_FMUL : O_FDIV;
      i.w = tybits(in.getType()); i.a = op(in.getOperand(0)); i.b = op(in.getOperand(1)); i.dst = d; code->push_back(i); return; }
    case Instruction::FNeg: { Inst i = mk(I_FNEG); i.w = tybits(in.getType()); i.a = op(in.getOperand(0)); i.dst = d; code->push_back(i); return; }
    case Instruction::ICmp: { if (in.getOperand(0)->getType()->isVectorTy()) throw PathUnsup{"vector icmp"}; Inst i = mk(I_ICMP); i.sub = cast<ICmpInst>(in).getPredicate(); i.w = tybits(in.getOperand(0)->getType()); i.a = op(in.getOperand(0)); i.b = op(in.getOperand(1)); i.dst = d; code->push_back(i); return; }
    case Instruction::FCmp: { Inst i = mk(I_FCMP); i.sub = cast<FCmpInst>(in).getPredicate(); i.w = tybits(in.getOperand(0)->getType()); i.a = op(in.getOperand(0)); i.b = op(in.getOperand(1)); i.dst = d; code->push_back(i); return; }
    case Instruction::Load: { auto fl = flat(in.getType()); int a = op(in.getOperand(0)); for (unsigned k = 0; k < fl.size(); k++) { Inst i = mk(I_LOAD); i.w = fl[k].bits; i.a = a; i.imm = fl[k].off; i.dst = d + k; code->push_back(i); } return; }
    case Instruction::Store: { auto fl = flat(in.getOperand(0)->getType()); auto v = ops(in.getOperand(0)); int a = op(in.getOperand(1)); for (unsigned k = 0; k < fl.size(); k++) { Inst i = mk(I_STORE); i.w = fl[k].bits; i.a = a; i.b = v[k]; i.imm = fl[k].off; code->push_back(i); } return; }
    case Instruction::GetElementPtr: {
      if (in.getType()->isVectorTy()) throw PathUnsup{"vector gep"};
      Inst i = mk(I_GEP); i.a = op(in.getOperand(0)); i.dst = d; i.imm = 0; auto *ge = new GepExt;
      for (auto gti = gep_type_begin(in), e = gep_type_end(in); gti != e; ++gti) {
        const Value *idx = gti.getOperand();
        if (auto *st = gti.getStructTypeOrNull()) { i.imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        int64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
        if (auto *c = dyn_cast<ConstantInt>(idx)) i.imm += c->getSExtValue() * sz;
        else ge->idx.push_back({op(idx), {tybits(idx->getType()), sz}});
      }
      if (ge->idx.empty()) { delete ge; } else i.ext = ge;
      code->push_back(i); return; }
    case Instruction::Br: {
      auto &b = cast<BranchInst>(in);
      if (b.isUnconditional()) { Inst i = mk(I_BR); i.a = edge(&bb, b.getSuccessor(0)); code->push_back(i); }
      else { Inst i = mk(I_CBR); i.c = op(b.getCondition()); i.a = edge(&bb, b.getSuccessor(0)); i.b = edge(&bb, b.getSuccessor(1)); code->push_back(i); }
      return; }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(in); Inst i = mk(I_SWITCH); i.a = op(s.getCondition()); i.w = tybits(s.getCondition()->getType()); auto *x = new SwExt;
      x->def = edge(&bb, s.getDefaultDest());
      for (auto &c : s.cases()) { int e = edge(&bb, c.getCaseSuccessor()); uint64_t v = c.getCaseValue()->getZExtValue(); x->cases.push_back({v, e}); x->m[v] = e; }
      i.ext = x; code->push_back(i); return; }
    case Instruction::Ret: { Inst i = mk(I_RET); if (in.getNumOperands()) { auto *v = new std::vector<int>(ops(in.getOperand(0))); i.ext = v; } code->push_back(i); return; }
    case Instruction::Call: call(cast<CallBase>(&in)); return;
    case Instruction::Alloca: { auto &al = cast<AllocaInst>(in); Inst i = mk(I_ALLOCA); i.imm = DL->getTypeAllocSize(al.getAllocatedType()); i.a = op(al.getArraySize()); i.w = tybits(al.getArraySize()->getType()); i.dst = d; code->push_back(i); return; }
    case Instruction::Select: { auto x = ops(in.getOperand(1)), y = ops(in.getOperand(2)); int c = op(in.getOperand(0)); auto fl = flat(in.getType()); for (unsigned k = 0; k < x.size(); k++) { Inst i = mk(I_SELECT); i.c = c; i.a = x[k]; i.b = y[k]; i.w = fl[k].bits; i.dst = d + k; code->push_back(i); } return; }
    case Instruction::ZExt: { Inst i = mk(I_ZEXT); i.a = op(in.getOperand(0)); i.w = tybits(in.getType()); i.w2 = tybits(in.getOperand(0)->getType()); i.dst = d; code->push_back(i); return; }
    case Instruction::SExt: { Inst i = mk(I_SEXT); i.a = op(in.getOperand(0)); i.w = tybits(in.getType()); i.w2 = tybits(in.getOperand(0)->getType()); i.dst = d; code->push_back(i); return; }
    case Instruction::Trunc: { Inst i = mk(I_TRUNC); i.a = op(in.getOperand(0)); i.w = tybits(in.getType()); i.w2 = tybits(in.getOperand(0)->getType()); i.dst = d; code->push_back(i); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = tybits(in.getType()), w2 = tybits(in.getOperand(0)->getType()); Inst i = mk(w < w2 ? I_TRUNC : w > w2 ? I_ZEXT : I_COPY); i.a = op(in.getOperand(0)); i.w = w; i.w2 = w2; i.dst = d; code->push_back(i); return; }
    case Instruction::BitCast: case Instruction::Freeze: { auto x = ops(in.getOperand(0)); for (unsigned k = 0; k < x.size(); k++) { Inst i = mk(I_COPY); i.a = x[k]; i.dst = d + k; code->push_back(i); } return; }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
      Inst i = mk(I_FCONV); unsigned o = in.getOpcode(); i.sub = o == Instruction::FPExt || o == Instruction::FPTrunc ? O_F2F : o == Instruction::FPToSI ? O_F2SI : o == Instruction::FPToUI ? O_F2UI : o == Instruction::SIToFP ? O_SI2F : O_UI2F;
      i.a = op(in.getOperand(0)); i.w = tybits(in.getType()); i.w2 = tybits(in.getOperand(0)->getType()); i.dst = d; code->push_back(i); return; }
    case Instruction::Unreachable: code->push_back(mk(I_UNREACH)); return;
    case Instruction::ExtractValue: {
      auto &ev = cast<ExtractValueInst>(in); auto x = ops(ev.getAggregateOperand()); unsigned start = aggIndex(ev.getAggregateOperand()->getType(), ev.getIndices()); unsigned n = flat(in.getType()).size();
      for (unsigned k = 0; k < n; k++) { Inst i = mk(I_COPY); i.a = x[start + k]; i.dst = d + k; code->push_back(i); } return; }
    case Instruction::InsertValue: {
      auto &iv = cast<InsertValueInst>(in); auto x = ops(iv.getAggregateOperand()), y = ops(iv.getInsertedValueOperand()); unsigned start = aggIndex(in.getType(), iv.getIndices());
      for (unsigned k = 0; k < x.size(); k++) { Inst i = mk(I_COPY); i.a = k >= start && k < start + y.size() ? y[k - start] : x[k]; i.dst = d + k; code->push_back(i); } return; }
    case Instruction::ExtractElement: {
      auto *ci = dyn_cast<ConstantInt>(in.getOperand(1)); if (!ci) break; unsigned eb = tybits(in.getType());
      Inst i = mk(I_BIN); unsigned vw = tybits(in.getOperand(0)->getType()); i.sub = O_LSHR; i.w = vw; i.a = op(in.getOperand(0)); i.b = constOp(vw > 64 ? Val{0, mkConst(ci->getZExtValue() * eb, vw)} : VC(ci->getZExtValue() * eb)); i.dst = newReg(1); code->push_back(i);
      Inst j = mk(I_TRUNC); j.a = i.dst; j.w = eb; j.w2 = vw; j.dst = d; code->push_back(j); return; }
    }
    if (in.getOpcode() == Instruction::InsertElement) {
      auto *ci = dyn_cast<ConstantInt>(in.getOperand(2)); unsigned eb = tybits(in.getOperand(1)->getType()), vw = tybits(in.getType());
      if (ci && vw <= 64 && eb < vw) {
        uint64_t sh = ci->getZExtValue() * eb, m = ((1ull << eb) - 1) << sh; if (vw < 64) m &= (1ull << vw) - 1;
        uint64_t all = vw < 64 ? (1ull << vw) - 1 : ~0ull;
        Inst a = mk(I_BIN); a.sub = O_AND; a.w = vw; a.a = op(in.getOperand(0)); a.b = constOp(VC(all & ~m)); a.dst = newReg(1); code->push_back(a);
        Inst z = mk(I_ZEXT); z.a = op(in.getOperand(1)); z.w = vw; z.w2 = eb; z.dst = newReg(1); code->push_back(z);
        Inst l = mk(I_BIN); l.sub = O_SHL; l.w = vw; l.a = z.dst; l.b = constOp(VC(sh)); l.dst = newReg(1); code->push_back(l);
        Inst o = mk(I_BIN); o.sub = O_OR; o.w = vw; o.a = a.dst; o.b = l.dst; o.dst = d; code->push_back(o); return;
      }
    }
    std::string s; raw_string_ostream os(s); in.print(os); throw PathUnsup{"instruction " + os.str()};
  }
  unsigned aggIndex(Type *t, ArrayRef<unsigned> idx) {
    unsigned n = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) n += flat(st->getElementType(k)).size(); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); n += i * flat(at->getElementType()).size(); t = at->getElementType(); }
    }
    return n;
  }
};
static void translate(Func *f) { if (f->code) return; Translator t; t.fn = f; t.run(); }

Func *funcAt(uint64_t a) { if (a < FUNC_BASE) return nullptr; uint64_t i = (a - FUNC_BASE) >> 4; return i < funcs.size() && !(a & 15) ? funcs[i] : nullptr; }
Func *funcByName(const std::string &n) { auto it = funcNames.find(n); return it == funcNames.end() ? nullptr : it->second; }
uint64_t globalAddr(const std::string &n) { auto it = gnames.find(n); return it == gnames.end() ? 0 : it->second; }

static std::string whereAmI() {
  std::string s = "in";
  int n = 0;
  for (size_t i = S->fr.size(); i-- > 0 && n < 6; n++) { auto &f = S->fr[i]; s += " < "; s += f.isX86 ? "x86@" + hex(f.x->rip) : f.f->name; }
  return s;
}

// ---------------------------------------------------------------- calls
static inline Val getop(const Frame &f, const Val *R, int o) { return o >= 0 ? R[o] : f.f->consts[~o]; }

void doCall(Func *f, std::vector<Val> &args, CallInfo *ci, bool fromX86) {
  if (f->builtin) {
    std::vector<Val> r;
    if (!f->builtin(args, r, ci)) return; // builtin arranged control flow itself
    doReturnTop:
    if (fromX86) x86ReturnFromIR(r, f);
    else {
      Frame &fr = S->fr.back(); Val *R = &S->regs[fr.rbase];
      if (ci && ci->dst >= 0) for (int k = 0; k < ci->nret; k++) R[ci->dst + k] = k < (int)r.size() ? r[k] : VC(0);
      fr.pc++;
    }
    return;
  }
  if (f->decl && ci && !fromX86) { auto it = S->xsyms.find(f->name); if (it != S->xsyms.end()) { x86Call(it->second, ci, args); return; } }
  if (f->decl) throw PathUnsup{"call to undefined function " + f->name + " " + whereAmI()};
  translate(f);
  if (S->fr.size() > 600) throw PathError{E_HANG, "call stack overflow " + whereAmI()};
  Frame n{}; n.f = f; n.pc = 0; n.rbase = S->regs.size(); n.stackBase = S->stack.next; n.ci = ci; n.fromX86 = fromX86; n.x = nullptr;
  S->regs.resize(n.rbase + f->nregs, VC(0));
  Val *R = &S->regs[n.rbase];
  unsigned na = f->argRegs.size();
  for (unsigned i = 0; i < na && i < args.size(); i++) {
    R[f->argRegs[i]] = args[i];
  }
  if (ci && !fromX86) for (unsigned i = na; i < args.size(); i++) {
    n.va.push_back(args[i]); n.vaW.push_back(ci->at[i].bits); n.vaK.push_back(ci->at[i].kind); n.vaBy.push_back(ci->at[i].kind == 3 ? (((uint64_t)ci->at[i].byalign << 32) | ci->at[i].bysize) : 0);
  }
  // byval: callee owns a copy
  if (ci && !fromX86) for (unsigned i = 0; i < na && i < args.size() && i < ci->at.size(); i++) if (ci->at[i].kind == 3) {
    uint64_t a = stackObj(ci->at[i].bysize);
    uint64_t src = args[i].c;
    for (unsigned k = 0; k < ci->at[i].bysize; k++) { Obj *o = objAt(src); uint64_t off = (src & SLOTMASK) + k; if (!inBounds(o, off, 1)) memErr("byval source"); if (o->st && o->st[off] == 2) continue; writeByte(a + k, readByte(src + k)); }
    R[f->argRegs[i]] = VC(a);
  }
  if (!f->calls++ && f->target) touchedFuncs.insert(f->name);
  S->fr.push_back(std::move(n));
}
static void popFrame() {
  Frame &f = S->fr.back();
  stackPopTo(f.stackBase);
  S->regs.resize(f.rbase);
  if (f.x) { delete f.x; f.x = nullptr; }
  S->fr.pop_back();
}
// return from the IR function on top of the stack
void doReturn(std::vector<Val> &r) {
  Frame &f = S->fr.back();
  bool fromX86 = f.fromX86; CallInfo *ci = f.ci; bool isCatch = f.isCatch; Func *fn = f.f;
  popFrame();
  if (S->fr.empty()) return;
  if (isCatch) statCatch++;
  if (fromX86) { x86ReturnFromIR(r, fn); return; }
  Frame &c = S->fr.back(); Val *R = &S->regs[c.rbase];
  if (ci && ci->dst >= 0) for (int k = 0; k < ci->nret; k++) R[ci->dst + k] = k < (int)r.size() ? r[k] : VC(0);
  c.pc++;
}
static bool unwindToCatch(uint64_t code) {
  int k = -1;
  for (size_t i = S->fr.size(); i-- > 0;) if (S->fr[i].isCatch) { k = i; break; }
  if (k < 0) return false;
  while ((int)S->fr.size() > k + 1) popFrame();
  std::vector<Val> r{VC(code)};
  Frame &f = S->fr.back();
  if (f.isX86) { // caught x86 call: behave as IR return to caller
    CallInfo *ci = f.ci; popFrame();
    Frame &c = S->fr.back(); Val *R = &S->regs[c.rbase];
    if (ci && ci->dst >= 0) for (int i = 0; i < ci->nret; i++) R[ci->dst + i] = VC(code);
    c.pc++;
    return true;
  }
  doReturn(r);
  return true;
}

// ---------------------------------------------------------------- interpreter
static inline uint64_t msk(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

static Val binop(Op op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e && w <= 64) {
    uint64_t m = msk(w), x = a.c, y = b.c;
    switch (op) {
    case O_ADD: return VC((x + y) & m); case O_SUB: return VC((x - y) & m); case O_MUL: return VC((x * y) & m);
    case O_AND: return VC(x & y); case O_OR: return VC(x | y); case O_XOR: return VC(x ^ y);
    case O_SHL: return VC((x << (y & (w > 32 ? 63 : 31))) & m); case O_LSHR: return VC(x >> (y & (w > 32 ? 63 : 31))); case O_ASHR: return VC((uint64_t)(sx64(x, w) >> (y & (w > 32 ? 63 : 31))) & m);
    case O_UDIV: if (!y) throw PathError{E_DIV, "division by zero " + whereAmI()}; return VC(x / y);
    case O_UREM: if (!y) throw PathError{E_DIV, "division by zero " + whereAmI()}; return VC(x % y);
    case O_SDIV: case O_SREM: { if (!y) throw PathError{E_DIV, "division by zero " + whereAmI()}; int64_t s = sx64(x, w), t = sx64(y, w);
      if (t == -1) { if (w >= 32 && (x == 1ull << (w - 1))) throw PathError{E_DIV, "signed division overflow " + whereAmI()}; return VC(op == O_SDIV ? (uint64_t)(-s) & m : 0); }
      return VC((uint64_t)(op == O_SDIV ? s / t : s % t) & m); }
    default: break;
    }
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  if (op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) {
    if (decide(mkEq(y, mkConst(0, w)))) throw PathError{E_DIV, "division by zero " + whereAmI()};
    if ((op == O_SDIV || op == O_SREM) && w >= 32 && decide(mkAnd1(mkEq(y, mkConst(maskw(w), w)), mkEq(x, mkConst((u128)1 << (w - 1), w))))) throw PathError{E_DIV, "signed division overflow " + whereAmI()};
  }
  if ((op == O_SHL || op == O_LSHR || op == O_ASHR) && (w == 32 || w == 64)) y = mkBin(O_AND, y, mkConst(w - 1, w));
  return VE(mkBin(op, x, y));
}
static Val icmp(unsigned p, unsigned w, Val a, Val b) {
  if (!a.e && !b.e) {
    int64_t s = sx64(a.c, w), t = sx64(b.c, w); bool r = false;
    switch (p) {
    case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
    case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
    case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
    }
    return VC(r);
  }
  Expr *x = EX(a, w), *y = EX(b, w);
  switch (p) {
  case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_ULT: return VE(mkBin(O_ULT, x, y)); case CmpInst::ICMP_ULE: return VE(mkBin(O_ULE, x, y)); case CmpInst::ICMP_UGT: return VE(mkBin(O_ULT, y, x)); case CmpInst::ICMP_UGE: return VE(mkBin(O_ULE, y, x));
  case CmpInst::ICMP_SLT: return VE(mkBin(O_SLT, x, y)); case CmpInst::ICMP_SLE: return VE(mkBin(O_SLE, x, y)); case CmpInst::ICMP_SGT: return VE(mkBin(O_SLT, y, x)); default: return VE(mkBin(O_SLE, y, x));
  }
}
static Val fcmp(unsigned p, unsigned w, Val a, Val b) {
  Expr *x = EX(a, w), *y = EX(b, w), *r;
  bool unord = p & 8; // FCMP_U*
  Expr *un = mkBin(O_FUNO, x, y);
  switch (p & 7) {
  case 0: r = mkConst(0, 1); break;
  case 1: r = mkBin(O_FEQ, x, y); break;
  case 2: r = mkBin(O_FLT, y, x); break;
  case 3: r = mkBin(O_FLE, y, x); break;
  case 4: r = mkBin(O_FLT, x, y); break;
  case 5: r = mkBin(O_FLE, x, y); break;
  case 6: r = mkAnd1(mkNot(mkBin(O_FEQ, x, y)), mkNot(un)); break;
  default: r = mkNot(un); break;
  }
  if (p == CmpInst::FCMP_UNE) return VE(mkNot(mkBin(O_FEQ, x, y)));
  if (p == CmpInst::FCMP_UNO) return VE(un);
  if (p == CmpInst::FCMP_TRUE) return VC(1);
  if (unord) r = mkOr1(r, un);
  return VE(r);
}
static Val fconv(Op op, unsigned w, unsigned w2, Val a) {
  Expr *x = EX(a, w2);
  if (op == O_F2SI && w < 32) return VE(mkExtract(mkConv(O_F2SI, x, 32), 0, w));
  if (op == O_F2UI && w < 32) return VE(mkExtract(mkConv(O_F2SI, x, 32), 0, w));
  if (op == O_F2UI && w == 32) return VE(mkExtract(mkConv(O_F2SI, x, 64), 0, 32));
  // 64-bit unsigned conversions are split into the signed ones (exact identities: the
  // subtraction of 2^63 is exact, and halving with a sticky bit rounds like the whole value)
  if (op == O_UI2F && w2 == 64 && !x->isc() && x->op != O_ZEXT) {
    if (!decide(mkBin(O_SLT, x, mkConst(0, 64)))) return VE(mkConv(O_SI2F, x, w));
    if (w == 80) return VE(mkBin(O_FADD, mkConv(O_SI2F, x, w), mkConst((u128)(0x3fff + 64) << 64 | (u128)1 << 63, 80)));
    Expr *h = mkConv(O_SI2F, mkBin(O_OR, mkBin(O_LSHR, x, mkConst(1, 64)), mkBin(O_AND, x, mkConst(1, 64))), w);
    return VE(mkBin(O_FADD, h, h));
  }
  if (op == O_F2UI && w == 64 && !x->isc()) {
    Expr *lim = w2 == 32 ? mkConst(0x5f000000u, 32) : w2 == 64 ? mkConst(0x43e0000000000000ull, 64) : mkConst((u128)(0x3fff + 63) << 64 | (u128)1 << 63, 80);
    if (decide(mkBin(O_FLT, x, lim))) return VE(mkConv(O_F2SI, x, 64));
    return VE(mkBin(O_XOR, mkConv(O_F2SI, mkBin(O_FSUB, x, lim), 64), mkConst((u128)1 << 63, 64)));
  }
  return VE(mkConv(op, x, w));
}
static void takeEdge(Frame &f, int e) {
  Edge &E = edges[e];
  Val *R = &S->regs[f.rbase];
  size_t n = E.copies.size();
  if (n == 1) R[E.copies[0].first] = getop(f, R, E.copies[0].second);
  else if (n) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = getop(f, R, E.copies[i].second);
    for (size_t i = 0; i < n; i++) R[E.copies[i].first] = t[i];
  }
  f.pc = E.target;
}

static void stepIR() {
  // run until a call/return changes frames or budget slice is used
  Frame *f = &S->fr.back();
  Val *R = &S->regs[f->rbase];
  Inst *code = f->f->code->data();
  for (int budget = 20000; budget > 0; budget--) {
    Inst &i = code[f->pc];
    S->steps++; statInsts++;
#define OPR(x) ((x) >= 0 ? R[x] : f->f->consts[~(x)])
    switch (i.op) {
    case I_BIN: R[i.dst] = binop((Op)i.sub, i.w, OPR(i.a), OPR(i.b)); f->pc++; break;
    case I_ICMP: R[i.dst] = icmp(i.sub, i.w, OPR(i.a), OPR(i.b)); f->pc++; break;
    case I_LOAD: {
      Val a = OPR(i.a);
      if (i.imm) a = a.e ? VE(mkBin(O_ADD, a.e, mkConst(i.imm, 64))) : VC(a.c + i.imm);
      Val v = memRead(a, stbytes(i.w));
      if (i.w & 7) { if (v.e) v = VE(mkExtract(v.e, 0, i.w)); else v.c &= msk(i.w); }
      R[i.dst] = v; f->pc++; break; }
    case I_STORE: {
      Val a = OPR(i.a), v = OPR(i.b);
      if (i.imm) a = a.e ? VE(mkBin(O_ADD, a.e, mkConst(i.imm, 64))) : VC(a.c + i.imm);
      if ((i.w & 7) && v.e) v = VE(mkZExt(v.e, stbytes(i.w) * 8));
      memWrite(a, v, stbytes(i.w)); f->pc++; break; }
    case I_GEP: {
      Val a = OPR(i.a);
      if (i.ext) for (auto &x : ((GepExt *)i.ext)->idx) {
        Val v = OPR(x.first); unsigned w = x.second.first;
        if (!v.e && !a.e) { a.c += (uint64_t)(sx64(v.c, w) * x.second.second); }
        else { Expr *e = EX(v, w); e = w < 64 ? mkSExt(e, 64) : w > 64 ? mkExtract(e, 0, 64) : e; a = VE(mkBin(O_ADD, EX(a, 64), mkBin(O_MUL, e, mkConst((u128)(s128)x.second.second, 64)))); }
      }
      if (i.imm) a = a.e ? VE(mkBin(O_ADD, a.e, mkConst((u128)(s128)i.imm, 64))) : VC(a.c + i.imm);
      R[i.dst] = a; f->pc++; break; }
    case I_BR: takeEdge(*f, i.a); break;
    case I_CBR: { Val c = OPR(i.c); bool t = c.e ? decide(c.e) : c.c & 1; takeEdge(*f, t ? i.a : i.b); break; }
    case I_SWITCH: {
      Val v = OPR(i.a); auto *x = (SwExt *)i.ext; int e = x->def;
      if (!v.e) { auto it = x->m.find(v.c); if (it != x->m.end()) e = it->second; }
      else {
        // group cases by destination
        uint64_t cur = (uint64_t)evalExpr(v.e, S->model);
        auto it = x->m.find(cur);
        int tgt = it != x->m.end() ? edges[it->second].target : -1;
        if (it != x->m.end()) {
          Expr *c = mkConst(0, 1); bool sameCopies = true;
          for (auto &k : x->cases) if (edges[k.edge].target == tgt) { if (edges[k.edge].copies != edges[it->second].copies) sameCopies = false; }
          if (sameCopies) { for (auto &k : x->cases) if (edges[k.edge].target == tgt) c = mkOr1(c, mkEq(v.e, mkConst(k.v, i.w))); }
          else c = mkEq(v.e, mkConst(cur, i.w));
          if (!decide(c)) throw PathUnsup{"switch"};
          e = it->second;
        } else {
          Expr *c = mkConst(1, 1);
          for (auto &k : x->cases) c = mkAnd1(c, mkNot(mkEq(v.e, mkConst(k.v, i.w))));
          if (!decide(c)) throw PathUnsup{"switch default"};
        }
      }
      takeEdge(*f, e); break; }
    case I_SELECT: {
      Val c = OPR(i.c);
      if (!c.e) R[i.dst] = c.c & 1 ? OPR(i.a) : OPR(i.b);
      else R[i.dst] = VE(mkIte(c.e, EX(OPR(i.a), i.w), EX(OPR(i.b), i.w)));
      f->pc++; break; }
    case I_ZEXT: { Val v = OPR(i.a); R[i.dst] = v.e || i.w > 64 ? VE(mkZExt(EX(v, i.w2), i.w)) : v; f->pc++; break; }
    case I_SEXT: { Val v = OPR(i.a); R[i.dst] = v.e || i.w > 64 ? VE(mkSExt(EX(v, i.w2), i.w)) : VC((uint64_t)sx64(v.c, i.w2) & msk(i.w)); f->pc++; break; }
    case I_TRUNC: { Val v = OPR(i.a); R[i.dst] = v.e ? VE(mkExtract(v.e, 0, i.w)) : VC(v.c & msk(i.w)); f->pc++; break; }
    case I_COPY: R[i.dst] = OPR(i.a); f->pc++; break;
    case I_FBIN: R[i.dst] = VE(mkBin((Op)i.sub, EX(OPR(i.a), i.w), EX(OPR(i.b), i.w))); f->pc++; break;
    case I_FCMP: R[i.dst] = fcmp(i.sub, i.w, OPR(i.a), OPR(i.b)); f->pc++; break;
    case I_FCONV: R[i.dst] = fconv((Op)i.sub, i.w, i.w2, OPR(i.a)); f->pc++; break;
    case I_FNEG: R[i.dst] = VE(mkBin(O_XOR, EX(OPR(i.a), i.w), mkConst((u128)1 << (i.w - 1), i.w))); f->pc++; break;
    case I_FSHL: case I_FSHR: {
      Expr *a = EX(OPR(i.a), i.w), *b = EX(OPR(i.b), i.w), *c = mkBin(O_UREM, EX(OPR(i.c), i.w), mkConst(i.w, i.w));
      Expr *cc = mkConcat(a, b), *sh = mkZExt(c, 2 * i.w);
      if (i.op == I_FSHL) R[i.dst] = VE(mkExtract(mkBin(O_SHL, cc, sh), i.w, i.w)); else R[i.dst] = VE(mkExtract(mkBin(O_LSHR, cc, sh), 0, i.w));
      f->pc++; break; }
    case I_ALLOCA: { uint64_t n = concretize(OPR(i.a), i.w); uint64_t sz = n * (uint64_t)i.imm; if (sz > (8u << 20)) throw PathError{E_MEM, "stack overflow (alloca) " + whereAmI()}; R[i.dst] = VC(stackObj(sz)); f->pc++; break; }
    case I_RET: { std::vector<Val> r; if (i.ext) for (int o : *(std::vector<int> *)i.ext) r.push_back(OPR(o)); doReturn(r); return; }
    case I_CALL: {
      auto *ci = (CallInfo *)i.ext;
      std::vector<Val> args; args.reserve(ci->ops.size());
      for (int o : ci->ops) args.push_back(OPR(o));
      Func *cal = ci->callee;
      if (!cal) {
        Val t = OPR(ci->target); uint64_t ta = concretize(t, 64);
        cal = funcAt(ta);
        if (!cal) {
          Obj *o = objAt(ta);
          if (o && (o->flags & OF_X86)) { x86Call(ta, ci, args); return; }
          throw PathError{E_MEM, "indirect call to invalid address " + hex(ta) + " " + whereAmI()};
        }
      }
      doCall(cal, args, ci, false);
      if (cal->builtin) { if (S->fr.empty()) return; f = &S->fr.back(); if (f->isX86) return; R = &S->regs[f->rbase]; code = f->f->code->data(); break; }
      return; }
    case I_UNREACH: throw PathError{E_UNREACH, "unreachable executed " + whereAmI()};
    case I_UNSUP: throw PathUnsup{*(std::string *)i.ext};
    default: throw PathUnsup{"op"};
    }
  }
}

// ---------------------------------------------------------------- builtins
#include "builtins.inc"

// ---------------------------------------------------------------- main loop
static void jsonStr(std::string &o, const std::string &s) {
  o += '"';
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  o += '"';
}
static std::string inputsJson(const Model &m) {
  std::string o = "{"; bool first = true;
  for (auto &in : S->inputVars) {
    if (!first) o += ", "; first = false;
    jsonStr(o, in.first); o += ": \"";
    for (auto v : in.second) { unsigned w = g_vars[v].w; u128 x = v < m.size() ? m[v] : 0; for (unsigned b = 0; b < (w + 7) / 8; b++) { char t[4]; snprintf(t, 4, "%02x", (unsigned)(x >> (8 * b)) & 255); o += t; } }
    o += "\"";
  }
  return o + "}";
}
static int ncex = 0;
static std::map<std::string, int> cexSeen;
static void recordCex(const std::string &kind, const std::string &msg, const Model &m) {
  statAssertFail++;
  { // at most three models per place
    std::string k = msg + "|"; const std::string &e = S->lastError;
    for (size_t i = 0; i < e.size(); i++) { if (e[i] == '0' && i + 1 < e.size() && e[i + 1] == 'x') { i += 2; while (i < e.size() && isxdigit((unsigned char)e[i])) i++; i--; } else k += e[i]; }
    if (++cexSeen[k] > 3) return;
  }
  if (ncex >= (int)optMaxCex) return;
  ncex++;
  if (!cexJson.empty()) cexJson += ",\n";
  cexJson += " {\"kind\": "; jsonStr(cexJson, kind); cexJson += ", \"msg\": "; jsonStr(cexJson, msg); cexJson += ", \"inputs\": " + inputsJson(m);
  if (!S->lastError.empty()) { cexJson += ", \"last_error\": "; jsonStr(cexJson, S->lastError); }
  if (!S->log.empty()) { cexJson += ", \"log\": ["; for (size_t i = 0; i < S->log.size(); i++) { if (i) cexJson += ", "; jsonStr(cexJson, S->log[i]); } cexJson += "]"; }
  cexJson += "}";
  fprintf(stderr, "CEX %s: %s %s %s\n", kind.c_str(), msg.c_str(), inputsJson(m).c_str(), S->lastError.c_str());
}
void reportAssert(Expr *c, const std::string &msg) {
  if (c->isc() && c->val) { statAssertStruct++; return; }
  if (S->facts.count(c)) { statAssertStruct++; return; }
  std::vector<std::pair<uint32_t, u128>> m;
  Sat r = feasible(S, mkNot(c), m);
  if (r == UNSAT) { statAssertSolver++; return; }
  if (r == UNKNOWN) { S->incomplete = true; statIncomplete++; unsupMsgs.push_back("solver unknown on assertion: " + msg); if (getenv("SX_DEBUG")) fprintf(stderr, "UNKNOWN %s: %s\n", msg.c_str(), exprStr(c, 10).c_str()); return; }
  Model full = S->model; for (auto &p : m) modelSet(full, p.first, p.second);
  if (getenv("SX_DEBUG")) fprintf(stderr, "FAIL %s: %s\n", msg.c_str(), exprStr(c, 10).c_str());
  recordCex("assert", msg, full);
  assumeC(c); // continue on the passing side, if any
}

static bool runState() {
  // returns when state finished
  while (true) {
    try {
      while (!S->fr.empty()) {
        if (S->fr.back().isX86) x86Step(); else stepIR();
        if (S->steps > optHang) { S->steps = 0; throw PathError{E_HANG, "instruction budget exceeded " + whereAmI()}; }
        if (elapsed() > optMaxTime) return false;
      }
      return true;
    } catch (PathKill &) { statKilled++; return true; }
    catch (TooWide &) { statUnsup++; if (unsupMsgs.size() < 50) unsupMsgs.push_back("value wider than 128 bits " + whereAmI()); return true; }
    catch (PathUnsup &u) { statUnsup++; std::string m = u.msg + " " + whereAmI(); if (unsupMsgs.size() < 50) unsupMsgs.push_back(m); if (!optQuiet) fprintf(stderr, "UNSUP %s\n", m.c_str()); return true; }
    catch (PathError &e) {
      S->lastError = e.msg; S->lastErrorKind = e.kind;
      if (getenv("SX_DEBUG")) fprintf(stderr, "ERR %d %s\n", e.kind, e.msg.c_str());
      if (e.kind == E_HANG) S->steps = 0;
      if (!unwindToCatch(e.kind)) {
        statErr++; if (errMsgs.size() < 50) errMsgs.push_back(e.msg);
        recordCex("error", e.msg, S->model);
        return true;
      }
    }
  }
}

int main(int argc, char **argv) {
  T0 = std::chrono::steady_clock::now();
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); 
  std::string target, out; std::vector<std::string> mods, refs; std::string entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--target") target = argv[++i];
    else if (a == "--mod") mods.push_back(argv[++i]);
    else if (a == "--ref") refs.push_back(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--max-time") optMaxTime = atof(argv[++i]);
    else if (a == "--max-paths") optMaxPaths = atoll(argv[++i]);
    else if (a == "--hang") optHang = atoll(argv[++i]);
    else if (a == "--max-cex") optMaxCex = atoi(argv[++i]);
    else if (a == "--query-ms") g_queryTimeoutMs = atoi(argv[++i]);
    else if (a == "--seed") optSeed = atoll(argv[++i]);
    else if (a == "--entry") entry = argv[++i];
    else if (a == "--quiet") optQuiet = true;
    else optArgs.push_back(a);
  }
  Ctx = new LLVMContext; SMDiagnostic err;
  auto load = [&](const std::string &f) { auto m = parseIRFile(f, err, *Ctx); if (!m) { err.print("symex", errs()); exit(3); } return m; };
  M = load(target);
  for (auto &f : *M) if (!f.isDeclaration()) targetNames.insert(f.getName().str());
  std::set<std::string> targetGV; for (auto &g : M->globals()) if (!g.isDeclaration()) targetGV.insert(g.getName().str());
  for (auto &m : mods) if (Linker::linkModules(*M, load(m))) { fprintf(stderr, "link failed %s\n", m.c_str()); return 3; }
  for (auto &m : refs) { // reference translation of the program under test: definitions get the prefix ref_
    auto rm = load(m);
    for (auto &f : *rm) if (!f.isDeclaration() && !f.hasLocalLinkage()) f.setName("ref_" + f.getName());
    for (auto &g : rm->globals()) if (!g.isDeclaration() && !g.hasLocalLinkage()) { if (g.hasCommonLinkage()) g.setLinkage(GlobalValue::ExternalLinkage); g.setName("ref_" + g.getName()); }
    if (Linker::linkModules(*M, std::move(rm))) { fprintf(stderr, "link failed %s\n", m.c_str()); return 3; }
  }
  DL = &M->getDataLayout();
  S = new State{}; S->id = nextStateId++; S->heap.next = 16; S->stack.next = 0;
  initBuiltins();
  for (auto &f : *M) {
    Func *fn = new Func; fn->F = &f; fn->name = f.getName().str(); fn->addr = FUNC_BASE + ((uint64_t)funcs.size() << 4); fn->decl = f.isDeclaration(); fn->target = targetNames.count(fn->name);
    fn->vararg = f.isVarArg();
    try {
      for (auto &a : f.args()) {
        auto fl = flat(a.getType());
        for (auto &x : fl) { ArgType at = argType(x.t); at.sext = a.hasSExtAttr(); at.zext = a.hasZExtAttr(); at.sret = a.hasStructRetAttr(); if (a.hasByValAttr()) { at.kind = 3; at.bysize = DL->getTypeAllocSize(a.getParamByValType()); at.byalign = a.getParamAlign() ? a.getParamAlign()->value() : 8; } fn->at.push_back(at); }
      }
      for (auto &x : flat(f.getReturnType())) fn->rt.push_back(argType(x.t));
    } catch (PathUnsup &) {}
    auto b = builtinTab.find(fn->name);
    if (b != builtinTab.end()) fn->builtin = b->second;
    else if (fn->name.rfind("llvm.memcpy", 0) == 0 || fn->name.rfind("llvm.memmove", 0) == 0) fn->builtin = builtinTab["memcpy"];
    else if (fn->name.rfind("llvm.memset", 0) == 0) fn->builtin = builtinTab["memset"];
    else if (fn->name.rfind("llvm.va_start", 0) == 0) fn->builtin = builtinTab["__va_start"];
    else if (fn->name.rfind("llvm.va_copy", 0) == 0) fn->builtin = builtinTab["__va_copy"];
    else if (fn->name.rfind("llvm.va_end", 0) == 0) fn->builtin = builtinTab["__va_end"];
    else if (fn->name.rfind("llvm.", 0) == 0) {
      std::string n = fn->name.substr(0, fn->name.rfind(".i")); for (auto &c : n) if (c == '.') c = '_';
      auto it = builtinTab.find(n); if (it != builtinTab.end()) fn->builtin = it->second;
    }
    funcs.push_back(fn); funcMap[&f] = fn; funcNames[fn->name] = fn;
  }
  for (auto &g : M->globals()) {
    uint32_t sz = g.isDeclaration() ? 8 : DL->getTypeAllocSize(g.getValueType());
    bool tg = targetGV.count(g.getName().str());
    uint64_t a = mallocObj(sz, false, strdup(g.getName().str().c_str()), tg ? OF_TARGET : 0);
    gaddr[&g] = a; gnames[g.getName().str()] = a;
    if (g.isDeclaration() && !g.getName().startswith("llvm.")) fprintf(stderr, "undefined global %s\n", g.getName().str().c_str());
  }
  for (auto &g : M->globals()) if (g.hasInitializer()) { Obj *o = objW(gaddr[&g]); initBytes(o, 0, g.getInitializer()); }
  for (auto &g : M->globals()) {
    Obj *o = objW(gaddr[&g]);
    if (g.isConstant()) o->flags |= OF_RO;
    if ((o->flags & OF_TARGET) && !g.isConstant()) targetGlobals.push_back({gaddr[&g], cloneObj(o)});
  }
  Func *h = funcByName(entry);
  if (!h) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  { std::vector<Val> a; doCall(h, a, nullptr, false); }
  worklist.push_back(S);
  bool exhausted = true;
  while (!worklist.empty()) {
    if (statPaths >= optMaxPaths || elapsed() > optMaxTime) { exhausted = false; break; }
    S = worklist.back(); worklist.pop_back();
    uint64_t odd = statTrap + statErr + statUnsup;
    bool fin = runState();
    if (!fin) { exhausted = false; break; }
    statPaths++;
    if (odd == statTrap + statErr + statUnsup && sampleInputs.size() < 6 && !S->inputVars.empty()) sampleInputs.push_back(inputsJson(S->model));
    freeState(S);
  }
  std::string j = "{\n";
  auto num = [&](const char *k, double v) { char b[128]; snprintf(b, 128, " \"%s\": %.15g,\n", k, v); j += b; };
  num("exhausted", exhausted); num("paths", statPaths); num("forks", statForks); num("killed", statKilled); num("ir_insts", statInsts); num("x86_insts", g_x86insts);
  num("assert_structural", statAssertStruct); num("assert_solver", statAssertSolver); num("assert_failed", statAssertFail); num("errors", statErr); num("unsupported", statUnsup); num("incomplete", statIncomplete); num("catches", statCatch); num("ub_excluded", statTrap);
  num("solver_queries", g_sstat.queries); num("solver_sat", g_sstat.sat); num("solver_unsat", g_sstat.unsat); num("solver_unknown", g_sstat.unknown); num("solver_cache", g_sstat.cacheHits); num("domain_hits", g_sstat.domainHits); num("solver_secs", g_sstat.secs); num("solver_max", g_sstat.maxSecs);
  num("exprs", exprCount()); num("wall", elapsed()); num("pending", worklist.size());
  j += " \"covers\": {"; bool first = true; for (auto &c : covers) { if (!first) j += ", "; first = false; jsonStr(j, c.first); j += ": " + std::to_string(c.second); } j += "},\n";
  j += " \"functions\": ["; first = true; for (auto &n : touchedFuncs) { if (!first) j += ", "; first = false; jsonStr(j, n); } j += "],\n";
  auto list = [&](const char *k, std::vector<std::string> &v) { j += std::string(" \"") + k + "\": ["; for (size_t i = 0; i < v.size(); i++) { if (i) j += ", "; jsonStr(j, v[i]); } j += "],\n"; };
  list("unsup_msgs", unsupMsgs); list("err_msgs", errMsgs);
  j += " \"samples\": ["; for (size_t i = 0; i < sampleInputs.size(); i++) { if (i) j += ", "; j += sampleInputs[i]; } j += "],\n";
  j += " \"cex\": [\n" + cexJson + "\n ]\n}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); } else fputs(j.c_str(), stdout);
  fflush(stdout); fflush(stderr);
  _exit(0);
}
