#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <functional>

namespace llvm { class Module; class Function; class Type; class FunctionType; class CallBase; class DataLayout; class GlobalVariable; class Constant; }

struct Val { uint64_t c; Expr *e; };
static inline Val VC(uint64_t c) { return {c, nullptr}; }
static inline Val VE(Expr *e) { if (e->isc() && e->w <= 64) return {(uint64_t)e->val, nullptr}; return {0, e}; }
static inline Expr *EX(Val v, unsigned w) { if (v.e) return v.e; return mkConst(v.c, w); }

// ---- memory
struct Obj {
  int ref; uint32_t size; uint32_t flags; // 1 readonly, 2 lacc global, 4 heap, 8 stack, 16 freed
  uint8_t *data; uint8_t *st; Expr **sym; // st: 0 concrete 1 symbolic 2 undef
  const char *name;
};
enum { OF_RO = 1, OF_TARGET = 2, OF_HEAP = 4, OF_STACK = 8, OF_X86 = 16 };
struct Page { int ref; Obj *o[256]; };
struct Region { std::vector<Page *> pages; uint64_t next; };
const unsigned SLOT = 21;
const uint64_t SLOTMASK = (1ull << SLOT) - 1;
const uint64_t STACK_ID0 = 1ull << 20;
const uint64_t FUNC_BASE = 1ull << 47;

struct Func; struct CallInfo;
struct XmmVal { Val lo, hi; };
struct FpVal { Expr *e; };   // 80-bit expression
enum FK : uint8_t { FK_NONE, FK_SUB, FK_LOGIC, FK_ADD, FK_UCOMI32, FK_UCOMI64, FK_UCOMI80, FK_UNDEF, FK_INC, FK_DEC, FK_SHIFT, FK_MUL };
struct X86 {
  Val r[16]; XmmVal x[16]; FpVal st[8]; // relative to top, null when empty
  FK fk; uint8_t fw; Val fa, fb, fr;
  uint64_t rip; Val fcw;
  uint64_t rsp0; uint64_t stackObj;
  Val saved[16]; // callee saved registers at entry
  CallInfo *ci;  // call site being served
  uint64_t df;
  uint64_t argTop; std::vector<Val> canary;
};
struct Frame {
  Func *f; int pc; uint32_t rbase; uint64_t stackBase;
  CallInfo *ci;            // call instruction in the caller (null: builtin start)
  bool isCatch; bool isX86; bool fromX86;
  std::vector<Val> va; std::vector<uint8_t> vaW; std::vector<uint8_t> vaK; // variadic arguments (value, bits, kind 0 int 1 fp 2 fp80)
  std::vector<uint64_t> vaBy; 
  X86 *x; uint64_t icLimit;
  unsigned fixedGp, fixedFp; uint64_t vaStack; // real va area when called from x86
  uint64_t catchId;
};

struct TraceEv { std::string s; };
struct State {
  uint64_t id, parent;
  Region heap, stack; uint64_t heapDown = 0;   // not 0: new heap objects get descending addresses
  std::vector<Frame> fr;
  std::vector<Val> regs;
  std::vector<Expr *> pc;
  std::unordered_set<Expr *> facts;
  Model model;
  std::unordered_map<uint32_t, Bits256> dom;   // domains of <=8 bit variables
  std::unordered_set<uint32_t> multi;          // variables in constraints over several variables / wide
  std::map<std::string, int> nameCount;
  std::vector<std::pair<std::string, std::pair<uint32_t, uint32_t>>> inputs; // name -> var list idx
  std::vector<std::pair<std::string, std::vector<uint32_t>>> inputVars;
  std::map<uint64_t, Expr *> magic;
  std::string lastError; int lastErrorKind;
  std::map<std::string, uint64_t> xsyms;       // symbols of loaded objects (strong)
  std::set<std::string> xweak;
  std::vector<std::string> log;
  uint64_t steps; unsigned forks; bool incomplete;
  unsigned undefCount;
  bool overread = true; unsigned overreads = 0; // tolerate machine-code loads running past the end of an object
};

struct PathKill { };
struct PathError { int kind; std::string msg; };
struct PathUnsup { std::string msg; };
enum { E_ASSERT = 1001, E_MEM = 1002, E_DIV = 1003, E_UNREACH = 1004, E_HANG = 1005, E_ABORT = 1006, E_X86 = 1007 };

// ---- engine API
extern State *S; // current
bool decide(Expr *cond);
uint64_t concretize(Val v, unsigned w);
void assumeC(Expr *cond);
bool mustBeTrue(Expr *cond, bool *unknown = nullptr);
uint64_t newObj(Region &r, uint32_t size, uint32_t flags, const char *name, bool undef); // returns address
uint64_t mallocObj(uint32_t size, bool undef, const char *name, uint32_t flags);
Obj *objAt(uint64_t addr);
Obj *objW(uint64_t addr);
Val memRead(Val addr, unsigned bytes);
void memWrite(Val addr, Val v, unsigned bytes);
Expr *byteAt(Obj *&o, uint64_t addr, uint32_t off);
Val readByte(uint64_t addr);
void writeByte(uint64_t addr, Val v);
Expr *freshUndef(unsigned w, const char *what);
Func *funcAt(uint64_t addr);
Func *funcByName(const std::string &n);
uint64_t globalAddr(const std::string &n);
std::string readCStr(uint64_t addr);
void doCall(Func *f, std::vector<Val> &args, CallInfo *ci, bool fromX86);
void doReturn(std::vector<Val> &rets);

// x86
void x86Step();
void x86Call(uint64_t target, CallInfo *ci, std::vector<Val> &args);
void x86ReturnFromIR(std::vector<Val> &rets, Func *f);
uint64_t elfLoad(uint64_t addr, uint64_t size);
uint64_t x86Symbol(const std::string &n);
extern uint64_t g_x86insts;

struct ArgType { uint8_t kind; uint8_t bits; bool sext, zext; uint32_t bysize, byalign; bool sret; }; // kind 0 int/ptr 1 fp(32/64/vec64) 2 fp80 3 byval 4 i128/wide
struct CallInfo {
  Func *callee; std::vector<int> ops; std::vector<uint8_t> opw; // flattened
  std::vector<ArgType> at; unsigned nfixed; bool vararg;
  std::vector<ArgType> rt; int dst; int nret; int target; int edge;
  std::string where;
};
struct Func {
  llvm::Function *F; std::string name; uint64_t addr; int nregs = 0; int nargs = 0;
  std::vector<struct Inst> *code = nullptr; std::vector<Val> consts; bool decl = true; bool target = false;
  std::vector<ArgType> at, rt; bool vararg = false; std::vector<int> argRegs;
  bool (*builtin)(std::vector<Val> &, std::vector<Val> &, CallInfo *) = nullptr;
  uint64_t calls = 0; 
};
