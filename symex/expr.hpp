// Hash-consed bit-vector / floating point expression layer.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_F2F, O_F2SI, O_F2UI, O_SI2F, O_UI2F,
};

struct VarSet { std::vector<uint32_t> v; uint64_t hash; };

struct TooWide {};
struct Expr {
  uint8_t op, w;
  uint32_t id;
  u128 val;            // constant, or extract offset, or var number
  Expr *a, *b, *c;
  const VarSet *vs;
  uint64_t stamp;
  u128 cache;
  void *z3[2];         // [0] uninterpreted-FP encoding, [1] IEEE encoding
  bool fp;             // contains a floating point operation
  bool isc() const { return op == O_CONST; }
  uint64_t u() const { return (uint64_t)val; }
};

struct VarInfo { std::string name; uint8_t w; bool undef; };
extern std::vector<VarInfo> g_vars;
extern std::vector<struct Expr *> g_varExpr;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx128(u128 v, unsigned w) { return w >= 128 ? (s128)v : ((s128)(v << (128 - w))) >> (128 - w); }

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w, bool undef = false);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkConv(Op op, Expr *a, unsigned w); // F2F, F2SI, F2UI, SI2F, UI2F
Expr *mkNot(Expr *a);                      // bitwise
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(O_EQ, a, b); }
static inline Expr *mkAnd1(Expr *a, Expr *b) { return mkBin(O_AND, a, b); }
static inline Expr *mkOr1(Expr *a, Expr *b) { return mkBin(O_OR, a, b); }

typedef std::vector<u128> Model; // indexed by var number, missing = 0
u128 evalExpr(Expr *e, const Model &m);
u128 evalOp(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, u128 val, unsigned cw);
typedef std::array<uint64_t, 4> Bits256;
// truth table of a 1-bit expression over its single <=8 bit variable
const Bits256 &truthTable(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
size_t exprCount();
