// Hash-consed bit-vector / IEEE-754 expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Eq, Ult, Ule, Slt, Sle,
  Ite, ZExt, SExt, Extract, Concat,
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRnd, FEq, FLt, FLe, FConv, SIToF, UIToF, FToSI, FToUI
};

struct Expr;
typedef const Expr* E;
typedef std::vector<uint32_t> VarSet;

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  uint32_t aux;   // extract low bit / rounding mode / var index
  uint8_t nk;
  bool fp = false;        // contains a floating point operation
  bool taint = false;     // depends on an uninitialised byte
  uint64_t hash;
  u128 c;         // const value
  E k[3];
  const VarSet* vars;
  // evaluation memo
  mutable uint64_t evStamp = 0;
  mutable u128 ev = 0;
  // solver memo
  mutable void* z3v = nullptr;   // BV (or Bool when w==1)
  mutable void* z3f = nullptr;   // FP sort
  mutable uint32_t z3gen = 0, z3fgen = 0;
  mutable const uint64_t* dom = nullptr;  // 256-bit domain for single byte-var predicates
  u128 lo = 0, hi = 0;    // bounds on the unsigned value
  bool isConst() const { return op == Op::Const; }
};

struct VarInfo { std::string name; uint16_t w; bool uninit; E e; };
extern std::vector<VarInfo> g_vars;

struct Model {
  uint64_t stamp;
  std::vector<uint64_t> v;
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;
uint64_t newStamp();

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkF(Op op, E a, E b, unsigned w, unsigned aux = 0);
E mkNot(E a);
inline E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }
inline E mkTrue() { static E t = mkConst(1, 1); return t; }
inline E mkFalse() { static E t = mkConst(0, 1); return t; }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }

u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextW(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 s = (u128)1 << (w - 1);
  return (s128)((v ^ s) - s);
}
// concrete FP helpers (shared with the interpreter's concrete path)
u128 fpBin(Op op, u128 a, u128 b, unsigned w);
bool fpCmp(Op op, u128 a, u128 b, unsigned w);
u128 fpRnd(u128 a, unsigned w, unsigned rm);
u128 fpConv(u128 a, unsigned from, unsigned to);
u128 fpFromInt(u128 a, unsigned iw, bool sgn, unsigned fw);
u128 fpToInt(u128 a, unsigned fw, unsigned iw, bool sgn);
u128 binConst(Op op, u128 a, u128 b, unsigned w);
