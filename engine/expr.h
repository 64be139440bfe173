// Hash-consed bit-vector expression DAG with local simplification.
#ifndef VFX_EXPR_H_
#define VFX_EXPR_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace vfx {
using u8 = uint8_t;
using u64 = uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;

enum class Op : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite,
  // floating point (operands are raw IEEE bit patterns of width 32/64)
  FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FUno, FPExt, FPTrunc, SIToFP, UIToFP,
  FPToSI, FPToUI, FSqrt
};

struct Expr {
  Op op;
  unsigned w;
  unsigned p;  // extract low bit / sym id
  unsigned id;
  const Expr *a, *b, *c;
  u128 cv;
  u64 kz;  // bits known zero (only meaningful for w<=64)
  bool uninit;
  bool fp;
  std::vector<unsigned>* syms;  // lazily computed sorted symbol set
};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s)) - (i128)s;
}

struct SymInfo {
  std::string name;
  unsigned w;
  bool uninit;
  const Expr* e;
};

const Expr* mkConst(u128 v, unsigned w);
const Expr* mkSym(const std::string& key, const std::string& name, unsigned w, bool uninit);
const Expr* mkBin(Op op, const Expr* a, const Expr* b);
const Expr* mkNot(const Expr* a);
const Expr* mkEq(const Expr* a, const Expr* b);
const Expr* mkExtract(const Expr* a, unsigned lo, unsigned w);
const Expr* mkConcat(const Expr* hi, const Expr* lo);
const Expr* mkZExt(const Expr* a, unsigned w);
const Expr* mkSExt(const Expr* a, unsigned w);
const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b);
const Expr* mkF(Op op, unsigned w, const Expr* a, const Expr* b = nullptr);

inline const Expr* mkTrue() { return mkConst(1, 1); }
inline const Expr* mkFalse() { return mkConst(0, 1); }
inline bool isTrue(const Expr* e) { return e->op == Op::Const && e->w == 1 && e->cv == 1; }
inline bool isFalse(const Expr* e) { return e->op == Op::Const && e->w == 1 && e->cv == 0; }

const std::vector<SymInfo>& symTable();
const std::vector<unsigned>& symsOf(const Expr* e);
bool containsUninit(const Expr* e);

using Assign = std::vector<u64>;  // by symbol id; missing = 0
u128 evalExpr(const Expr* e, const Assign& m);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
std::string toStr(const Expr* e, int depth = 6);
size_t exprCount();
}  // namespace vfx
#endif
