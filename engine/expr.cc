#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace vfx {

namespace {
struct Key {
  Op op; unsigned w, p; const Expr *a, *b, *c; u128 cv;
};
inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline u64 hashOf(const Expr* e) {
  u64 h = (u64)e->op * 131 + e->w;
  h = mix(h, e->p); h = mix(h, (u64)e->a); h = mix(h, (u64)e->b); h = mix(h, (u64)e->c);
  h = mix(h, (u64)e->cv); h = mix(h, (u64)(e->cv >> 64));
  return h ^ (h >> 29);
}
struct H { size_t operator()(const Expr* e) const { return hashOf(e); } };
struct E {
  bool operator()(const Expr* x, const Expr* y) const {
    return x->op == y->op && x->w == y->w && x->p == y->p && x->a == y->a && x->b == y->b && x->c == y->c && x->cv == y->cv;
  }
};
std::unordered_set<const Expr*, H, E> table;
std::vector<SymInfo> syms;
std::unordered_map<std::string, const Expr*> symByKey;
unsigned nextId = 0;

u64 m64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

// known-zero bits; bits outside the width are reported as zero as well.
u64 computeKz(const Expr* e) {
  if (e->w > 64) return 0;
  u64 M = m64(e->w);
  auto K = [](const Expr* x) -> u64 { return x->w > 64 ? 0 : x->kz; };
  switch (e->op) {
    case Op::Const: return ~(u64)e->cv;
    case Op::And: return K(e->a) | K(e->b) | ~M;
    case Op::Or: case Op::Xor: return (K(e->a) & K(e->b)) | ~M;
    case Op::ZExt: return K(e->a) | ~m64(e->a->w);
    case Op::Ite: return (K(e->b) & K(e->c)) | ~M;
    case Op::Extract: {
      if (e->a->w > 64) return ~M;
      return (K(e->a) >> e->p) | ~M;
    }
    case Op::Concat: {
      u64 lo = K(e->b) & m64(e->b->w);
      u64 hi = K(e->a) & m64(e->a->w);
      return lo | (e->b->w < 64 ? hi << e->b->w : 0) | ~M;
    }
    case Op::Add: {
      // upper bound: if both have n leading zeros then the sum has n-1.
      u64 ma = ~K(e->a) & M, mb = ~K(e->b) & M;
      u64 mx = ma > mb ? ma : mb;
      unsigned bits = mx ? 64 - __builtin_clzll(mx) : 0;
      u64 r = ~M;
      if (bits + 1 < e->w) r |= ~m64(bits + 1);
      u64 lowz = ~(ma | mb);
      unsigned tz = lowz == ~0ULL ? 64 : __builtin_ctzll(~lowz);
      r |= m64(tz > e->w ? e->w : tz) & (tz == 0 ? 0 : ~0ULL);
      return r;
    }
    case Op::Mul: {
      u64 ma = ~K(e->a) & M, mb = ~K(e->b) & M;
      unsigned tza = ma ? __builtin_ctzll(ma) : 64, tzb = mb ? __builtin_ctzll(mb) : 64;
      unsigned tz = std::min(e->w, tza + tzb);
      u64 r = ~M;
      if (tz) r |= m64(tz);
      unsigned ba = ma ? 64 - __builtin_clzll(ma) : 0, bb = mb ? 64 - __builtin_clzll(mb) : 0;
      if (ba + bb < e->w) r |= ~m64(ba + bb);
      return r;
    }
    case Op::Shl: {
      u64 ma = ~K(e->a) & M;
      unsigned tz = ma ? __builtin_ctzll(ma) : 64;
      return (tz ? m64(std::min(tz, e->w)) : 0) | ~M;
    }
    case Op::LShr: {
      u64 ma = ~K(e->a) & M;
      unsigned bits = ma ? 64 - __builtin_clzll(ma) : 0;
      return ~m64(bits ? bits : 0) | ~M | (bits == 0 ? ~0ULL : 0);
    }
    case Op::URem: {
      u64 mb = ~K(e->b) & M, ma = ~K(e->a) & M;
      u64 mm = std::max(mb, ma);
      (void)mb;
      unsigned bits = mm ? 64 - __builtin_clzll(mm) : 0;
      return bits == 0 ? ~0ULL : (~m64(bits) | ~M);
    }
    case Op::UDiv: {
      if (e->b->op != Op::Const) return ~M;
      u64 ma = ~K(e->a) & M;
      unsigned bits = ma ? 64 - __builtin_clzll(ma) : 0;
      return bits == 0 ? ~0ULL : (~m64(bits) | ~M);
    }
    default: return ~M;
  }
}

const Expr* intern(Op op, unsigned w, unsigned p, const Expr* a, const Expr* b, const Expr* c, u128 cv) {
  Expr t;
  t.op = op; t.w = w; t.p = p; t.a = a; t.b = b; t.c = c; t.cv = cv; t.syms = nullptr; t.id = 0; t.kz = 0; t.uninit = false; t.fp = false;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr* e = new Expr(t);
  e->id = nextId++;
  e->kz = computeKz(e);
  e->uninit = (a && a->uninit) || (b && b->uninit) || (c && c->uninit);
  e->fp = op >= Op::FAdd || (a && a->fp) || (b && b->fp) || (c && c->fp);
  table.insert(e);
  return e;
}
inline bool isC(const Expr* e) { return e->op == Op::Const; }
inline bool isCV(const Expr* e, u128 v) { return e->op == Op::Const && e->cv == v; }
inline u64 umaxOf(const Expr* e) { return e->w > 64 ? ~0ULL : (~e->kz & m64(e->w)); }
}  // namespace

size_t exprCount() { return nextId; }
const std::vector<SymInfo>& symTable() { return syms; }

const Expr* mkConst(u128 v, unsigned w) {
  if (w > 128) { fprintf(stderr, "vfx: width %u > 128\n", w); abort(); }
  return intern(Op::Const, w, 0, nullptr, nullptr, nullptr, v & maskw(w));
}

const Expr* mkSym(const std::string& key, const std::string& name, unsigned w, bool uninit) {
  auto it = symByKey.find(key);
  if (it != symByKey.end()) return it->second;
  Expr t;
  t.op = Op::Sym; t.w = w; t.p = syms.size(); t.a = t.b = t.c = nullptr; t.cv = 0; t.syms = nullptr;
  t.kz = ~m64(w); t.uninit = uninit; t.fp = false;
  Expr* e = new Expr(t);
  e->id = nextId++;
  table.insert(e);
  syms.push_back({name, w, uninit, e});
  symByKey[key] = e;
  return e;
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 M = maskw(w);
  switch (op) {
    case Op::Add: return (a + b) & M;
    case Op::Sub: return (a - b) & M;
    case Op::Mul: return (a * b) & M;
    case Op::UDiv: return b == 0 ? M : (a / b);
    case Op::URem: return b == 0 ? a : (a % b);
    case Op::SDiv: {
      i128 x = sext(a, w), y = sext(b, w);
      if (y == 0) return x >= 0 ? M : 1;
      if (y == -1) return ((u128)0 - (u128)x) & M;
      return (u128)(x / y) & M;
    }
    case Op::SRem: {
      i128 x = sext(a, w), y = sext(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & M;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & M;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b);
    case Op::AShr: {
      i128 x = sext(a, w);
      return (u128)(x >> (b >= w ? (w >= 128 ? 127 : w - 1) : (unsigned)b)) & M;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext(a, w) < sext(b, w);
    case Op::Sle: return sext(a, w) <= sext(b, w);
    default: fprintf(stderr, "foldBin\n"); abort();
  }
}

static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle; }

const Expr* mkNot(const Expr* a) { return mkBin(Op::Xor, a, mkConst(maskw(a->w), a->w)); }

const Expr* mkEq(const Expr* a, const Expr* b) {
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkConst(a->cv == b->cv, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->w == 1) return b->cv ? a : mkNot(a);
    if (a->w <= 64 && ((u64)b->cv & a->kz & m64(a->w))) return mkFalse();
    switch (a->op) {
      case Op::ZExt:
        if (b->cv & ~maskw(a->a->w)) return mkFalse();
        return mkEq(a->a, mkConst(b->cv, a->a->w));
      case Op::SExt: {
        u128 t = (u128)sext(b->cv & maskw(a->a->w), a->a->w) & maskw(a->w);
        if (t != b->cv) return mkFalse();
        return mkEq(a->a, mkConst(b->cv, a->a->w));
      }
      case Op::Concat: {
        const Expr* hi = mkEq(a->a, mkConst(b->cv >> a->b->w, a->a->w));
        if (isFalse(hi)) return hi;
        const Expr* lo = mkEq(a->b, mkConst(b->cv, a->b->w));
        return mkBin(Op::And, hi, lo);
      }
      case Op::Ite:
        if (isC(a->b) || isC(a->c)) {
          const Expr* t = mkEq(a->b, b);
          const Expr* f = mkEq(a->c, b);
          return mkIte(a->a, t, f);
        }
        break;
      case Op::Add:
        if (isC(a->b)) return mkEq(a->a, mkConst(b->cv - a->b->cv, a->w));
        break;
      case Op::Sub:
        if (isC(a->a)) return mkEq(a->b, mkConst(a->a->cv - b->cv, a->w));
        if (b->cv == 0) return mkEq(a->a, a->b);
        break;
      case Op::Xor:
        if (isC(a->b)) return mkEq(a->a, mkConst(b->cv ^ a->b->cv, a->w));
        if (b->cv == 0) return mkEq(a->a, a->b);
        break;
      default: break;
    }
  } else {
    if (a->op == Op::ZExt && b->op == Op::ZExt) {
      unsigned m = std::max(a->a->w, b->a->w);
      if (m < a->w) return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
    }
    if (a->op == Op::Add && b->op == Op::Add && isC(a->b) && isC(b->b)) {
      if (a->b == b->b) return mkEq(a->a, b->a);
      if (a->a == b->a) return mkFalse();
    }
    if (a->op == Op::Add && isC(a->b) && a->a == b) return mkConst(a->b->cv == 0, 1);
    if (b->op == Op::Add && isC(b->b) && b->a == a) return mkConst(b->b->cv == 0, 1);
    if (a->w == 1) return mkNot(mkBin(Op::Xor, a, b));
    if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
      return mkBin(Op::And, mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
  }
  return intern(Op::Eq, 1, 0, a, b, nullptr, 0);
}

const Expr* mkBin(Op op, const Expr* a, const Expr* b) {
  if (a->w != b->w) { fprintf(stderr, "vfx: width mismatch op %d %u %u\n", (int)op, a->w, b->w); abort(); }
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->cv, b->cv, w), isCmp(op) ? 1 : w);
  u128 M = maskw(w);
  switch (op) {
    case Op::Eq: return mkEq(a, b);
    case Op::Add:
      if (isC(a)) std::swap(a, b);
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->cv + b->cv, w));
        if (a->op == Op::Sub && isC(a->a)) return mkBin(Op::Sub, mkConst(a->a->cv + b->cv, w), a->b);
        if (a->op == Op::Ite && isC(a->b) && isC(a->c))
          return mkIte(a->a, mkConst(a->b->cv + b->cv, w), mkConst(a->c->cv + b->cv, w));
      } else {
        if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
        if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
        if (b->op == Op::Sub && b->b == a) return b->a;
        if (a->op == Op::Sub && a->b == b) return a->a;
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (w == 1) return mkBin(Op::Xor, a, b);
      if (isC(b)) return mkBin(Op::Add, a, mkConst((u128)0 - b->cv, w));
      if (a->op == Op::Add && a->a == b) return a->b;
      if (a->op == Op::Add && a->b == b) return a->a;
      if (a->op == Op::Add && b->op == Op::Add && a->a == b->a && isC(a->b) && isC(b->b))
        return mkConst(a->b->cv - b->b->cv, w);
      if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
      if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst((u128)0 - b->b->cv, w));
      break;
    case Op::Mul:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->cv == 0) return b;
        if (b->cv == 1) return a;
        if ((b->cv & (b->cv - 1)) == 0) {
          unsigned k = 0; u128 v = b->cv; while (v > 1) { v >>= 1; k++; }
          return mkBin(Op::Shl, a, mkConst(k, w));
        }
        if (a->op == Op::Ite && isC(a->b) && isC(a->c))
          return mkIte(a->a, mkConst(a->b->cv * b->cv, w), mkConst(a->c->cv * b->cv, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case Op::UDiv:
      if (isC(b) && b->cv == 1) return a;
      if (isC(b) && b->cv != 0 && (b->cv & (b->cv - 1)) == 0) {
        unsigned k = 0; u128 v = b->cv; while (v > 1) { v >>= 1; k++; }
        return mkBin(Op::LShr, a, mkConst(k, w));
      }
      break;
    case Op::URem:
      if (isC(b) && b->cv == 1) return mkConst(0, w);
      if (isC(b) && b->cv != 0 && (b->cv & (b->cv - 1)) == 0)
        return mkBin(Op::And, a, mkConst(b->cv - 1, w));
      break;
    case Op::SDiv: if (isC(b) && b->cv == 1) return a; break;
    case Op::SRem: if (isC(b) && b->cv == 1) return mkConst(0, w); break;
    case Op::And:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->cv == 0) return b;
        if (b->cv == M) return a;
        if (w <= 64 && (((u64)~b->cv) & ~a->kz & m64(w)) == 0) return a;
        if (w <= 64 && (((u64)b->cv) & ~a->kz & m64(w)) == 0) return mkConst(0, w);
        if (a->op == Op::And && isC(a->b)) return mkBin(Op::And, a->a, mkConst(a->b->cv & b->cv, w));
        if (((b->cv + 1) & b->cv) == 0) {  // low mask
          unsigned k = 0; u128 v = b->cv; while (v) { v >>= 1; k++; }
          return mkZExt(mkExtract(a, 0, k), w);
        }
        {  // contiguous mask not starting at bit 0
          unsigned lo = 0; u128 v = b->cv; while (!(v & 1)) { v >>= 1; lo++; }
          if (((v + 1) & v) == 0) {
            unsigned k = 0; while (v) { v >>= 1; k++; }
            const Expr* mid = mkExtract(a, lo, k);
            const Expr* r = mkConcat(mid, mkConst(0, lo));
            return mkZExt(r, w);
          }
        }
        if (a->op == Op::Ite && isC(a->b) && isC(a->c))
          return mkIte(a->a, mkConst(a->b->cv & b->cv, w), mkConst(a->c->cv & b->cv, w));
      } else {
        if (w == 1) {
          if (a->op == Op::Xor && isC(a->b) && a->a == b) return mkFalse();
          if (b->op == Op::Xor && isC(b->b) && b->a == a) return mkFalse();
          if (a->op == Op::And && (a->a == b || a->b == b)) return a;
          if (b->op == Op::And && (b->a == a || b->b == a)) return b;
        }
        if (w <= 64 && ((~a->kz) & (~b->kz) & m64(w)) == 0) return mkConst(0, w);
        if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
          return mkConcat(mkBin(Op::And, a->a, b->a), mkBin(Op::And, a->b, b->b));
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case Op::Or:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (b->cv == M) return b;
        if (a->op == Op::Or && isC(a->b)) return mkBin(Op::Or, a->a, mkConst(a->b->cv | b->cv, w));
        if (a->op == Op::Concat) {
          return mkConcat(mkBin(Op::Or, a->a, mkConst(b->cv >> a->b->w, a->a->w)),
                          mkBin(Op::Or, a->b, mkConst(b->cv, a->b->w)));
        }
      } else {
        if (w == 1) {
          if (a->op == Op::Xor && isC(a->b) && a->a == b) return mkTrue();
          if (b->op == Op::Xor && isC(b->b) && b->a == a) return mkTrue();
        }
        // Disjoint pieces: turn "concat(x,0) | zext(y)" into a concat.
        for (int k = 0; k < 2; k++) {
          if (a->op == Op::Concat && isCV(a->b, 0)) {
            unsigned lw = a->b->w;
            const Expr* blo = mkExtract(b, 0, lw);
            const Expr* bhi = mkExtract(b, lw, w - lw);
            if (isCV(bhi, 0)) return mkConcat(a->a, blo);
            if (bhi->op == Op::ZExt || bhi->op == Op::Concat || isC(bhi))
              return mkConcat(mkBin(Op::Or, a->a, bhi), blo);
          }
          if (a->op == Op::ZExt && b->op == Op::ZExt) {
            unsigned m = std::max(a->a->w, b->a->w);
            if (m < w) return mkZExt(mkBin(Op::Or, mkZExt(a->a, m), mkZExt(b->a, m)), w);
          }
          if (a->op == Op::ZExt && b->op == Op::Concat) {
            unsigned lw = b->b->w;
            if (a->a->w <= lw)
              return mkConcat(b->a, mkBin(Op::Or, b->b, mkZExt(a->a, lw)));
          }
          std::swap(a, b);
        }
        if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
          return mkConcat(mkBin(Op::Or, a->a, b->a), mkBin(Op::Or, a->b, b->b));
        if (a->id > b->id) std::swap(a, b);
      }
      break;
    case Op::Xor:
      if (isC(a)) std::swap(a, b);
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (a->op == Op::Xor && isC(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->cv ^ b->cv, w));
        if (w == 1 && a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
        if (w == 1 && a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
        if (w == 1 && a->op == Op::Slt) return mkBin(Op::Sle, a->b, a->a);
        if (w == 1 && a->op == Op::Sle) return mkBin(Op::Slt, a->b, a->a);
        if (a->op == Op::Ite && isC(a->b) && isC(a->c))
          return mkIte(a->a, mkConst(a->b->cv ^ b->cv, w), mkConst(a->c->cv ^ b->cv, w));
      } else if (a->id > b->id) std::swap(a, b);
      break;
    case Op::Shl:
      if (isCV(a, 0)) return a;
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (b->cv >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->cv;
        return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
      }
      break;
    case Op::LShr:
      if (isCV(a, 0)) return a;
      if (isC(b)) {
        if (b->cv == 0) return a;
        if (b->cv >= w) return mkConst(0, w);
        unsigned k = (unsigned)b->cv;
        return mkZExt(mkExtract(a, k, w - k), w);
      }
      break;
    case Op::AShr:
      if (isCV(a, 0)) return a;
      if (isC(b)) {
        if (b->cv == 0) return a;
        unsigned k = b->cv >= w ? w - 1 : (unsigned)b->cv;
        if (k == 0) return a;
        return mkSExt(mkExtract(a, k, w - k), w);
      }
      break;
    case Op::Ult:
      if (a == b) return mkFalse();
      if (isCV(b, 0)) return mkFalse();
      if (isCV(b, 1)) return mkEq(a, mkConst(0, w));
      if (isCV(a, M)) return mkFalse();
      if (isCV(a, 0)) return mkNot(mkEq(b, a));
      if (w <= 64 && isC(b) && umaxOf(a) < (u64)b->cv) return mkTrue();
      if (w <= 64 && isC(a) && umaxOf(b) <= (u64)a->cv) return mkFalse();
      if (a->op == Op::ZExt && b->op == Op::ZExt) {
        unsigned m = std::max(a->a->w, b->a->w);
        if (m < w) return mkBin(Op::Ult, mkZExt(a->a, m), mkZExt(b->a, m));
      }
      if (a->op == Op::ZExt && isC(b)) {
        if (b->cv > maskw(a->a->w)) return mkTrue();
        return mkBin(Op::Ult, a->a, mkConst(b->cv, a->a->w));
      }
      if (b->op == Op::ZExt && isC(a)) {
        if (a->cv >= maskw(b->a->w)) return mkFalse();
        return mkBin(Op::Ult, mkConst(a->cv, b->a->w), b->a);
      }
      if (w == 1) return mkBin(Op::And, mkNot(a), b);
      return intern(Op::Ult, 1, 0, a, b, nullptr, 0);
    case Op::Ule:
      if (a == b) return mkTrue();
      if (isCV(a, 0)) return mkTrue();
      if (isCV(b, M)) return mkTrue();
      if (isCV(b, 0)) return mkEq(a, b);
      if (w <= 64 && isC(b) && umaxOf(a) <= (u64)b->cv) return mkTrue();
      if (w <= 64 && isC(a) && umaxOf(b) < (u64)a->cv) return mkFalse();
      if (isC(b)) return mkBin(Op::Ult, a, mkConst(b->cv + 1, w));
      if (isC(a)) return mkBin(Op::Ult, mkConst(a->cv - 1, w), b);
      if (a->op == Op::ZExt && b->op == Op::ZExt) {
        unsigned m = std::max(a->a->w, b->a->w);
        if (m < w) return mkBin(Op::Ule, mkZExt(a->a, m), mkZExt(b->a, m));
      }
      if (w == 1) return mkBin(Op::Or, mkNot(a), b);
      return intern(Op::Ule, 1, 0, a, b, nullptr, 0);
    case Op::Slt: case Op::Sle: {
      if (a == b) return mkConst(op == Op::Sle, 1);
      // both non-negative (or sign known zero): unsigned compare
      if (w <= 64) {
        u64 s = 1ULL << (w - 1);
        if ((a->kz & s) && (b->kz & s)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
        if ((a->kz & s) && isC(b)) return mkFalse();   // b is negative
        if ((b->kz & s) && isC(a)) return mkTrue();    // a is negative
      }
      if (op == Op::Slt && isCV(b, 0) && w > 1) return mkExtract(a, w - 1, 1);
      if (op == Op::Sle && isCV(a, 0) && w > 1) return mkNot(mkExtract(b, w - 1, 1));
      if (op == Op::Slt && isCV(a, M) && w > 1) return mkNot(mkExtract(b, w - 1, 1));
      if (op == Op::Sle && isCV(b, M) && w > 1) return mkExtract(a, w - 1, 1);
      if (w == 1) return op == Op::Slt ? mkBin(Op::And, a, mkNot(b)) : mkBin(Op::Or, a, mkNot(b));
      return intern(op, 1, 0, a, b, nullptr, 0);
    }
    default: fprintf(stderr, "mkBin bad op\n"); abort();
  }
  return intern(op, w, 0, a, b, nullptr, 0);
}

const Expr* mkExtract(const Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "vfx: bad extract\n"); abort(); }
  switch (a->op) {
    case Op::Const: return mkConst(a->cv >> lo, w);
    case Op::Extract: return mkExtract(a->a, a->p + lo, w);
    case Op::Concat: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned iw = a->a->w;
      if (lo >= iw) return mkConst(0, w);
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case Op::SExt: {
      unsigned iw = a->a->w;
      if (lo + w <= iw) return mkExtract(a->a, lo, w);
      if (lo >= iw) return mkSExt(mkExtract(a->a, iw - 1, 1), w);
      return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    }
    case Op::And: case Op::Or: case Op::Xor:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case Op::Ite:
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  if (a->w <= 64) {
    u64 need = m64(w) << lo;
    if ((a->kz & need) == need) return mkConst(0, w);
  }
  return intern(Op::Extract, w, lo, a, nullptr, nullptr, 0);
}

const Expr* mkConcat(const Expr* hi, const Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "vfx: concat width %u\n", w); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->cv << lo->w) | lo->cv, w);
  if (isCV(hi, 0)) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->p == lo->p + lo->w)
    return mkExtract(hi->a, lo->p, w);
  // sub-part merging: concat(x, concat(y,z)) where x,y adjacent extracts
  if (lo->op == Op::Concat) {
    const Expr* y = lo->a;
    if (hi->op == Op::Extract && y->op == Op::Extract && hi->a == y->a && hi->p == y->p + y->w)
      return mkConcat(mkExtract(hi->a, y->p, hi->w + y->w), lo->b);
    if (isC(hi) && isC(y)) return mkConcat(mkConcat(hi, y), lo->b);
  }
  if (hi->op == Op::Concat) {  // right-associate
    return mkConcat(hi->a, mkConcat(hi->b, lo));
  }
  if (hi->op == Op::ZExt) {
    return mkZExt(mkConcat(hi->a, lo), w);
  }
  if (hi->op == Op::SExt && lo->op == Op::Extract && hi->a->op == Op::Extract && hi->a->a == lo->a &&
      hi->a->w == 1 && hi->a->p == lo->p + lo->w - 1) {
    return mkSExt(lo, w);
  }
  // sign extension written as separate pieces
  if (hi->op == Op::SExt && hi->a->w == 1 && hi->a->op == Op::Extract && mkExtract(lo, lo->w - 1, 1) == hi->a)
    return mkSExt(lo, w);
  // low part of an expression whose extraction was pushed inwards
  if (hi->op == Op::Extract && hi->p >= lo->w && (hi->a->op == Op::Add || hi->a->op == Op::Sub || hi->a->op == Op::Mul) &&
      mkExtract(hi->a, hi->p - lo->w, lo->w) == lo)
    return mkExtract(hi->a, hi->p - lo->w, w);
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return intern(Op::Concat, w, 0, hi, lo, nullptr, 0);
}

const Expr* mkZExt(const Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->cv, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->cv, w), mkConst(a->c->cv, w));
  return intern(Op::ZExt, w, 0, a, nullptr, nullptr, 0);
}
const Expr* mkSExt(const Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sext(a->cv, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->a, w);
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  if (a->w <= 64 && (a->kz & (1ULL << (a->w - 1)))) return mkZExt(a, w);
  if (a->op == Op::Ite && isC(a->b) && isC(a->c))
    return mkIte(a->a, mkConst((u128)sext(a->b->cv, a->w), w), mkConst((u128)sext(a->c->cv, a->w), w));
  return intern(Op::SExt, w, 0, a, nullptr, nullptr, 0);
}

const Expr* mkIte(const Expr* c, const Expr* a, const Expr* b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (c->op == Op::Xor && isC(c->b)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return mkNot(c);
    if (isTrue(a)) return mkBin(Op::Or, c, b);
    if (isFalse(a)) return mkBin(Op::And, mkNot(c), b);
    if (isFalse(b)) return mkBin(Op::And, c, a);
    if (isTrue(b)) return mkBin(Op::Or, mkNot(c), a);
  }
  if (a->op == Op::Ite && a->a == c) return mkIte(c, a->b, b);
  if (b->op == Op::Ite && b->a == c) return mkIte(c, a, b->c);
  if (b->op == Op::Ite && b->b == a) return mkIte(mkBin(Op::Or, c, b->a), a, b->c);
  return intern(Op::Ite, a->w, 0, c, a, b, 0);
}

const Expr* mkF(Op op, unsigned w, const Expr* a, const Expr* b) {
  const Expr* e = intern(op, w, 0, a, b, nullptr, 0);
  bool c = isC(a) && (!b || isC(b));
  if (c) return mkConst(evalExpr(e, {}), w);
  return e;
}

const std::vector<unsigned>& symsOf(const Expr* e) {
  if (e->syms) return *e->syms;
  // iterative post-order
  std::vector<const Expr*> st{e};
  while (!st.empty()) {
    const Expr* x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    for (const Expr* k : {x->a, x->b, x->c})
      if (k && !k->syms) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto* v = new std::vector<unsigned>();
    if (x->op == Op::Sym) v->push_back(x->p);
    for (const Expr* k : {x->a, x->b, x->c})
      if (k) v->insert(v->end(), k->syms->begin(), k->syms->end());
    std::sort(v->begin(), v->end());
    v->erase(std::unique(v->begin(), v->end()), v->end());
    const_cast<Expr*>(x)->syms = v;
  }
  return *e->syms;
}

bool containsUninit(const Expr* e) { return e->uninit; }

namespace {
std::vector<u128> memoV;
std::vector<unsigned> memoE;
unsigned epoch = 0;
float asF(u128 v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
double asD(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
u128 fromF(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
u128 fromD(double f) { u64 x; memcpy(&x, &f, 8); return x; }
template <class F> u128 fbin(unsigned w, u128 a, u128 b, F f) {
  if (w == 32) return fromF(f(asF(a), asF(b)));
  return fromD(f(asD(a), asD(b)));
}
template <class F> u128 fcmp(unsigned w, u128 a, u128 b, F f) {
  if (w == 32) return f((double)asF(a), (double)asF(b));
  return f(asD(a), asD(b));
}
u128 evalNode(const Expr* e, u128 a, u128 b, u128 c) {
  switch (e->op) {
    case Op::Extract: return (a >> e->p) & maskw(e->w);
    case Op::Concat: return (a << e->b->w) | b;
    case Op::ZExt: return a;
    case Op::SExt: return (u128)sext(a, e->a->w) & maskw(e->w);
    case Op::Ite: return a ? b : c;
    case Op::FAdd: return fbin(e->w, a, b, [](auto x, auto y) { return x + y; });
    case Op::FSub: return fbin(e->w, a, b, [](auto x, auto y) { return x - y; });
    case Op::FMul: return fbin(e->w, a, b, [](auto x, auto y) { return x * y; });
    case Op::FDiv: return fbin(e->w, a, b, [](auto x, auto y) { return x / y; });
    case Op::FSqrt: return e->w == 32 ? fromF(std::sqrt(asF(a))) : fromD(std::sqrt(asD(a)));
    case Op::FLt: return fcmp(e->a->w, a, b, [](double x, double y) { return x < y; });
    case Op::FLe: return fcmp(e->a->w, a, b, [](double x, double y) { return x <= y; });
    case Op::FEq: return fcmp(e->a->w, a, b, [](double x, double y) { return x == y; });
    case Op::FUno: return fcmp(e->a->w, a, b, [](double x, double y) { return std::isnan(x) || std::isnan(y); });
    case Op::FPExt: return fromD((double)asF(a));
    case Op::FPTrunc: return fromF((float)asD(a));
    case Op::SIToFP: return e->w == 32 ? fromF((float)sext(a, e->a->w)) : fromD((double)sext(a, e->a->w));
    case Op::UIToFP: return e->w == 32 ? fromF((float)(u64)a) : fromD((double)(u64)a);
    case Op::FPToSI: {
      double d = e->a->w == 32 ? asF(a) : asD(a);
      if (std::isnan(d) || d < -9.3e18 || d > 9.3e18) return (u128)1 << (e->w - 1);
      return (u128)(i128)d & maskw(e->w);
    }
    case Op::FPToUI: {
      double d = e->a->w == 32 ? asF(a) : asD(a);
      if (std::isnan(d) || d < 0 || d > 1.85e19) return 0;
      return (u128)d & maskw(e->w);
    }
    default: return foldBin(e->op, a, b, e->a->w);
  }
}
}  // namespace

u128 evalExpr(const Expr* e, const Assign& m) {
  if (e->op == Op::Const) return e->cv;
  if (memoV.size() < nextId) { memoV.resize(nextId * 2 + 1024); memoE.resize(nextId * 2 + 1024, 0); }
  ++epoch;
  std::vector<const Expr*> st{e};
  while (!st.empty()) {
    const Expr* x = st.back();
    if (memoE[x->id] == epoch) { st.pop_back(); continue; }
    if (x->op == Op::Const) { memoV[x->id] = x->cv; memoE[x->id] = epoch; st.pop_back(); continue; }
    if (x->op == Op::Sym) {
      memoV[x->id] = x->p < m.size() ? (m[x->p] & m64(x->w)) : 0;
      memoE[x->id] = epoch; st.pop_back(); continue;
    }
    if (x->op == Op::Ite) {  // lazy in the branches
      if (memoE[x->a->id] != epoch) { st.push_back(x->a); continue; }
      const Expr* k = memoV[x->a->id] ? x->b : x->c;
      if (memoE[k->id] != epoch) { st.push_back(k); continue; }
      memoV[x->id] = memoV[k->id]; memoE[x->id] = epoch; st.pop_back(); continue;
    }
    bool ready = true;
    if (x->a && memoE[x->a->id] != epoch) { st.push_back(x->a); ready = false; }
    if (x->b && memoE[x->b->id] != epoch) { st.push_back(x->b); ready = false; }
    if (!ready) continue;
    st.pop_back();
    memoV[x->id] = evalNode(x, memoV[x->a->id], x->b ? memoV[x->b->id] : 0, 0);
    memoE[x->id] = epoch;
  }
  return memoV[e->id];
}

std::string toStr(const Expr* e, int d) {
  static const char* names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
    "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite",
    "fadd", "fsub", "fmul", "fdiv", "flt", "fle", "feq", "funo", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "fsqrt"};
  char buf[64];
  if (e->op == Op::Const) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->cv, e->w); return buf; }
  if (e->op == Op::Sym) return syms[e->p].name + "#" + std::to_string(e->p) + ":" + std::to_string(e->w);
  if (d == 0) return "...";
  std::string s = std::string("(") + names[(int)e->op] + ":" + std::to_string(e->w);
  if (e->op == Op::Extract) s += "@" + std::to_string(e->p);
  for (const Expr* k : {e->a, e->b, e->c}) if (k) s += " " + toStr(k, d - 1);
  return s + ")";
}
}  // namespace vfx
