// Randomised self-test of the expression simplifier against direct semantics.
#include "expr.h"
#include <random>
using namespace vfx;
static std::mt19937_64 R(7);
static u64 rnd(u64 n) { return R() % n; }
struct N { const Expr* e; std::vector<u128> v; };
int main(int argc, char** argv) {
  int rounds = argc > 1 ? atoi(argv[1]) : 20000;
  const int K = 12;
  unsigned ws[] = {1, 2, 3, 7, 8, 16, 31, 32, 33, 63, 64, 65, 128};
  int id = 0;
  std::vector<Assign> as(K);
  long nodes = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<N> pool;
    for (int i = 0; i < 3; i++) {
      static unsigned sw[] = {1, 8, 16, 32, 64, 5};
      unsigned w = sw[rnd(6)];
      static std::vector<const Expr*> syms;
      static std::vector<unsigned> sid;
      const Expr* e;
      if (syms.size() < 24) { e = mkSym("s" + std::to_string(id), "s", w, false); id++; syms.push_back(e);
        for (auto& a : as) { a.resize(e->p + 1); static u64 sp[] = {0, 1, ~0ull, 0x80, 0x7f, 0x8000000000000000ull, 0x7fffffff}; a[e->p] = (rnd(3) ? R() >> rnd(64) : sp[rnd(7)]) & (u64)maskw(w); } }
      else e = syms[rnd(syms.size())];
      N n{e, {}};
      for (auto& a : as) n.v.push_back(a[e->p]);
      pool.push_back(n);
    }
    for (int i = 0; i < 3; i++) {
      unsigned w = ws[rnd(13)];
      u128 c = rnd(2) ? (u128)rnd(4) : rnd(2) ? ~(u128)0 : (((u128)R() << 64) | R());
      if (rnd(4) == 0) c = ((u128)1 << rnd(w)) - 1;
      c &= maskw(w);
      pool.push_back({mkConst(c, w), std::vector<u128>(K, c)});
    }
    for (int st = 0; st < 14; st++) {
      N x = pool[rnd(pool.size())], y = pool[rnd(pool.size())];
      auto adj = [&](N n, unsigned w) -> N {
        if (n.e->w == w) return n;
        if (n.e->w > w) { unsigned lo = rnd(n.e->w - w + 1); N q{mkExtract(n.e, lo, w), n.v}; for (auto& v : q.v) v = (v >> lo) & maskw(w); return q; }
        bool s = rnd(2); N q{s ? mkSExt(n.e, w) : mkZExt(n.e, w), n.v};
        if (s) for (auto& v : q.v) v = (u128)sext(v, n.e->w) & maskw(w);
        return q; };
      unsigned w = x.e->w; N z;
      int k = rnd(24);
      if (k < 13) {
        Op ops[] = {Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::SDiv, Op::SRem};
        Op op = ops[k];
        y = adj(y, w);
        if (w > 64 && (op == Op::UDiv || op == Op::URem || op == Op::SDiv || op == Op::SRem)) continue;
        bool bad = false;
        z.e = nullptr;
        for (int i = 0; i < K; i++) {
          u128 a = x.v[i], b = y.v[i], res = 0; i128 sa = sext(a, w), sb = sext(b, w);
          switch (op) {
            case Op::Add: res = a + b; break; case Op::Sub: res = a - b; break; case Op::Mul: res = a * b; break;
            case Op::UDiv: if (!b) bad = true; else res = a / b; break;
            case Op::URem: if (!b) bad = true; else res = a % b; break;
            case Op::SDiv: if (!b || (sb == -1 && a == ((u128)1 << (w - 1)))) bad = true; else res = sa / sb; break;
            case Op::SRem: if (!b || (sb == -1 && a == ((u128)1 << (w - 1)))) bad = true; else res = sa % sb; break;
            case Op::And: res = a & b; break; case Op::Or: res = a | b; break; case Op::Xor: res = a ^ b; break;
            case Op::Shl: res = b >= w ? 0 : a << (unsigned)b; break;
            case Op::LShr: res = b >= w ? 0 : a >> (unsigned)b; break;
            case Op::AShr: res = b >= w ? (sa < 0 ? ~(u128)0 : 0) : (u128)(sa >> (unsigned)b); break;
            default: break;
          }
          z.v.push_back(res & maskw(w));
        }
        if (bad) continue;
        z.e = mkBin(op, x.e, y.e);
      } else if (k < 18) {
        Op ops[] = {Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle};
        Op op = ops[k - 13]; y = adj(y, w);
        for (int i = 0; i < K; i++) {
          u128 a = x.v[i], b = y.v[i]; i128 sa = sext(a, w), sb = sext(b, w);
          z.v.push_back(op == Op::Eq ? a == b : op == Op::Ult ? a < b : op == Op::Ule ? a <= b : op == Op::Slt ? sa < sb : sa <= sb);
        }
        z.e = op == Op::Eq ? mkEq(x.e, y.e) : mkBin(op, x.e, y.e);
      } else if (k == 18) {
        if (w + y.e->w > 128) continue;
        z.e = mkConcat(x.e, y.e);
        for (int i = 0; i < K; i++) z.v.push_back((x.v[i] << y.e->w) | y.v[i]);
      } else if (k == 19) { z = adj(x, 1 + rnd(w)); }
      else if (k == 20) { z = adj(x, w + rnd(129 - w)); }
      else if (k == 21) { z.e = mkNot(adj(x, 1).e); N t; continue; }
      else {
        y = adj(y, w); N c = adj(pool[rnd(pool.size())], 1);
        z.e = mkIte(c.e, x.e, y.e);
        for (int i = 0; i < K; i++) z.v.push_back(c.v[i] ? x.v[i] : y.v[i]);
      }
      nodes++;
      if (z.e->w != (unsigned)z.e->w) return 1;
      for (int i = 0; i < K; i++) {
        u128 g = evalExpr(z.e, as[i]);
        bool kzbad = z.e->w <= 64 && (z.v[i] & z.e->kz);
        if (g != z.v[i] || kzbad) {
          fprintf(stderr, "selftest mismatch k=%d kz=%d got %llx want %llx w=%u\n x=%s\n y=%s\n z=%s\n", k, kzbad, (unsigned long long)g, (unsigned long long)z.v[i], z.e->w, toStr(x.e).c_str(), toStr(y.e).c_str(), toStr(z.e).c_str());
          return 1;
        }
      }
      pool.push_back(z);
    }
  }
  printf("selftest ok: %ld nodes x %d assignments\n", nodes, K);
}
