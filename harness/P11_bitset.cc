// Resource bit sets behave as finite sets of positions.
// SRC: generic/resource_bitset.cc
// OPTS: steps=2000000
// BOUND: sets of up to seven words with one to three elements per word, two set operations, growth and resizing to any number of words
// BOUND: sets of up to 3 words (192 positions), initial sizes 0, 1, 63, 64, 65, 128, 130; contents given by up to 3 elements at any positions; sequences of one or two set operations
#include <utility>
#include "mpact/sim/generic/resource_bitset.h"
#include "vf.h"
using mpact::sim::generic::ResourceBitSet;
namespace {
const int kMax = 192;
const int kSizes[] = {0, 1, 63, 64, 65, 128, 130};
// A set together with its reference contents.
struct S {
  ResourceBitSet b;
  uint64_t w[3] = {0, 0, 0};
  explicit S(int size) : b(size) {}
  S() = default;
  void Set(int p) {
    b.Set(p);
    for (int i = 0; i < 3; i++) w[i] |= p / 64 == i ? 1ull << (p & 63) : 0;
  }
  bool Has(int p) const { return (w[p / 64] >> (p & 63)) & 1; }
};
int Pos(const char* n) { int w = vf_choose("word", 0, 2); return 64 * w + (int)vf_range(n, 0, 63); }
// The bit set b holds exactly the positions in w.
void Same(const ResourceBitSet& b, const uint64_t* w, const char* what) {
  int p = Pos("probe");
  ResourceBitSet one(kMax);
  one.Set(p);
  vf_check(b.IsIntersectionNonEmpty(one) == ((w[p / 64] >> (p & 63)) & 1), what);
}
// The search from any position finds the first element at or after it.
void Search(const ResourceBitSet& b, const uint64_t* w, const char* what) {
  int p = Pos("probe");
  int q = p;
  bool found = b.FindNextSetBit(&q);
  // First element at or after p.
  uint64_t any = 0;
  for (int i = 0; i < 3; i++) { uint64_t m = i < p / 64 ? 0 : i == p / 64 ? ~0ull << (p & 63) : ~0ull; any |= w[i] & m; }
  vf_check(found == (any != 0), what);
  if (found) {
    vf_check(q >= p && q < kMax, "the element found is not before the start");
    bool has = false, none = true;
    for (int i = 0; i < 3; i++) {
      uint64_t m = i < p / 64 ? 0 : i == p / 64 ? ~0ull << (p & 63) : ~0ull;
      uint64_t upto = i < q / 64 ? ~0ull : i == q / 64 ? (1ull << (q & 63)) - 1 : 0;
      if (w[i] & m & upto) none = false;
      if (i == q / 64) has |= (w[i] >> (q & 63)) & 1;
    }
    vf_check(has, what);
    vf_check(none, "the element found is the first one");
  }
}
S* Make(int maxn) {
  S* s = new S(kSizes[vf_choose("size", 0, 6)]);
  int n = vf_choose("elements", 0, maxn);
  for (int i = 0; i < n; i++) s->Set(Pos("element"));
  return s;
}
}  // namespace
VF_ENTRY(bs_set) {
  S* s = Make(VF_N(2, 3));
  vf_reach("set");
  Same(s->b, s->w, "a set holds exactly the elements put into it");
}
VF_ENTRY(bs_search) {
  S* s = new S(vf_choose("size", 0, 1) ? 130 : 0);
  int n = vf_choose("elements", 0, VF_N(1, 2));
  for (int i = 0; i < n; i++) s->Set(Pos("element"));
  Search(s->b, s->w, "search");
  int f = -1;
  bool any = s->b.FindFirstSetBit(&f);
  vf_check(any == ((s->w[0] | s->w[1] | s->w[2]) != 0), "first element exists unless the set is empty");
  if (any) { int z = 0; vf_check(s->b.FindNextSetBit(&z) && z == f, "the first element is the next one from position 0"); }
  vf_check(s->b.FindFirstSetBit(nullptr) == any, "the position is optional");
  vf_reach("search");
}
// Elements in several words, and a search that begins anywhere among them.
VF_ENTRY(bs_search_words) {
  static const int kBit[] = {-1, 0, 2, 33, 63};
  static const int kStart[] = {0, 1, 2, 3, 33, 34, 63};
  ResourceBitSet b(vf_choose("size", 0, 1) ? kMax : 0);
  bool has[kMax + 1] = {};
  for (int w = 0; w < 3; w++)
    for (int k = 0; k < 2; k++) {
      if (k == 1 && w != 1) continue;
      int bit = kBit[vf_choose("bit", 0, 4)];
      if (bit >= 0) { b.Set(64 * w + bit); has[64 * w + bit] = true; }
    }
  int start = 64 * (int)vf_choose("word", 0, 2) + kStart[vf_choose("start", 0, 6)];
  int want = start;
  while (want < kMax && !has[want]) want++;
  int q = start;
  bool found = b.FindNextSetBit(&q);
  vf_check(found == (want < kMax), "the search finds an element exactly if there is one at or after its start");
  if (found) vf_check(q == want, "the element found is the first one");
  // Enumerating the set visits every element once, in order.
  int n = 0, at = 0, count = 0;
  for (int i = 0; i < kMax; i++) n += has[i];
  while (b.FindNextSetBit(&at)) { vf_check(at < kMax && has[at], "an enumeration visits elements only"); count++; at++; if (count > n) break; }
  vf_check(count == n, "an enumeration visits every element");
  vf_reach("words");
}
VF_ENTRY(bs_default) {
  S s;
  s.Set(Pos("element"));
  Same(s.b, s.w, "an empty default set grows");
}
VF_ENTRY(bs_count) {
  static const int kPos[] = {0, 1, 31, 63, 64, 127, 128, 191};
  S* s = new S(kSizes[vf_choose("size", 0, 6)]);
  int n = vf_choose("elements", 0, 3), distinct = 0; int p[3];
  for (int i = 0; i < n; i++) {
    p[i] = kPos[vf_choose("element", 0, 7)];
    bool dup = false;
    for (int k = 0; k < i; k++) dup |= p[k] == p[i];
    if (!dup) distinct++;
    s->Set(p[i]);
  }
  vf_check(s->b.GetOnesCount() == distinct, "the count is the number of elements");
}
VF_ENTRY(bs_binary) {
  S* a = Make(1); S* b = Make(1);
  uint64_t r[3], common = 0;
  int op = vf_choose("op", 0, 1);
  for (int i = 0; i < 3; i++) { common |= a->w[i] & b->w[i]; r[i] = op ? a->w[i] & ~b->w[i] : a->w[i] | b->w[i]; }
  vf_check(a->b.IsIntersectionNonEmpty(b->b) == (common != 0), "intersection test");
  vf_check(b->b.IsIntersectionNonEmpty(a->b) == (common != 0), "intersection test");
  if (op) a->b.AndNot(b->b); else a->b.Or(b->b);
  Same(a->b, r, op ? "difference" : "union");
  Same(b->b, b->w, "the other operand is unchanged");
  vf_reach("binary");
}
VF_ENTRY(bs_copy) {
  long base = vf_heap_live();
  {
    S* a = Make(2); S* b = Make(1);
    switch (vf_choose("how", 0, 3)) {
      case 0: { ResourceBitSet c(a->b); Same(c, a->w, "copy"); c.Set(191); Same(a->b, a->w, "a copy is independent"); break; }
      case 1: { b->b = a->b; Same(b->b, a->w, "assignment"); b->b.Set(191); Same(a->b, a->w, "a copy is independent"); break; }
      case 2: { ResourceBitSet c(std::move(a->b)); Same(c, a->w, "move"); break; }
      default: { ResourceBitSet* self = &a->b; a->b = *self; Same(a->b, a->w, "self assignment"); break; }
    }
    delete a; delete b;
    vf_reach("copy");
  }
  vf_check(vf_heap_live() == base, "no storage is lost");
}
VF_ENTRY(bs_resize) {
  S* a = Make(VF_N(1, 2));
  int size = kSizes[vf_choose("to", 0, 6)];
  a->b.Resize(size);
  for (int i = 0; i < 3; i++) a->w[i] &= i < size / 64 ? ~0ull : i == size / 64 ? (1ull << (size & 63)) - 1 : 0;
  Same(a->b, a->w, "resizing keeps exactly the elements below the new size");
  a->Set(Pos("element"));
  Same(a->b, a->w, "a resized set accepts new elements");
  vf_reach("resize");
}
// Large sets: growth, copies and set operations over up to seven words.
namespace {
struct Big {
  uint64_t w[8] = {};
  bool Has(int p) const { return (w[p / 64] >> (p % 64)) & 1; }
  void Set(int p) { w[p / 64] |= 1ull << (p % 64); }
};
void SameBig(const ResourceBitSet& b, const Big& m, const char* what) {
  int at = 0;
  for (int i = 0; i < 8; i++)
    for (uint64_t v = m.w[i]; v; v &= v - 1) {
      vf_check(b.FindNextSetBit(&at) && at == 64 * i + __builtin_ctzll(v), what);
      at++;
    }
  vf_check(!b.FindNextSetBit(&at), what);
  int n = 0;
  for (int i = 0; i < 8; i++) n += __builtin_popcountll(m.w[i]);
  vf_check(b.GetOnesCount() == (uint32_t)n, what);
}
void FillBig(ResourceBitSet* b, Big* m, int words, int kind) {
  for (int i = 0; i < words; i++) {
    int p = 64 * i + (kind * 17 + i * 29) % 64;
    if (kind == 2 && i % 2) continue;
    b->Set(p); m->Set(p);
    if (kind == 1) { b->Set(64 * i + 63); m->Set(64 * i + 63); b->Set(64 * i); m->Set(64 * i); }
  }
}
}  // namespace
VF_ENTRY(bs_large) {
  ResourceBitSet a(vf_choose("sized", 0, 1) ? 64 * 3 : 0), b;
  Big ma, mb;
  int na = vf_choose("words_a", 0, 6), nb = vf_choose("words_b", 0, 6);
  FillBig(&a, &ma, na, vf_choose("kind_a", 0, 2));
  FillBig(&b, &mb, nb, vf_choose("kind_b", 0, 2));
  SameBig(a, ma, "a set holds exactly the elements put into it");
  uint64_t common = 0;
  for (int i = 0; i < 8; i++) common |= ma.w[i] & mb.w[i];
  vf_check(a.IsIntersectionNonEmpty(b) == (common != 0), "intersection test");
  switch (vf_choose("op", 0, 4)) {
    case 0: a.Or(b); for (int i = 0; i < 8; i++) ma.w[i] |= mb.w[i]; break;
    case 1: a.AndNot(b); for (int i = 0; i < 8; i++) ma.w[i] &= ~mb.w[i]; break;
    case 2: { ResourceBitSet c(b); a = c; ma = mb; SameBig(c, mb, "copy"); break; }
    case 3: { ResourceBitSet c(a); Big mc = ma; a.Set(445); ma.Set(445); SameBig(c, mc, "a copy is independent"); break; }
    default: {
      int size = (int)vf_choose("to", 0, 7) * 64 - (int)vf_choose("less", 0, 1) * 31;
      if (size < 0) size = 0;
      a.Resize(size);
      for (int p = 0; p < 512; p++) if (p >= size) ma.w[p / 64] &= ~(1ull << (p % 64));
      break;
    }
  }
  SameBig(a, ma, "the result holds exactly the expected elements");
  SameBig(b, mb, "the other operand is unchanged");
  a.Set(300); ma.Set(300);
  SameBig(a, ma, "a set accepts new elements");
  vf_reach("large");
}
