// Field extraction recipes: applying the recipe of a bit mask gathers exactly the
// selected bits, in order, and the C code written for it computes the same value.
// SRC: decoder/extract.cc
// OPTS: steps=3000000
// BOUND: all 64-bit input values; bit masks: every mask of 10 (quick) or 13 (thorough) consecutive bits at offsets 0, 7, 27 and the top of the word, every mask made of one run of ones, every pair of runs with ends on a grid of 7 (quick) or 3 (thorough) bits
// ASSUME: the input word is 64 bits wide
#include <string>
#include "mpact/sim/decoder/extract.h"
#include "vf.h"
using namespace mpact::sim::decoder::bin_format;
namespace {
uint64_t Gather(uint64_t value, uint64_t mask) {
  uint64_t r = 0; int k = 0;
  for (int i = 0; i < 64; i++) if ((mask >> i) & 1) r |= ((value >> i) & 1) << k++;
  return r;
}
// Evaluates the emitted code.
bool Eat(const std::string& s, size_t* p, const char* t) {
  size_t q = *p;
  for (; *t; t++, q++) if (q >= s.size() || s[q] != *t) return false;
  *p = q;
  return true;
}
void Space(const std::string& s, size_t* p) { while (*p < s.size() && (s[*p] == ' ' || s[*p] == '\n' || s[*p] == '\t')) ++*p; }
bool Number(const std::string& s, size_t* p, uint64_t* out) {
  uint64_t v = 0; bool hex = Eat(s, p, "0x"); size_t st = *p;
  for (; *p < s.size(); ++*p) {
    char c = s[*p]; int d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (hex && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (hex && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
    v = v * (hex ? 16 : 10) + d;
  }
  *out = v;
  while (*p > st && *p < s.size() && (s[*p] == 'U' || s[*p] == 'L' || s[*p] == 'u' || s[*p] == 'l')) ++*p;
  return *p > st;
}
// Code is a sequence of "result = (value >> n) & m;" and "result |= ...": anything
// else is not understood and makes the path inconclusive rather than a violation.
uint64_t Eval(const std::string& s, uint64_t value, bool* ok) {
  uint64_t res = 0x5555; size_t p = 0;
  *ok = true;
  while (true) {
    Space(s, &p);
    if (p >= s.size()) return res;
    uint64_t sh = 0, m = ~0ull; bool acc;
    if (!Eat(s, &p, "out")) break;
    Space(s, &p);
    if (Eat(s, &p, "|=")) acc = true; else if (Eat(s, &p, "=")) acc = false; else break;
    Space(s, &p);
    bool par = Eat(s, &p, "(");
    Space(s, &p);
    if (!Eat(s, &p, "in")) break;
    Space(s, &p);
    if (Eat(s, &p, ">>")) { Space(s, &p); if (!Number(s, &p, &sh)) break; Space(s, &p); }
    if (par && !Eat(s, &p, ")")) break;
    Space(s, &p);
    if (Eat(s, &p, "&")) { Space(s, &p); if (!Number(s, &p, &m)) break; Space(s, &p); }
    if (!Eat(s, &p, ";")) break;
    vf_check(sh < 64, "emitted shift amount is below the word size");
    uint64_t v = (value >> (sh & 63)) & m;
    res = acc ? (res | v) : v;
  }
  *ok = false;
  return 0;
}
void One(uint64_t mask) {
  uint64_t v = vf_u64("value");
  auto recipe = GetExtractionRecipe(mask);
  uint64_t want = Gather(v, mask);
  vf_check(ExtractValue(v, recipe) == want, "extraction gathers exactly the bits of the mask, in order");
  if (mask != 0) {
    bool ok;
    uint64_t got = Eval(WriteExtraction(recipe, "in", "out", "  "), v, &ok);
    if (!ok) { vf_reach("emitted code not understood"); vf_prune(); }
    vf_check(got == want, "the emitted code computes the same value");
  }
  vf_observe("extracted", ExtractValue(v, recipe));
  vf_reach("extracted");
}
void Window(int off) {
  const int W = VF_N(10, 13);
  One((uint64_t)vf_choose("bits", 0, (1 << W) - 1) << off);
}
uint64_t Run(int lo, int hi) { return (hi >= 63 ? ~0ull : ((1ull << (hi + 1)) - 1)) & (~0ull << lo); }
}  // namespace
VF_ENTRY(x_window_low) { Window(0); }
VF_ENTRY(x_window_7) { Window(7); }
VF_ENTRY(x_window_mid) { Window(27); }
VF_ENTRY(x_window_top) { Window(64 - VF_N(10, 13)); }
VF_ENTRY(x_run) {
  int lo = vf_choose("lo", 0, 63);
  int hi = lo + vf_choose("len", 0, 63 - lo);
  One(Run(lo, hi));
}
VF_ENTRY(x_two_runs) {
  const int G = VF_N(7, 3);
  int lo = G * vf_choose("lo1", 0, 63 / G);
  int hi = lo + G * vf_choose("len1", 0, 63 / G);
  int lo2 = hi + 2 + G * vf_choose("gap", 0, 63 / G);
  if (lo2 > 63) vf_prune();
  int hi2 = lo2 + G * vf_choose("len2", 0, 63 / G);
  if (hi2 > 63) hi2 = 63;
  One(Run(lo, hi) | Run(lo2, hi2));
}
