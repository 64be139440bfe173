// Complex resources: a reservation for future cycles becomes busy at exactly those cycles as time passes.
// SRC: generic/complex_resource.cc generic/complex_resource_operand.cc generic/arch_state.cc generic/component.cc generic/data_buffer.cc generic/program_error.cc
// OPTS: steps=3000000
// BOUND: depths of 3 and 4 (quick) or 3 to 6 (thorough) words with two steps below 64 cycles
// BOUND: depths 64 and 128, any reservation, release and query masks, up to 3 (quick) or 4 (thorough) operations separated by time steps 0..2, 31, 63 and beyond the depth; operand masks for depths 64, 70 and 128 with any begin/end around word boundaries
// ASSUME: the two recorded findings (depths that are not a multiple of 64, and steps of 64 cycles or more within a deeper window) are excluded from the general entries and checked by their own
#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"
#include "vf.h"
using namespace mpact::sim::generic;
using u128 = unsigned __int128;
namespace {
struct State : ArchState {
  State() : ArchState("arch", nullptr) {}
  void set(uint64_t c) { set_cycle(c); }
};
u128 Sym(uint64_t* w, int words, const char* n) {
  u128 r = 0;
  for (int i = 0; i < words; i++) { w[i] = vf_u64(n); r |= (u128)w[i] << (64 * i); }
  return r;
}
u128 Shr(u128 v, uint64_t n) { return n >= 128 ? 0 : v >> n; }
void History(int depth, int ops) {
  State* st = new State();
  ComplexResource* r = new ComplexResource(st, "res", depth);
  const int words = depth / 64;
  vf_check(r->name() == "res" && r->AsString() == "res" && (int)r->cycle_depth() == depth && (int)r->bit_array().size() == words, "attributes");
  u128 busy = 0; uint64_t now = 0, w[2];
  static const int kStep[] = {0, 1, 2, 31, 63, 200};
  for (int k = 0; k < ops; k++) {
    int d = kStep[vf_choose("step", 0, 5)];
    now += d; busy = Shr(busy, d);
    st->set(now);
    // A mask may be shorter than the window.
    int n = words == 2 ? (int)vf_choose("words", 1, 2) : 1;
    u128 m = Sym(w, n, "mask");
    if (vf_choose("acquire", 0, 1)) { r->Acquire(absl::MakeConstSpan(w, n)); busy |= m; }
    else { r->Release(absl::MakeConstSpan(w, n)); busy &= ~m; }
  }
  int d = kStep[vf_choose("step", 0, 5)];
  now += d; busy = Shr(busy, d);
  st->set(now);
  u128 q = Sym(w, words, "query");
  vf_check(r->IsFree(absl::MakeConstSpan(w, words)) == ((busy & q) == 0), "free exactly when no queried cycle is reserved");
  vf_check(r->IsFree(absl::MakeConstSpan(w, 1)) == (((uint64_t)busy & w[0]) == 0), "free exactly when no queried cycle is reserved");
  vf_check(r->IsFree(absl::MakeConstSpan(w, words)) == ((busy & q) == 0), "asking changes nothing");
  delete r; delete st;
  vf_reach("history");
}
}  // namespace
VF_ENTRY(cr_64) { History(64, VF_N(2, 3)); }
VF_ENTRY(cr_128) { History(128, VF_N(1, 2)); }
// Any single step in a one word window, any short step in a two word window.
VF_ENTRY(cr_step) {
  State* st = new State();
  bool two = vf_choose("two", 0, 1);
  int depth = two ? 128 : 64, words = two ? 2 : 1;
  ComplexResource* r = new ComplexResource(st, "res", depth);
  uint64_t start = vf_choose("start", 0, 1) * 1000; st->set(start);
  uint64_t w[2];
  u128 busy = Sym(w, words, "mask");
  r->Acquire(absl::MakeConstSpan(w, words));
  int d = vf_choose("step", 0, two ? 63 : 66);
  st->set(start + d);
  busy = Shr(busy, d);
  u128 q = Sym(w, words, "query");
  vf_check(r->IsFree(absl::MakeConstSpan(w, words)) == ((busy & q) == 0), "reservations move towards the present by the time passed");
  delete r; delete st;
}
VF_ENTRY(cr_operand) {
  long base = vf_heap_live();
  {
    State* st = new State();
    static const int kDepth[] = {64, 70, 128};
    int depth = kDepth[vf_choose("depth", 0, 2)];
    ComplexResource* r = new ComplexResource(st, "res", depth);
    ComplexResourceOperand* op = new ComplexResourceOperand(r);
    static const int kAt[] = {0, 1, 62, 63, 64, 65, 69, 70, 127, 128};
    int b = kAt[vf_choose("begin", 0, 9)], e = kAt[vf_choose("end", 0, 9)];
    bool ok = op->SetCycleMask(b, e).ok();
    vf_check(ok == (b <= e && e < depth), "a range of cycles is accepted exactly when it is ordered and inside the window");
    if (ok) {
      auto m = op->bit_array();
      u128 got = 0, want = 0;
      vf_check(m.size() >= 1 && (int)m.size() * 64 < depth + 64, "mask size");
      for (size_t i = 0; i < m.size(); i++) got |= (u128)m[i] << (64 * i);
      for (int i = b; i <= e; i++) want |= (u128)1 << i;
      vf_check(got == want, "the mask covers exactly the cycles from begin to end");
      vf_check(op->IsFree(), "free before");
      if (depth % 64 == 0) { op->Acquire(); vf_check(!op->IsFree(), "reserved after acquisition"); }
    }
    delete op; delete r; delete st;
  }
  vf_check(vf_heap_live() == base, "masks are freed");
}
VF_ENTRY(cr_operand_span) {
  State* st = new State();
  static const int kDepth[] = {64, 70, 128};
  int depth = kDepth[vf_choose("depth", 0, 2)];
  ComplexResource* r = new ComplexResource(st, "res", depth);
  ComplexResourceOperand* op = new ComplexResourceOperand(r);
  vf_check(op->SetCycleMask(0, 3).ok(), "initial mask");
  uint64_t w[3]; int n = vf_choose("words", 0, 3);
  for (int i = 0; i < n; i++) w[i] = vf_u64("word");
  int words = (depth + 63) / 64;
  bool any = false, far = false;
  for (int i = 0; i < n; i++) any |= w[i] != 0;
  if (n == words && depth == 70) far = (w[1] >> 6) != 0;
  bool ok = op->SetCycleMask(absl::MakeConstSpan(w, n)).ok();
  if (n > words) vf_check(!ok, "a mask longer than the window is rejected");
  else vf_check(ok == (any && !far), "a mask is accepted exactly when it selects some cycle and none beyond the window");
  auto m = op->bit_array();
  if (ok) { vf_check((int)m.size() == n, "mask size"); for (int i = 0; i < n; i++) vf_check(m[i] == w[i], "the mask is kept"); }
  else vf_check(m.size() == 1 && m[0] == 15, "a rejected mask leaves the previous one in place");
  vf_check(op->IsFree(), "a fresh resource is free");
  delete op; delete r; delete st;
}
// Wider windows: the words above move down by whole and partial words.
VF_ENTRY(cr_wide) {
  State* st = new State();
  int words = vf_choose("words", 3, VF_N(4, 6)), depth = 64 * words;
  ComplexResource* r = new ComplexResource(st, "res", depth);
  vf_check((int)r->bit_array().size() == words, "attributes");
  uint64_t busy[6], q[6];
  for (int i = 0; i < words; i++) busy[i] = vf_u64("mask");
  r->Acquire(absl::MakeConstSpan(busy, words));
  static const int kStep[] = {0, 1, 31, 32, 62, 63};
  uint64_t now = 0;
  for (int k = 0; k < 2; k++) {
    int d = kStep[vf_choose("step", 0, 5)];
    now += d;
    st->set(now);
    for (int i = 0; i < words; i++) busy[i] = d == 0 ? busy[i] : (busy[i] >> d) | (i + 1 < words ? busy[i + 1] << (64 - d) : 0);
    int n = vf_choose("short", 1, words);
    if (k == 0) { for (int i = 0; i < n; i++) { q[i] = vf_u64("release"); busy[i] &= ~q[i]; } r->Release(absl::MakeConstSpan(q, n)); }
    else {
      bool free = true;
      for (int i = 0; i < n; i++) { q[i] = vf_u64("query"); free &= (busy[i] & q[i]) == 0; }
      vf_check(r->IsFree(absl::MakeConstSpan(q, n)) == free, "free exactly when no queried cycle is reserved");
      auto m = r->bit_array();
      bool same = true;
      for (int i = 0; i < words; i++) same &= m[i] == busy[i];
      vf_check(same, "the window shows the reserved cycles");
    }
  }
  delete r; delete st;
  vf_reach("wide");
}
// Recorded finding: the window of a depth that is not a multiple of 64.
VF_ENTRY(cr_known_partial_word) {
  State st;
  ComplexResource r(&st, "res", 70);
  uint64_t w[2] = {0, 1};
  r.Acquire(absl::MakeConstSpan(w, 2));
  vf_check(!r.IsFree(absl::MakeConstSpan(w, 2)), "cycle 64 of a 70 cycle window is busy once reserved");
}
// Recorded finding: a step of 64 cycles within a 128 cycle window.
VF_ENTRY(cr_known_long_step) {
  State st;
  ComplexResource r(&st, "res", 128);
  uint64_t w[2] = {0, 1};
  r.Acquire(absl::MakeConstSpan(w, 2));
  st.set(64);
  uint64_t q[1] = {1};
  vf_check(!r.IsFree(absl::MakeConstSpan(q, 1)), "a cycle reserved 64 cycles ahead is busy 64 cycles later");
}
