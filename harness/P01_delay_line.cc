// Delay line: every scheduled action fires exactly once, after exactly its latency.
// OPTS: timeout=30
// BOUND: initial depth in {1,2,4,8} (requested 0..8); up to 7 cycles before the first entry; 2 (quick) or 3 (thorough) entries with latencies 1..17; up to 9 cycles between entries; drained completely
// BOUND: record payloads are unconstrained 64-bit values
// BOUND: latencies around every power of two up to 256 (quick) or 1024 (thorough) with two other actions in flight, default and small initial sizes
// BOUND: bursts of 20 actions over the same few cycles
// BOUND: growth of a line of depth 16..64 (quick) or 16..256 (thorough) with 12 actions spread over it and the position in any quarter of the buffer, then growth again
// BOUND: 3 function actions, latencies 1..6 (quick) or 1..18 (thorough)
// ASSUME: latencies are positive (zero latency is handled by the caller, not the delay line)
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "vf.h"
using mpact::sim::generic::DelayLine;
namespace {
struct Log { uint64_t value[24]; int at[24]; int n = 0; };
struct Rec {
  Log* log; int* now; uint64_t value;
  Rec(Log* l, int* t, uint64_t v) : log(l), now(t), value(v) {}
  void Apply() { log->value[log->n] = value; log->at[log->n] = *now; log->n++; }
};
struct Model {
  uint64_t value[24]; int due[24]; bool done[24]; int n = 0; int pending = 0;
  void add(int t, uint64_t v) { value[n] = v; due[n] = t; done[n] = false; n++; pending++; }
};
struct World {
  DelayLine<Rec>* dl; Log log; Model m; int now = 0;
  explicit World(uint32_t size) { dl = new DelayLine<Rec>(size); }
  ~World() { delete dl; }
  void Advance() {
    now++;
    int before = log.n;
    int left = dl->Advance();
    // Expected: exactly the records due now, in the order they were added.
    int k = before;
    for (int i = 0; i < m.n; i++) {
      if (m.due[i] != now) continue;
      vf_check(k < log.n, "action due this cycle did not fire");
      vf_check(log.value[k] == m.value[i], "actions fire in the order they were added, with their own payload");
      k++;
      m.pending--;
    }
    vf_check(k == log.n, "action fired before or after its cycle");
    vf_check(left == m.pending, "Advance returns the number of pending actions");
    vf_check(dl->IsEmpty() == (m.pending == 0), "IsEmpty agrees with pending actions");
  }
  void Add(int latency, uint64_t v) {
    int n = dl->Add(latency, &log, &now, v);
    m.add(now + latency, v);
    vf_check(n == m.pending, "Add returns the number of pending actions");
    vf_check(!dl->IsEmpty(), "not empty after Add");
    vf_check(log.n == m.n - m.pending, "Add does not fire actions");
  }
};
void Scenario(World& w, int adds, int a1, int lmax, int amax) {
  int a = vf_choose("cycles0", 0, a1);
  for (int i = 0; i < a; i++) w.Advance();
  for (int k = 0; k < adds; k++) {
    w.Add((int)vf_choose("latency", 1, lmax), vf_u64("payload"));
    int c = (k + 1 < adds) ? (int)vf_choose("cycles", 0, amax) : 0;
    for (int i = 0; i < c; i++) w.Advance();
  }
  int guard = 0;
  while (w.m.pending > 0 && guard++ < 64) w.Advance();
  vf_check(w.log.n == w.m.n, "every action fired exactly once");
  w.Advance();
  vf_check(w.log.n == w.m.n, "no action fires twice");
  vf_observe("fired", w.log.n);
  vf_observe("last", w.log.value[w.log.n - 1]);
  vf_reach("drained");
}
}  // namespace
VF_ENTRY(delay_line_grow) {
  static const uint32_t kSizes[] = {0, 2, 3, 8};
  World w(kSizes[vf_choose("size", 0, 3)]);
  Scenario(w, 2, 7, VF_N(9, 17), VF_N(3, 9));
}
// Three actions in a line that has to grow while entries wrap around.
VF_ENTRY(delay_line_three) {
  World w(4);
  Scenario(w, 3, 3, VF_N(5, 9), VF_N(2, 4));
}
// Large latencies: around every power of two, with the line at any position and short actions in flight.
VF_ENTRY(delay_line_far) {
  World w(0);
  if (vf_choose("default", 0, 1)) { delete w.dl; w.dl = new DelayLine<Rec>(); }
  int a = vf_choose("cycles0", 0, 4) * 5;
  for (int i = 0; i < a; i++) w.Advance();
  w.Add((int)vf_choose("near", 1, 2) * 6, vf_u64("p1"));
  w.Advance();
  int big = (8 << vf_choose("log", 0, VF_N(5, 7))) + (int)vf_choose("off", 0, 2) - 1;
  w.Add(big, vf_u64("p2"));
  w.Advance();
  w.Add((int)vf_choose("mid", 1, 3) * 5, vf_u64("p3"));
  int guard = 0;
  while (w.m.pending > 0 && guard++ < 2000) w.Advance();
  vf_check(w.log.n == 3, "every action fired exactly once");
  for (int i = 0; i < 40; i++) w.Advance();
  vf_check(w.log.n == 3, "no action fires twice");
  vf_reach("far");
}
// Many actions due in the same few cycles.
VF_ENTRY(delay_line_burst) {
  World w(vf_choose("size", 1, 4));
  int a = vf_choose("cycles0", 0, 4);
  for (int i = 0; i < a; i++) w.Advance();
  int step = vf_choose("step", 0, 3), lat = vf_choose("latency", 1, 6);
  for (int k = 0; k < 20; k++) {
    w.Add(step == 0 ? lat : 1 + (lat + k * step) % 5, vf_u64("payload"));
    if (k % 5 == 4 && step != 0) w.Advance();
  }
  int guard = 0;
  while (w.m.pending > 0 && guard++ < 64) w.Advance();
  vf_check(w.log.n == 20, "every action fired exactly once");
  w.Advance();
  vf_check(w.log.n == 20, "no action fires twice");
  vf_reach("burst");
}
VF_ENTRY(function_delay_line) {
  mpact::sim::generic::FunctionDelayLine* dl = vf_choose("default", 0, 1) ? new mpact::sim::generic::FunctionDelayLine() : new mpact::sim::generic::FunctionDelayLine(2);
  Log log; int now = 0, due[3]; uint64_t val[3];
  int a = vf_choose("cycles0", 0, 2);
  for (int i = 0; i < a; i++) { now++; vf_check(dl->Advance() == 0, "empty"); }
  for (int k = 0; k < 3; k++) {
    int lat = (int)vf_choose("latency", 1, VF_N(6, 18));
    val[k] = vf_u64("payload"); due[k] = now + lat;
    uint64_t v = val[k]; Log* l = &log; int* t = &now;
    dl->Add(lat, [l, t, v, k]() { l->value[l->n] = v; l->at[l->n] = *t * 4 + k; l->n++; });
    if (vf_choose("gap", 0, 1)) { now++; dl->Advance(); }
  }
  int guard = 0;
  while (!dl->IsEmpty() && guard++ < 64) { now++; dl->Advance(); }
  vf_check(log.n == 3, "every function is called exactly once");
  for (int i = 0; i < 3; i++) {
    int k = log.at[i] % 4;
    vf_check(log.at[i] / 4 == due[k] && log.value[i] == val[k], "functions are called after exactly their latency, with what they captured");
    if (i) vf_check(log.at[i] > log.at[i - 1], "functions due together are called in the order added");
  }
  delete dl;
}
// The line grows, the position moves past several slots, actions wrap around, and it grows again.
VF_ENTRY(delay_line_regrow) {
  World w(vf_choose("size", 0, 1) ? 16 : 4);
  int depth = 16 << vf_choose("depth", 0, VF_N(2, 4));
  w.Add(depth + (int)vf_choose("extra", 0, 1) * (depth - 1), vf_u64("p1"));
  int a = depth * (int)vf_choose("quarter", 1, VF_N(6, 7)) / 4 + (int)vf_choose("odd", 0, 1);
  for (int i = 0; i < a; i++) w.Advance();
  // Fill the line: these wrap around the end of the buffer.
  int stride = depth / 8 + (depth == 16);
  for (int k = 1; k <= 12; k++) w.Add(k * stride, vf_u64("p2"));
  for (int i = 0; i < (int)vf_choose("later", 0, 1) * 3; i++) w.Advance();
  w.Add((4 << vf_choose("again", 0, 1)) * depth + 1, vf_u64("p3"));
  w.Add(2, vf_u64("p4"));
  int guard = 0;
  while (w.m.pending > 0 && guard++ < 4096) w.Advance();
  vf_check(w.log.n == 15, "every action fired exactly once");
  w.Advance();
  vf_check(w.log.n == 15, "no action fires twice");
  vf_reach("regrown");
}
