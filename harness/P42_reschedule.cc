// Delay line: actions that schedule further actions while they take effect.
// SRC: generic/data_buffer.cc
// OPTS: timeout=30
// BOUND: requested depth 1..4, up to 3 cycles before the first action; chains of two actions with latencies 1..5 and 1..9 (quick) or 1..17 (thorough); four actions due in one cycle of which any one schedules two more, next to one that is due later; chains of three functions; a destination that submits up to three data buffers in turn
// ASSUME: latencies are positive
#include <functional>
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/delay_line.h"
#include "mpact/sim/generic/function_delay_line.h"
#include "vf.h"
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferDelayLine;
using mpact::sim::generic::DataBufferDestination;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DelayLine;
using mpact::sim::generic::FunctionDelayLine;
namespace {
struct Chain {
  DelayLine<Chain>* dl; int* fired; int* now; int* first; int next;
  Chain(DelayLine<Chain>* d, int* f, int* n, int* t, int nx) : dl(d), fired(f), now(n), first(t), next(nx) {}
  void Apply() {
    if (next) { int nx = next; *first = *now; dl->Add(nx, dl, fired, now, first, 0); }
    else *fired = *now;
  }
};
struct Log { int id[16]; int at[16]; uint64_t value[16]; int n = 0; };
struct Ctl { Log log; int now = 0; int parent, lat1, lat2; uint64_t payload; };
struct Peer {
  DelayLine<Peer>* dl; Ctl* ctl; int id; uint64_t value;
  Peer(DelayLine<Peer>* d, Ctl* c, int i, uint64_t v) : dl(d), ctl(c), id(i), value(v) {}
  void Apply() {
    Log& l = ctl->log;
    l.id[l.n] = id; l.at[l.n] = ctl->now; l.value[l.n] = value; l.n++;
    if (id == ctl->parent) {
      Ctl* c = ctl; DelayLine<Peer>* d = dl; uint64_t v = value;
      d->Add(c->lat1, d, c, 100, v + 1);
      d->Add(c->lat2, d, c, 101, v + 2);
    }
  }
};
}  // namespace
VF_ENTRY(P42_chain) {
  DelayLine<Chain>* dl = new DelayLine<Chain>((uint32_t)vf_choose("size", 1, 4));
  int fired = -1, first = -1, now = 0;
  int a = vf_choose("cycles0", 0, 3);
  int l1 = vf_choose("latency1", 1, 5);
  int l2 = vf_choose("latency2", 1, VF_N(9, 17));
  for (int i = 0; i < a; i++) { now++; dl->Advance(); }
  dl->Add(l1, dl, &fired, &now, &first, l2);
  int guard = 0;
  while (!dl->IsEmpty() && guard++ < 64) { now++; dl->Advance(); }
  vf_check(first == a + l1, "first action fires after its latency");
  vf_check(fired == a + l1 + l2, "action scheduled by an action fires after its own latency");
  vf_reach("chain");
  delete dl;
}
VF_ENTRY(P42_peers) {
  Ctl c;
  DelayLine<Peer>* dl = new DelayLine<Peer>((uint32_t)vf_choose("size", 1, 4));
  int a = vf_choose("cycles0", 0, 3);
  for (int i = 0; i < a; i++) { c.now++; dl->Advance(); }
  int due = (int)vf_choose("latency", 1, 4), later = (int)vf_choose("later", 1, 3);
  c.parent = (int)vf_choose("parent", 0, 3);
  c.lat1 = (int)vf_choose("latency1", 1, VF_N(9, 17));
  c.lat2 = vf_choose("same", 0, 1) ? c.lat1 : 3;
  uint64_t v[5];
  for (int k = 0; k < 4; k++) { v[k] = vf_u64("payload"); dl->Add(due, dl, &c, k, v[k]); }
  v[4] = vf_u64("payload"); dl->Add(due + later, dl, &c, 4, v[4]);
  int t0 = c.now, left = 5;
  for (int i = 0; i < due + 20; i++) { c.now++; left = dl->Advance(); }
  vf_check(left == 0 && dl->IsEmpty(), "the line is empty once all actions are done");
  Log& l = c.log;
  vf_check(l.n == 7, "every action takes effect exactly once");
  int n1 = 0, n2 = 0, n4 = 0, seen = 0;
  for (int i = 0; i < l.n; i++) {
    if (i) vf_check(l.at[i] >= l.at[i - 1], "time runs forward");
    if (l.id[i] < 4) {
      vf_check(l.id[i] == seen && l.at[i] == t0 + due && l.value[i] == v[seen], "actions due in the same cycle take effect in their order");
      seen++;
    } else if (l.id[i] == 4) { n4++; vf_check(l.at[i] == t0 + due + later && l.value[i] == v[4], "a later action takes effect when due"); }
    else if (l.id[i] == 100) { n1++; vf_check(n2 == 0 || c.lat1 != c.lat2, "actions due together keep their order"); vf_check(l.at[i] == t0 + due + c.lat1 && l.value[i] == v[c.parent] + 1, "a scheduled action takes effect after its latency"); }
    else { n2++; vf_check(l.at[i] == t0 + due + c.lat2 && l.value[i] == v[c.parent] + 2, "a scheduled action takes effect after its latency"); }
  }
  vf_check(n1 == 1 && n2 == 1 && n4 == 1 && seen == 4, "each action once");
  vf_reach("peers");
  delete dl;
}
VF_ENTRY(P42_functions) {
  FunctionDelayLine* dl = new FunctionDelayLine(vf_choose("default", 0, 1) ? 16 : 2);
  int now = 0, at[3] = {-1, -1, -1}, calls = 0; uint64_t got[3] = {0, 0, 0};
  uint64_t p = vf_u64("payload");
  int a = (int)vf_choose("cycles0", 0, 1) * 7, l0 = (int)vf_choose("latency0", 1, 3), l1 = (int)vf_choose("latency1", 1, 5), l2 = (int)vf_choose("latency2", 1, 3) * 7;
  for (int i = 0; i < a; i++) { now++; dl->Advance(); }
  dl->Add(l0, [&, p]() {
    at[0] = now; got[0] = p; calls++;
    dl->Add(l1, [&, p]() {
      dl->Add(l2, [&, p]() { at[2] = now; got[2] = p + 2; calls++; });
      at[1] = now; got[1] = p + 1; calls++;
    });
  });
  for (int i = 0; i < l0 + l1 + l2; i++) { now++; dl->Advance(); }
  vf_check(dl->IsEmpty() && calls == 3, "every function is called exactly once");
  vf_check(at[0] == a + l0 && at[1] == a + l0 + l1 && at[2] == a + l0 + l1 + l2, "functions are called after their own latency");
  vf_check(got[0] == p && got[1] == p + 1 && got[2] == p + 2, "with what they captured");
  vf_reach("functions");
  delete dl;
}
namespace {
// Forwards what it gets, with new buffers, as often as asked to.
struct Forward : DataBufferDestination {
  DataBufferFactory* f; DataBufferDelayLine* dl; int* now; int left; int lat; int n = 0; int at[8]; uint64_t val[8];
  DataBuffer* held = nullptr;
  void SetDataBuffer(DataBuffer* db) override {
    at[n] = *now; val[n] = db->Get<uint64_t>(0); n++;
    db->IncRef();
    if (held) held->DecRef();
    held = db;
    if (left-- > 0) {
      DataBuffer* next = f->Allocate<uint64_t>(1);
      next->Set<uint64_t>(0, db->Get<uint64_t>(0) + 1);
      next->set_destination(this); next->set_delay_line(dl); next->set_latency(lat);
      next->Submit();
    }
  }
};
}  // namespace
VF_ENTRY(P42_buffers) {
  DataBufferFactory* f = new DataBufferFactory();
  DataBufferDelayLine* dl = new DataBufferDelayLine((uint32_t)vf_choose("size", 1, 4));
  int now = 0;
  Forward d; d.f = f; d.dl = dl; d.now = &now; d.left = (int)vf_choose("forwards", 0, 3); d.lat = (int)vf_choose("latency", 0, VF_N(6, 12));
  int total = d.left, l0 = (int)vf_choose("latency0", 1, 3), a = (int)vf_choose("cycles0", 0, 3);
  uint64_t p = vf_u64("payload");
  for (int i = 0; i < a; i++) { now++; dl->Advance(); }
  DataBuffer* db = f->Allocate<uint64_t>(1);
  db->Set<uint64_t>(0, p); db->set_destination(&d); db->set_delay_line(dl);
  db->Submit(l0);
  for (int i = 0; i < l0 + total * d.lat; i++) { now++; dl->Advance(); }
  vf_check(dl->IsEmpty() && d.n == total + 1, "every buffer is delivered exactly once");
  for (int i = 0; i <= total; i++) vf_check(d.at[i] == a + l0 + i * d.lat && d.val[i] == p + (uint64_t)i, "a submitted buffer is delivered after its latency, with its contents");
  vf_check(d.held->ref_count() == 1, "nobody else holds the last buffer");
  vf_reach("buffers");
  d.held->DecRef();
  delete dl; delete f;
}
