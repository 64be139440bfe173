// A window of memory with its model, and the operations of MemoryInterface on it.
#ifndef MEMHELP_H_
#define MEMHELP_H_
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_interface.h"
#include "vf.h"
namespace mh {
using mpact::sim::generic::ArchState;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::util::MemoryInterface;
struct State : ArchState { State() : ArchState("state") {} };
constexpr int kWindow = 48;
struct Window {
  MemoryInterface* mem; uint64_t base; int unit; DataBufferFactory* f;  // base in units; kWindow bytes from there
  uint8_t model[kWindow];
  Window(MemoryInterface* m, uint64_t b, int u, uint8_t fill) : mem(m), base(b), unit(u), f(new DataBufferFactory) {
    for (int i = 0; i < kWindow; i++) model[i] = fill;
  }
  uint64_t Addr(int byte) { return base + byte / unit; }
  DataBuffer* Data(int bytes) {
    DataBuffer* db = f->Allocate(bytes);
    for (int i = 0; i < bytes; i++) db->Set<uint8_t>(i, vf_u8("data"));
    return db;
  }
  void Store(int at, int bytes) {
    DataBuffer* db = Data(bytes);
    mem->Store(Addr(at), db);
    for (int i = 0; i < bytes; i++) model[at + i] = db->Get<uint8_t>(i);
    vf_check(db->ref_count() == 1, "a store keeps no reference");
    db->DecRef();
  }
  void Load(int at, int bytes) {
    DataBuffer* db = Data(bytes);
    db->set_latency(0);
    mem->Load(Addr(at), db, nullptr, nullptr);
    for (int i = 0; i < bytes; i++) vf_check(db->Get<uint8_t>(i) == model[at + i], "a load returns the bytes last stored");
    vf_check(db->ref_count() == 1, "a load keeps no reference");
    db->DecRef();
  }
  // Vector access of n elements of el bytes at the given byte positions (one position: consecutive elements).
  void Vector(bool store, int n, int el, const int* at, int positions) {
    DataBuffer* adb = f->Allocate<uint64_t>(positions);
    for (int i = 0; i < positions; i++) adb->Set<uint64_t>(i, Addr(at[i]));
    DataBuffer* mdb = f->Allocate<bool>(n);
    bool mask[8];
    for (int i = 0; i < n; i++) { mask[i] = vf_choose("mask", 0, 1); mdb->Set<bool>(i, mask[i]); }
    DataBuffer* db = Data(n * el);
    db->set_latency(0);
    uint8_t old[64];
    for (int i = 0; i < n * el; i++) old[i] = db->Get<uint8_t>(i);
    if (store) mem->Store(adb, mdb, el, db);
    else mem->Load(adb, mdb, el, db, nullptr, nullptr);
    for (int i = 0; i < n; i++) {
      int p = positions > 1 ? at[i] : at[0] + i * el;
      for (int j = 0; j < el; j++) {
        uint8_t got = db->Get<uint8_t>(i * el + j);
        if (store) {
          vf_check(got == old[i * el + j], "a store leaves its data as it is");
          if (mask[i]) model[p + j] = got;
        } else if (mask[i]) {
          vf_check(got == model[p + j], "a vector load returns the bytes last stored, element by element");
        } else {
          vf_check(got == old[i * el + j], "masked elements are left alone");
        }
      }
    }
    vf_check(db->ref_count() == 1 && adb->ref_count() == 1 && mdb->ref_count() == 1, "vector accesses keep no references");
    db->DecRef(); adb->DecRef(); mdb->DecRef();
  }
  void CheckAll() {
    Load(0, kWindow);
    Load(4, 4); Load(12, 8); Load(20, 16); Load(44, 4);
    if (unit == 1) { Load(15, 1); Load(15, 2); Load(17, 7); }
  }
};
struct Ctx : ReferenceCount { int* dead; explicit Ctx(int* d) : dead(d) {} ~Ctx() override { (*dead)++; } };
struct Ins : Instruction { int* dead; Ins(ArchState* s, int* d) : Instruction(4, s), dead(d) {} ~Ins() override { (*dead)++; } };
// A load with an instruction: executed once, with the context, after the latency of the buffer, when the data is there;
// instruction and context stay alive until then and are released afterwards.  Load(db, inst, ctx) performs the load.
template <typename L>
void LatencyCheck(State* st, DataBufferFactory* f, int bytes, L load, int maxlat) {
  int lat = vf_choose("latency", 0, maxlat);
  bool withctx = vf_choose("context", 0, 1);
  bool dropped = vf_choose("dropped", 0, 1);  // the caller's references are dropped right after the load
  int deadi = 0, deadc = 0, runs = 0, at = -1, now = 0;
  Ins* in = new Ins(st, &deadi);
  Ctx* ctx = withctx ? new Ctx(&deadc) : nullptr;
  ReferenceCount* seen = in;
  DataBuffer* db = f->Allocate(bytes);
  db->set_latency(lat);
  in->set_semantic_function([&](Instruction* i) { runs++; at = now; seen = i->context(); });
  load(db, in, ctx);
  vf_check(runs == (lat == 0), "without latency the instruction is executed at once, otherwise not yet");
  if (dropped) { in->DecRef(); if (ctx) ctx->DecRef(); }
  for (int i = 0; i < maxlat + 1; i++) { now++; st->AdvanceDelayLines(); }
  vf_check(runs == 1 && at == lat, "the instruction is executed exactly once, after the latency");
  vf_check(seen == ctx, "the instruction is executed with the context of the load");
  vf_check(deadi == dropped && deadc == (dropped && withctx), "instruction and context are released after use and not before");
  if (!dropped) vf_check(in->ref_count() == 1 && (!ctx || ctx->ref_count() == 1), "no references are kept");
  db->DecRef();
  vf_reach("latency");
}
}  // namespace mh
#endif
