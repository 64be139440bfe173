// Atomic memory: read-modify-write returns the old and stores the new value; store conditional succeeds exactly without intervening store.
// SRC: util/memory/atomic_memory.cc util/memory/atomic_tagged_memory.cc util/memory/tagged_flat_demand_memory.cc util/memory/flat_demand_memory.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: all ten read-modify-write operations on operands of 1, 2, 4 and 8 bytes with any contents at any position of a window across a block boundary at any symbolic block address; histories of load linked, 1 (quick) or 2 (thorough) intervening operations of any kind and store conditional, around two adjacent 8 byte granules; both the plain and the tagged implementation
// ASSUME: byte addressable memory; accesses lie within the memory; linked accesses are naturally aligned
#include "memhelp.h"
#include "mpact/sim/util/memory/atomic_memory.h"
#include "mpact/sim/util/memory/atomic_tagged_memory.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mh;
using namespace mpact::sim::util;
using Op = AtomicMemoryOpInterface::Operation;
namespace {
uint64_t Base() { return (vf_u64("region") >> 18 << 18) | (16384 * 8 - 16); }
struct Both {
  MemoryInterface* m; AtomicMemoryOpInterface* a; TaggedMemoryInterface* t = nullptr;
  explicit Both(bool tagged) {
    if (tagged) { auto* x = new AtomicTaggedMemory(new TaggedFlatDemandMemory(8)); m = x; a = x; t = x; }
    else { auto* x = new AtomicMemory(new FlatDemandMemory()); m = x; a = x; }
  }
};
template <typename U, typename S> uint64_t Apply(Op op, uint64_t o, uint64_t v) {
  U a = (U)o, b = (U)v;
  switch (op) {
    case Op::kAtomicSwap: return b;
    case Op::kAtomicAdd: return (U)(a + b);
    case Op::kAtomicSub: return (U)(a - b);
    case Op::kAtomicAnd: return (U)(a & b);
    case Op::kAtomicOr: return (U)(a | b);
    case Op::kAtomicXor: return (U)(a ^ b);
    case Op::kAtomicMax: return (S)a > (S)b ? a : b;
    case Op::kAtomicMaxu: return a > b ? a : b;
    case Op::kAtomicMin: return (S)a < (S)b ? a : b;
    case Op::kAtomicMinu: return a < b ? a : b;
    default: return 0;
  }
}
uint64_t Want(Op op, int n, uint64_t o, uint64_t v) {
  switch (n) {
    case 1: return Apply<uint8_t, int8_t>(op, o, v);
    case 2: return Apply<uint16_t, int16_t>(op, o, v);
    case 4: return Apply<uint32_t, int32_t>(op, o, v);
    default: return Apply<uint64_t, int64_t>(op, o, v);
  }
}
uint64_t Read(const uint8_t* p, int n) { uint64_t v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
}  // namespace
VF_ENTRY(atomic_rmw) {
  Both b(vf_choose("tagged", 0, 1));
  Window w(b.m, Base(), 1, 0);
  w.Store(8, 24);
  int n = 1 << vf_choose("log", 0, 3);
  int at = 12 + vf_choose("at", 0, 4);
  Op op = (Op)vf_choose("op", (int)Op::kAtomicSwap, (int)Op::kAtomicMinu);
  DataBuffer* db = w.Data(n);
  uint8_t arg[8];
  for (int i = 0; i < n; i++) arg[i] = db->Get<uint8_t>(i);
  uint64_t old = Read(w.model + at, n), v = Read(arg, n), want = Want(op, n, old, v);
  absl::Status s = b.a->PerformMemoryOp(w.Addr(at), op, db, nullptr, nullptr);
  vf_check(s.ok(), "the operation succeeds");
  for (int i = 0; i < n; i++) {
    vf_check(db->Get<uint8_t>(i) == w.model[at + i], "the old value is returned");
    w.model[at + i] = (uint8_t)(want >> (8 * i));
  }
  vf_check(db->ref_count() == 1, "no reference is kept");
  w.Load(8, 24);
  // once more, to see that nothing of the first operation is left over
  DataBuffer* db2 = w.Data(n);
  for (int i = 0; i < n; i++) arg[i] = db2->Get<uint8_t>(i);
  b.a->PerformMemoryOp(w.Addr(at), Op::kAtomicSwap, db2, nullptr, nullptr);
  for (int i = 0; i < n; i++) { vf_check(db2->Get<uint8_t>(i) == w.model[at + i], "the old value is returned"); w.model[at + i] = arg[i]; }
  w.Load(8, 24);
  vf_reach("rmw");
}
VF_ENTRY(atomic_size) {
  Both b(vf_choose("tagged", 0, 1));
  Window w(b.m, Base(), 1, 0);
  w.Store(8, 24);
  int n = vf_choose("bytes", 3, 9);
  if (n == 4 || n == 8) vf_prune();
  DataBuffer* db = w.Data(n);
  Op op = (Op)vf_choose("op", (int)Op::kAtomicSwap, (int)Op::kAtomicMinu);
  vf_check(!b.a->PerformMemoryOp(w.Addr(12), op, db, nullptr, nullptr).ok(), "an operand of any other size is refused");
  w.Load(8, 24);
}
namespace {
// Granules of the window: byte 0 of the window is 8 byte aligned.
void LinkHistory(int ops) {
  bool tagged = vf_choose("tagged", 0, 1);
  Both b(tagged);
  Window w(b.m, Base(), 1, 0);
  bool linked[kWindow / 8] = {};
  int n = 4 << vf_choose("log", 0, 1), at = 8 * (int)vf_choose("granule", 1, 2);
  if (n == 4) at += 4 * (int)vf_choose("half", 0, 1);
  w.Store(8, 16);
  auto clear = [&](int p, int len) { for (int g = p / 8; g <= (p + len - 1) / 8; g++) linked[g] = false; };
  auto link = [&](int p, int len) {
    DataBuffer* db = w.Data(len);
    vf_check(b.a->PerformMemoryOp(w.Addr(p), Op::kLoadLinked, db, nullptr, nullptr).ok(), "load linked succeeds");
    for (int i = 0; i < len; i++) vf_check(db->Get<uint8_t>(i) == w.model[p + i], "load linked returns the bytes last stored");
    linked[p / 8] = true;
    vf_check(db->ref_count() == 1, "no reference is kept");
    db->DecRef();
  };
  auto cond = [&](int p, int len) {
    DataBuffer* db = w.Data(len);
    uint8_t v[8];
    for (int i = 0; i < len; i++) v[i] = db->Get<uint8_t>(i);
    vf_check(b.a->PerformMemoryOp(w.Addr(p), Op::kStoreConditional, db, nullptr, nullptr).ok(), "store conditional completes");
    uint8_t out[8];
    for (int i = 0; i < len; i++) out[i] = db->Get<uint8_t>(i);
    uint64_t r = Read(out, len);
    bool want = linked[p / 8];
    vf_check(r == (want ? 0 : 1), "store conditional succeeds exactly if the granule is linked and was not written since");
    if (want) for (int i = 0; i < len; i++) w.model[p + i] = v[i];
    linked[p / 8] = false;
    vf_check(db->ref_count() == 1, "no reference is kept");
    db->DecRef();
  };
  if (vf_choose("linked", 0, 3)) link(at, n);
  for (int k = 0; k < ops; k++) {
    static const int kPos[] = {3, 8, 11, 16, 5, 15, 24, 12, 20};
    int p = kPos[vf_choose("pos", 0, VF_N(5, 8))];
    switch (vf_choose("op", 0, tagged ? 7 : 6)) {
      case 0: { int len = vf_choose("bytes", 1, VF_N(9, 12)); w.Store(p, len); clear(p, len); break; }
      case 1: {
        int len = 1 << vf_choose("log2", 0, 3);
        DataBuffer* db = w.Data(len);
        uint8_t v[8];
        for (int i = 0; i < len; i++) v[i] = db->Get<uint8_t>(i);
        b.a->PerformMemoryOp(w.Addr(p), Op::kAtomicSwap, db, nullptr, nullptr);
        for (int i = 0; i < len; i++) w.model[p + i] = v[i];
        clear(p, len);
        break;
      }
      case 2: w.Load(p, 4); break;
      case 3: case 4: {
        // A vector store with a concrete mask.
        bool unit = vf_choose("unit", 0, 1);
        int el = 1 << vf_choose("log2", 1, 3);
        DataBuffer* a = w.f->Allocate<uint64_t>(unit ? 1 : 2);
        int pos[2] = {p, unit ? p + el : (int)vf_choose("second", 1, 3) * 8};
        for (int i = 0; i < (unit ? 1 : 2); i++) a->Set<uint64_t>(i, w.Addr(pos[i]));
        int mask = vf_choose("mask", 1, 3);
        DataBuffer* m = w.f->Allocate<bool>(2);
        DataBuffer* db = w.Data(2 * el);
        for (int i = 0; i < 2; i++) m->Set<bool>(i, mask >> i & 1);
        if (pos[1] + el > kWindow) vf_prune();
        b.m->Store(a, m, el, db);
        for (int i = 0; i < 2; i++) {
          if (!(mask >> i & 1)) continue;
          for (int j = 0; j < el; j++) w.model[pos[i] + j] = db->Get<uint8_t>(i * el + j);
          clear(pos[i], el);
        }
        break;
      }
      case 5: p &= ~7; link(p, 8); break;
      case 6: p &= ~3; cond(p, 4); break;
      default: {
        p &= ~7;
        DataBuffer* db = w.Data(8);
        DataBuffer* t = w.f->Allocate(1);
        uint8_t tag = vf_u8("tag");
        t->Set<uint8_t>(0, tag);
        b.t->Store(w.Addr(p), db, t);
        for (int i = 0; i < 8; i++) w.model[p + i] = db->Get<uint8_t>(i);
        clear(p, 8);
        t->Set<uint8_t>(0, vf_u8("old"));
        b.t->Load(w.Addr(p), db, t, nullptr, nullptr);
        vf_check(t->Get<uint8_t>(0) == tag, "a tagged store stores its tag");
        break;
      }
    }
  }
  cond(at, n);
  w.CheckAll();
  cond(at, n);
  w.CheckAll();
  vf_reach("link");
}
}  // namespace
VF_ENTRY(atomic_link) { LinkHistory(1); }
VF_ENTRY_T(atomic_link_two) { LinkHistory(2); }
VF_ENTRY(atomic_execute) {
  // The instruction of an atomic operation is executed once, at once, with its context.
  State* st = new State;
  Both b(vf_choose("tagged", 0, 1));
  DataBufferFactory* f = new DataBufferFactory;
  Op op = (Op)vf_choose("op", 0, (int)Op::kAtomicMinu);
  int dead = 0, runs = 0;
  Ins* in = new Ins(st, &dead);
  Ctx* ctx = vf_choose("context", 0, 1) ? new Ctx(&dead) : nullptr;
  ReferenceCount* seen = in;
  in->set_semantic_function([&](Instruction* i) { runs++; seen = i->context(); });
  DataBuffer* db = f->Allocate(8);
  db->set_latency(vf_choose("latency", 0, 2));
  for (int i = 0; i < 8; i++) db->Set<uint8_t>(i, 0);
  vf_check(b.a->PerformMemoryOp(64, op, db, in, ctx).ok(), "the operation succeeds");
  for (int i = 0; i < 4; i++) st->AdvanceDelayLines();
  vf_check(runs == 1 && seen == ctx, "the instruction is executed once with its context");
  vf_check(dead == 0 && in->ref_count() == 1 && (!ctx || ctx->ref_count() == 1), "no references are kept or lost");
}
VF_ENTRY(atomic_passthrough) {
  State* st = new State;
  Both b(vf_choose("tagged", 0, 1));
  DataBufferFactory* f = new DataBufferFactory;
  int kind = vf_choose("kind", 0, b.t ? 2 : 1);
  LatencyCheck(st, f, 8, [&](DataBuffer* db, Instruction* in, ReferenceCount* ctx) {
    switch (kind) {
      case 0: return b.m->Load(16, db, in, ctx);
      case 2: { DataBuffer* t = f->Allocate(1); b.t->Load(16, db, t, in, ctx); t->DecRef(); return; }
      default: {
        DataBuffer* a = f->Allocate<uint64_t>(1); a->Set<uint64_t>(0, 8);
        DataBuffer* k = f->Allocate<bool>(2); k->Set<bool>(0, true); k->Set<bool>(1, true);
        b.m->Load(a, k, 4, db, in, ctx);
        a->DecRef(); k->DecRef();
      }
    }
  }, 2);
}
VF_ENTRY(atomic_two_links) {
  // Links are independent of each other, and each serves for one store conditional.
  bool tagged = vf_choose("tagged", 0, 1);
  Both b(tagged);
  Window w(b.m, Base(), 1, 0);
  bool linked[2] = {false, false};
  for (int k = 0; k < VF_N(4, 5); k++) {
    int g = vf_choose("granule", 0, 1), n = 1 << vf_choose("log", 0, VF_N(1, 3));
    if (VF_N(1, 0) && n == 2) n = k & 1 ? 2 : 8;
    int p = 8 + 8 * g;
    DataBuffer* db = w.Data(n);
    uint8_t v[8];
    for (int i = 0; i < n; i++) v[i] = db->Get<uint8_t>(i);
    if (k < 2 && vf_choose("link", 0, 1)) {
      vf_check(b.a->PerformMemoryOp(w.Addr(p), Op::kLoadLinked, db, nullptr, nullptr).ok(), "load linked succeeds");
      for (int i = 0; i < n; i++) vf_check(db->Get<uint8_t>(i) == w.model[p + i], "load linked returns the bytes last stored");
      linked[g] = true;
    } else {
      vf_check(b.a->PerformMemoryOp(w.Addr(p), Op::kStoreConditional, db, nullptr, nullptr).ok(), "store conditional completes");
      uint8_t out[8];
      for (int i = 0; i < n; i++) out[i] = db->Get<uint8_t>(i);
      vf_check(Read(out, n) == (linked[g] ? 0 : 1), "store conditional succeeds exactly if the granule is linked and was not written since");
      if (linked[g]) for (int i = 0; i < n; i++) w.model[p + i] = v[i];
      linked[g] = false;
    }
    db->DecRef();
  }
  w.CheckAll();
  vf_reach("links");
}
