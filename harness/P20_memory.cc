// Memories: a load returns, in every byte, what was last stored there.
// SRC: util/memory/flat_memory.cc util/memory/flat_demand_memory.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: a 48 byte window across a block boundary at any symbolic block address (demand memory) or at the start or end of a memory (flat memory) at any symbolic base; addressable units of 1, 2 and 4 bytes; histories of 2 (quick) or 3 (thorough) scalar stores of 1..8 bytes, consecutive and scattered vector stores of 1..3 elements of 1, 2, 4 and 8 bytes with any mask, all bytes symbolic; latencies 0..3
// ASSUME: accesses lie within the memory and are multiples of the addressable unit
#include "memhelp.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/flat_memory.h"
using namespace mh;
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::FlatMemory;
namespace {
void History(Window& w, int ops, int lo, int hi) {
  int u = w.unit;
  for (int k = 0; k < ops; k++) {
    switch (vf_choose("op", 0, 2)) {
      case 0: {
        int n = vf_choose("bytes", 1, 8);
        if (n % u) vf_prune();
        int at = vf_choose("at", lo, hi);
        if (at % u || at + n > kWindow) vf_prune();
        w.Store(at, n);
        break;
      }
      case 1: {
        int el = 1 << vf_choose("log", 0, 3);
        if (el % u) vf_prune();
        int n = vf_choose("elements", 1, 3);
        int at = (int)vf_choose("at", lo / 4, hi / 4) * 4 + (u == 1);
        if (at + n * el > kWindow) vf_prune();
        w.Vector(true, n, el, &at, 1);
        w.Vector(false, n, el, &at, 1);
        break;
      }
      default: {
        int el = 1 << vf_choose("log", 0, 3);
        if (el % u) vf_prune();
        static const int kAt[][3] = {{0, 16, 24}, {20, 4, 12}, {14 + 2, 14 + 2, 24}, {8, 16, 0}};
        const int* a = kAt[vf_choose("pattern", 0, 3)];
        int n = vf_choose("elements", 2, 3);
        w.Vector(true, n, el, a, n);
        w.Vector(false, n, el, a, n);
        break;
      }
    }
  }
  w.CheckAll();
  vf_reach("history");
}
FlatDemandMemory* Demand(uint64_t* base, int* unit, uint8_t* fill) {
  *unit = 1 << vf_choose("unit", 0, VF_N(1, 2));
  *fill = vf_u8("fill");
  // The window starts 16 bytes before a block boundary.
  uint64_t hi = vf_u64("region") >> 15 << 15;
  *base = hi | (16384 - 16 / *unit);
  switch (vf_choose("extent", 0, 2)) {
    case 0: return new FlatDemandMemory(~0ull, 0, *unit, *fill);
    case 1: return new FlatDemandMemory(48 / *unit, *base, *unit, *fill);
    default: return new FlatDemandMemory(~0ull, *base, *unit, *fill);
  }
}
}  // namespace
VF_ENTRY(mem_demand) {
  uint64_t base; int unit; uint8_t fill;
  FlatDemandMemory* m = Demand(&base, &unit, &fill);
  Window w(m, base, unit, fill);
  History(w, 1, 4, VF_N(24, 40));
  delete m;
}
VF_ENTRY(mem_demand_two) {
  uint64_t hi = vf_u64("region") >> 15 << 15;
  FlatDemandMemory* m = new FlatDemandMemory();
  Window w(m, hi | (16384 - 16), 1, 0);
  if (vf_choose("kind", 0, 1) == 0) {
    for (int k = 0; k < VF_N(2, 3); k++) w.Store(vf_choose("at", 11, 18), vf_choose("bytes", 1, VF_N(4, 8)));
  } else {
    w.Store(vf_choose("at", 11, 18), 4);
    int at = vf_choose("vat", 12, 17);
    w.Vector(true, 2, 4, &at, 1);
    int b[2] = {(int)vf_choose("vat0", 12, 15), (int)vf_choose("vat1", 13, 17)};
    w.Vector(true, 2, 2, b, 2);
  }
  w.CheckAll();
}
// Distant blocks do not share storage; clearing restores the initial contents.
VF_ENTRY(mem_demand_blocks) {
  long base = vf_heap_live();
  {
    uint8_t fill = vf_u8("fill");
    FlatDemandMemory m(~0ull, 0, 1, fill);
    DataBufferFactory f;
    DataBuffer* db = f.Allocate<uint64_t>(1);
    uint64_t a[3], v[3];
    int n = vf_choose("n", 2, 3);
    for (int i = 0; i < n; i++) {
      static const int kOff[] = {0, 8, 16368};
      a[i] = (vf_u64("block") >> 14 << 14) | kOff[vf_choose("offset", 0, VF_N(1, 2))];
      v[i] = vf_u64("value");
      db->Set<uint64_t>(0, v[i]);
      m.Store(a[i], db);
    }
    for (int i = 0; i < n; i++) {
      uint64_t want = v[i];
      for (int j = i + 1; j < n; j++) want = a[j] == a[i] ? v[j] : want;
      m.Load(a[i], db, nullptr, nullptr);
      vf_check(db->Get<uint64_t>(0) == want, "stores to other blocks do not interfere");
    }
    if (vf_choose("clear", 0, 1)) {
      m.Clear();
      m.Load(a[0], db, nullptr, nullptr);
      vf_check(db->Get<uint64_t>(0) == fill * 0x0101010101010101ull, "a cleared memory has its initial contents");
    }
    db->DecRef();
    f.Clear();
  }
  (void)base;
}
// An access longer than a block.
VF_ENTRY(mem_demand_long) {
  FlatDemandMemory m(~0ull, 0, 1, 7);
  DataBufferFactory f;
  uint64_t base = (vf_u64("region") >> 16 << 16) | vf_choose("off", 16384 - 2, 16384);
  int n = 16384 + (int)vf_choose("extra", 1, 4);
  DataBuffer* db = f.Allocate(n);
  static const int probe[] = {0, 1, 2, 3, 16381, 16382, 16383, 16384, 16385, 16386, 16387};
  for (int p : probe) if (p < n) db->Set<uint8_t>(p, vf_u8("data"));
  m.Store(base, db);
  DataBuffer* one = f.Allocate(1);
  for (int p : probe) {
    m.Load(base + p, one, nullptr, nullptr);
    vf_check(one->Get<uint8_t>(0) == (p < n ? db->Get<uint8_t>(p) : 7), "every byte of a long store arrives");
  }
  DataBuffer* back = f.Allocate(n);
  m.Load(base, back, nullptr, nullptr);
  for (int p : probe) if (p < n) vf_check(back->Get<uint8_t>(p) == db->Get<uint8_t>(p), "every byte of a long load arrives");
}
VF_ENTRY(mem_flat) {
  int unit = 1 << vf_choose("unit", 0, VF_N(1, 2));
  uint8_t fill = vf_u8("fill");
  uint64_t base = vf_u64("base");
  vf_assume(base < 0xffffffffffffff00ull);
  FlatMemory* m = new FlatMemory(kWindow / unit, base, unit, fill);
  vf_check(m->size() == kWindow && m->base() == base, "size and base");
  Window w(m, base, unit, fill);
  History(w, 1, 0, kWindow - 8);
  delete m;
}
VF_ENTRY(mem_flat_two) {
  uint64_t base = vf_u64("base");
  vf_assume(base < 0xffffffffffffff00ull);
  FlatMemory* m = new FlatMemory(kWindow, base, 1, 0);
  Window w(m, base, 1, 0);
  for (int k = 0; k < VF_N(2, 3); k++) w.Store(vf_choose("at", 11, 18), vf_choose("bytes", 1, VF_N(4, 8)));
  w.CheckAll();
}
VF_ENTRY(mem_latency) {
  State* st = new State;
  DataBufferFactory* f = new DataBufferFactory;
  MemoryInterface* m = vf_choose("flat", 0, 1) ? (MemoryInterface*)new FlatMemory(64, 0, 1, 5) : (MemoryInterface*)new FlatDemandMemory(64, 0, 1, 5);
  bool vec = vf_choose("vector", 0, 1);
  LatencyCheck(st, f, 8, [&](DataBuffer* db, Instruction* in, ReferenceCount* ctx) {
    if (!vec) return m->Load(16, db, in, ctx);
    DataBuffer* a = f->Allocate<uint64_t>(1); a->Set<uint64_t>(0, 8);
    DataBuffer* k = f->Allocate<bool>(2); k->Set<bool>(0, true); k->Set<bool>(1, true);
    m->Load(a, k, 4, db, in, ctx);
    a->DecRef(); k->DecRef();
  }, VF_N(2, 4));
}
VF_ENTRY(mem_demand_top) {
  // The last bytes of the address space.
  auto* m = new FlatDemandMemory();
  DataBufferFactory& f = *new DataBufferFactory;
  int n = 1 << vf_choose("log", 0, 3), back = vf_choose("back", 0, 8);
  if (back + n > 16) vf_prune();
  uint64_t at = ~0ULL - back - n + 1;
  DataBuffer* db = f.Allocate(n);
  uint8_t v[8];
  for (int i = 0; i < n; i++) { v[i] = vf_u8("data"); db->Set<uint8_t>(i, v[i]); }
  m->Store(at, db);
  for (int i = 0; i < n; i++) {
    DataBuffer* one = f.Allocate(1);
    one->Set<uint8_t>(0, vf_u8("old"));
    m->Load(at + i, one, nullptr, nullptr);
    vf_check(one->Get<uint8_t>(0) == v[i], "a load returns the bytes last stored");
    m->Store(at + i, one);
  }
  for (int i = 0; i < n; i++) db->Set<uint8_t>(i, 0);
  m->Load(at, db, nullptr, nullptr);
  for (int i = 0; i < n; i++) vf_check(db->Get<uint8_t>(i) == v[i], "a load returns the bytes last stored");
  vf_reach("top");
}
