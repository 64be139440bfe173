// Tagged memory: data as in any memory; a tag survives exactly until its granule is written without tags.
// SRC: util/memory/tagged_flat_demand_memory.cc util/memory/tagged_to_untagged_memory_transactor.cc util/memory/flat_demand_memory.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: a 48 byte window across a block boundary at any symbolic block address; tag granules of 8 and 16 (thorough: also 4) bytes; histories of 2 (quick) or 3 (thorough) tagged stores, untagged stores of 1..9 bytes, consecutive and scattered vector stores of 1..3 elements with any mask; all data and tag bytes symbolic; latencies 0..2
// ASSUME: byte addressable memory; accesses lie within the memory
#include "memhelp.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_to_untagged_memory_transactor.h"
using namespace mh;
using namespace mpact::sim::util;
namespace {
struct Tagged {
  Window w; TaggedMemoryInterface* m; int g; uint8_t tag[kWindow];
  Tagged(TaggedMemoryInterface* mem, uint64_t base, int granule, uint8_t fill) : w(mem, base, 1, fill), m(mem), g(granule) {
    for (int i = 0; i < kWindow; i++) tag[i] = 0;
  }
  void Clear(int at, int n) { for (int i = at / g; i <= (at + n - 1) / g; i++) tag[i] = 0; }
  void TaggedStore() { int n = vf_choose("granules", 1, 2); TaggedStore(n, vf_choose("granule", 0, kWindow / g - 2)); }
  void TaggedStore(int n, int at) {
    DataBuffer* db = w.Data(n * g);
    DataBuffer* t = w.f->Allocate(n);
    for (int i = 0; i < n; i++) { tag[at + i] = vf_u8("tag"); t->Set<uint8_t>(i, tag[at + i]); }
    m->Store(w.base + at * g, db, t);
    for (int i = 0; i < n * g; i++) w.model[at * g + i] = db->Get<uint8_t>(i);
    vf_check(db->ref_count() == 1 && t->ref_count() == 1, "a store keeps no reference");
    db->DecRef(); t->DecRef();
  }
  void Vector(int n, int el, const int* at, int positions) {
    // Window::Vector chooses the mask; find out by comparing which elements it stored.
    DataBuffer* adb = w.f->Allocate<uint64_t>(positions);
    for (int i = 0; i < positions; i++) adb->Set<uint64_t>(i, w.Addr(at[i]));
    DataBuffer* mdb = w.f->Allocate<bool>(n);
    DataBuffer* db = w.Data(n * el);
    bool mask[4];
    for (int i = 0; i < n; i++) { mask[i] = vf_choose("mask", 0, 1); mdb->Set<bool>(i, mask[i]); }
    m->Store(adb, mdb, el, db);
    for (int i = 0; i < n; i++) {
      if (!mask[i]) continue;
      int p = positions > 1 ? at[i] : at[0] + i * el;
      for (int j = 0; j < el; j++) w.model[p + j] = db->Get<uint8_t>(i * el + j);
      Clear(p, el);
    }
    vf_check(db->ref_count() == 1 && adb->ref_count() == 1 && mdb->ref_count() == 1, "vector accesses keep no references");
    db->DecRef(); adb->DecRef(); mdb->DecRef();
  }
  void CheckAll() {
    w.CheckAll();
    int n = kWindow / g;
    DataBuffer* db = w.f->Allocate(kWindow);
    DataBuffer* t = w.f->Allocate(n);
    bool tagsonly = vf_choose("tagsonly", 0, 1);
    db->set_latency(0); t->set_latency(0);
    for (int i = 0; i < n; i++) t->Set<uint8_t>(i, vf_u8("old"));
    m->Load(w.base, tagsonly ? nullptr : db, t, nullptr, nullptr);
    for (int i = 0; i < n; i++) vf_check(t->Get<uint8_t>(i) == tag[i], "a granule has the tag last stored unless it was written without tags since");
    if (!tagsonly) for (int i = 0; i < kWindow; i++) vf_check(db->Get<uint8_t>(i) == w.model[i], "a tagged load returns the bytes last stored");
    db->DecRef(); t->DecRef();
  }
  void Op(int kinds) {
    switch (vf_choose("op", 0, kinds)) {
      case 0: TaggedStore(); break;
      case 1: {
        int at = vf_choose("at", 6, 18), n = vf_choose("bytes", 1, VF_N(9, 17));
        w.Store(at, n);
        Clear(at, n);
        break;
      }
      case 2: {
        int at = vf_choose("at", 6, 17), el = 1 << vf_choose("log", 0, 3);
        Vector(vf_choose("elements", 1, 3), el, &at, 1);
        break;
      }
      default: {
        static const int kAt[][3] = {{0, 16, 24}, {20, 5, 13}, {16, 16, 24}};
        int n = vf_choose("elements", 2, 3), log = vf_choose("log", 0, 3);
        Vector(n, 1 << log, kAt[vf_choose("pattern", 0, 2)], n);
      }
    }
  }
};
uint64_t Base() { return (vf_u64("region") >> 18 << 18) | (16384 * 8 - 16); }
}  // namespace
VF_ENTRY(tag_history) {
  int g = 1 << vf_choose("shift", VF_N(3, 2), 4);
  uint8_t fill = vf_u8("fill");
  uint64_t base = Base();
  bool limited = g == 8;
  TaggedFlatDemandMemory* m = limited ? new TaggedFlatDemandMemory(kWindow, base, 1, fill, g) : new TaggedFlatDemandMemory(~0ull, 0, 1, fill, g);
  Tagged t(m, base, g, fill);
  t.TaggedStore(kWindow / g, 0);
  t.Op(3);
  t.CheckAll();
  delete m;
  vf_reach("history");
}
VF_ENTRY_T(tag_history_three) {
  TaggedFlatDemandMemory* m = new TaggedFlatDemandMemory(8);
  Tagged t(m, Base(), 8, 0);
  t.TaggedStore();
  t.Op(3);
  t.Op(1);
  t.CheckAll();
}
// A memory that does not begin or end at a granule boundary can be written up to its ends.
VF_ENTRY(tag_edges) {
  uint64_t base = Base();
  int lo = vf_choose("lo", 0, 15), size = vf_choose("size", 17, 32);
  TaggedFlatDemandMemory* m = new TaggedFlatDemandMemory(size, base + lo, 1, 0, 8);
  Window w(m, base, 1, 0);
  w.Store(lo, vf_choose("first", 1, 2));
  int n = vf_choose("last", 1, 2);
  w.Store(lo + size - n, n);
  w.Load(lo, size);
  vf_reach("edges");
}
// A tagged access that is not aligned or has the wrong number of tags is refused and changes nothing.
VF_ENTRY(tag_refused) {
  int g = 8;
  TaggedFlatDemandMemory* m = new TaggedFlatDemandMemory(g);
  Tagged t(m, Base(), g, 0);
  int at = vf_choose("at", 0, 9), bytes = vf_choose("bytes", 1, 17), n = vf_choose("tags", 1, 3);
  DataBuffer* db = t.w.Data(bytes);
  DataBuffer* tags = t.w.f->Allocate(n);
  for (int i = 0; i < n; i++) tags->Set<uint8_t>(i, vf_u8("tag"));
  bool good = at % g == 0 && bytes == n * g;
  if (good) vf_prune();
  m->Store(t.w.base + at, db, tags);
  t.CheckAll();
  uint8_t old = vf_u8("old");
  for (int i = 0; i < bytes; i++) db->Set<uint8_t>(i, old);
  for (int i = 0; i < n; i++) tags->Set<uint8_t>(i, old);
  m->Load(t.w.base + at, db, tags, nullptr, nullptr);
  for (int i = 0; i < bytes; i++) vf_check(db->Get<uint8_t>(i) == old, "a refused load delivers nothing");
  for (int i = 0; i < n; i++) vf_check(tags->Get<uint8_t>(i) == old, "a refused load delivers nothing");
  vf_reach("refused");
}
VF_ENTRY(tag_latency) {
  State* st = new State;
  DataBufferFactory* f = new DataBufferFactory;
  FlatDemandMemory* plain = new FlatDemandMemory();
  TaggedMemoryInterface* m = vf_choose("transactor", 0, 1) ? (TaggedMemoryInterface*)new TaggedToUntaggedMemoryTransactor(plain) : (TaggedMemoryInterface*)new TaggedFlatDemandMemory(8);
  int kind = vf_choose("kind", 0, 3);
  LatencyCheck(st, f, 8, [&](DataBuffer* db, Instruction* in, ReferenceCount* ctx) {
    switch (kind) {
      case 0: return m->Load(16, db, in, ctx);
      case 1: { DataBuffer* t = f->Allocate(1); m->Load(16, db, t, in, ctx); t->DecRef(); return; }
      case 2: return m->Load(16, nullptr, db, in, ctx);  // tags only
      default: {
        DataBuffer* a = f->Allocate<uint64_t>(1); a->Set<uint64_t>(0, 8);
        DataBuffer* k = f->Allocate<bool>(2); k->Set<bool>(0, true); k->Set<bool>(1, true);
        m->Load(a, k, 4, db, in, ctx);
        a->DecRef(); k->DecRef();
      }
    }
  }, VF_N(2, 4));
}
// Through the transactor to untagged memory: data as usual, tags always read as zero.
VF_ENTRY(tag_transactor) {
  FlatDemandMemory* plain = new FlatDemandMemory();
  TaggedToUntaggedMemoryTransactor* m = new TaggedToUntaggedMemoryTransactor(plain);
  Tagged t(m, (vf_u64("region") >> 15 << 15) | (16384 - 16), 8, 0);
  t.TaggedStore(3, 1);
  for (int i = 0; i < kWindow; i++) t.tag[i] = 0;
  t.Op(3);
  for (int i = 0; i < kWindow; i++) t.tag[i] = 0;
  t.CheckAll();
  vf_reach("transactor");
}
