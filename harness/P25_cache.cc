// Cache model: transparent to the requests, and its counters are those of a set associative cache with LRU replacement.
// SRC: util/memory/cache.cc util/memory/flat_demand_memory.cc util/memory/tagged_flat_demand_memory.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: caches of 1..8 lines of 16 bytes, direct mapped, 2-way, 4-way and fully associative, with and without write allocation and (non)cacheable ranges; up to 4 (thorough: 5) accesses of 1..32 bytes over 4 conflicting blocks at any symbolic base address; vector accesses of up to 4 elements; loads with latency 0..2 with and without instruction and context
// ASSUME: the cycle counter increases from access to access and accesses do not wrap around the end of the address space
#include <string>
#include "memhelp.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
using namespace mpact::sim::util;
using mpact::sim::generic::SimpleCounter;
namespace {
const char* const kCounter[] = {"read_hit", "read_miss", "write_hit", "write_miss", "dirty_line_writeback", "read_around", "write_around", "read_non_cacheable", "write_non_cacheable"};
enum { RH, RM, WH, WM, DIRTY, RA, WA, RN, WN };
struct Geometry { const char* config; int lines, ways; bool allocate; };
const Geometry kGeometry[] = {
    {"64,16,1,true", 4, 1, true}, {"64,16,2,true", 4, 2, true}, {"64,16,2,false", 4, 2, false}, {"32,16,0,true", 2, 2, true},
    {"64,16,1,false", 4, 1, false}, {"128,16,4,true", 8, 4, true}, {"16,16,1,true", 1, 1, true}, {"128,16,2,true", 8, 2, true},
};
struct Line { bool valid = false, dirty = false; uint64_t block = 0; int used = 0; };
struct Model {
  Geometry g; Line line[8]; uint64_t count[9] = {}; int now = 0;
  uint64_t base = 0;
  bool ranges = false, cacheable = false; uint64_t lo = 0, hi = 0;
  // rel: position relative to the (256 byte aligned) base.
  void Access(uint64_t rel, int size, bool read) {
    for (uint64_t b = rel >> 4; b <= (rel + size - 1) >> 4; b++) {
      if (ranges) {
        bool in = rel <= hi && rel + size - 1 >= lo;
        if (in != cacheable) { count[read ? RN : WN]++; continue; }
      }
      Line* set = line + (b % (g.lines / g.ways)) * g.ways;
      Line* hit = nullptr;
      for (int i = 0; i < g.ways; i++) if (set[i].valid && set[i].block == b) hit = &set[i];
      if (hit) { count[read ? RH : WH]++; hit->used = now; hit->dirty |= !read; continue; }
      count[read ? RM : WM]++;
      if (!read && !g.allocate) { count[WA]++; continue; }
      Line* v = nullptr;
      for (int i = 0; i < g.ways; i++) if (!v && !set[i].valid) v = &set[i];
      for (int i = 0; i < g.ways && (!v || v->valid); i++) if (!v || set[i].used < v->used) v = &set[i];
      if (v->valid && v->dirty) count[DIRTY]++;
      *v = {true, !read, b, now};
    }
  }
  void Check(Cache& c) {
    for (int i = 0; i < 9; i++) {
      auto* x = static_cast<SimpleCounter<uint64_t>*>(c.GetCounter(kCounter[i]));
      vf_check(x != nullptr && x->GetValue() == count[i], kCounter[i]);
    }
  }
};
const int kBlock[] = {0, 4, 8, 1, 12};
}  // namespace
VF_ENTRY(cache_counters) {
  Model m;
  m.g = kGeometry[vf_choose("geometry", 0, VF_N(3, 7))];
  Cache& c = *new Cache("cache", nullptr, static_cast<TaggedMemoryInterface*>(nullptr));
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  vf_check(c.Configure(m.g.config, &cycles).ok(), "a valid configuration is accepted");
  auto& f = *new mh::DataBufferFactory;
  DataBuffer* db = f.Allocate(4);
  uint64_t base = vf_u64("base") >> 8 << 8;
  for (int k = 0; k < VF_N(4, 5); k++) {
    cycles.Increment(1);
    m.now++;
    uint64_t rel = kBlock[vf_choose("block", 0, VF_N(2, 3))] * 16 + (k == 0 ? vf_range("offset", 0, 15) : 4);
    if (vf_choose("store", 0, 1)) { c.Store(base | rel, db); m.Access(rel, 4, false); }
    else { c.Load(base | rel, db, nullptr, nullptr); m.Access(rel, 4, true); }
  }
  m.Check(c);
  vf_reach("counters");
}
VF_ENTRY(cache_sizes) {
  Model m;
  m.g = kGeometry[vf_choose("geometry", 0, VF_N(2, 7))];
  auto& f = *new mh::DataBufferFactory;
  Cache& c = *new Cache("cache", nullptr, static_cast<MemoryInterface*>(nullptr));
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  std::string config = m.g.config;
  int r = vf_choose("ranges", 0, 2);
  if (r) { m.ranges = true; m.cacheable = r == 1; m.lo = 32; m.hi = 63; config += r == 1 ? ",c:0x1020:0x103f" : ",nc:0x1020:0x103f"; }
  vf_check(c.Configure(config, &cycles).ok(), "a valid configuration is accepted");
  uint64_t base = r ? 0x1000 : vf_u64("base") >> 8 << 8;
  static const int kSize[] = {1, 8, 32, 2};
  static const int kAt[] = {0, 12, 31, 60, 88, 127};
  for (int k = 0; k < 2; k++) {
    cycles.Increment(1);
    m.now++;
    int n = kSize[vf_choose("size", 0, VF_N(2, 3))];
    DataBuffer* db = f.Allocate(n);
    uint64_t rel = k == 0 ? vf_range("at", 0, 127) : kAt[vf_choose("at", 0, 5)];
    if (r) vf_assume((rel + n <= 32) | (rel >= 32 & rel + n <= 64) | (rel >= 64));
    switch (vf_choose("kind", 0, VF_N(1, 3))) {
      case 0: c.Load(base | rel, db, nullptr, nullptr); m.Access(rel, n, true); break;
      case 1: c.Store(base | rel, db); m.Access(rel, n, false); break;
      case 2: c.Load(base | rel, db, f.Allocate(4), nullptr, nullptr); m.Access(rel, n, true); break;
      case 3: c.Store(base | rel, db, f.Allocate(4)); m.Access(rel, n, false); break;
    }
  }
  m.Check(c);
  vf_reach("sizes");
}
VF_ENTRY(cache_vector) {
  Model m;
  m.g = kGeometry[vf_choose("geometry", 0, 1)];
  auto& f = *new mh::DataBufferFactory;
  Cache& c = *new Cache("cache");
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  vf_check(c.Configure(m.g.config, &cycles).ok(), "a valid configuration is accepted");
  uint64_t base = vf_u64("base") >> 8 << 8;
  int n = vf_choose("elements", 1, VF_N(3, 4)), el = 1 << VF_N(3 * vf_choose("log", 0, 1), vf_choose("log", 0, 3));
  bool unit = n == 1 || vf_choose("unit", 0, 1), store = vf_choose("store", 0, 1);
  DataBuffer* adb = f.Allocate<uint64_t>(unit ? 1 : n);
  DataBuffer* mdb = f.Allocate<bool>(n);
  DataBuffer* db = f.Allocate(n * el);
  cycles.Increment(1); m.now++;
  uint64_t at = vf_range("at", 0, 31);
  for (int i = 0; i < n; i++) {
    uint64_t rel = unit ? at + i * el : kBlock[vf_choose("block", 0, 2)] * 16 + (i ? 4 : vf_range("offset", 0, 15));
    if (!unit || i == 0) adb->Set<uint64_t>(i, base | rel);
    bool on = vf_choose("mask", 0, 1);
    mdb->Set<bool>(i, on);
    if (on) m.Access(rel, el, !store);
  }
  if (store) c.Store(adb, mdb, el, db); else c.Load(adb, mdb, el, db, nullptr, nullptr);
  m.Check(c);
  vf_reach("vector");
}
// Requests pass through the cache unchanged: the contents are those of the memory behind it.
VF_ENTRY(cache_data) {
  mh::State& st = *new mh::State;
  auto* mem = new TaggedFlatDemandMemory(0x10000, 0, 16);
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  bool tagged = vf_choose("tagged", 0, 1);
  Cache& c = tagged ? *new Cache("cache", static_cast<TaggedMemoryInterface*>(mem)) : *new Cache("cache", static_cast<MemoryInterface*>(mem));
  vf_check(c.Configure("32,16,1,true", &cycles).ok(), "a valid configuration is accepted");
  mh::Window w(&c, 0x2000, 1, 0);
  for (int k = 0; k < VF_N(2, 3); k++) {
    cycles.Increment(1);
    int at = vf_choose("at", 14, 16), n = vf_choose("wide", 0, 1) ? 8 : 1;
    switch (vf_choose("op", 0, 3)) {
      case 0: w.Store(at, n); break;
      case 1: w.Load(at, n); break;
      case 2: w.Vector(true, 2, 2, &at, 1); break;
      default: w.Vector(false, 2, 2, &at, 1); break;
    }
  }
  w.CheckAll();
  if (tagged) {
    DataBuffer* db = w.Data(16); DataBuffer* t = w.f->Allocate(1);
    uint8_t tv = vf_u8("tag");
    t->Set<uint8_t>(0, tv);
    db->set_latency(0); t->set_latency(0);
    c.Store(0x2010, db, t);
    DataBuffer* d2 = w.f->Allocate(16); DataBuffer* t2 = w.f->Allocate(1);
    d2->set_latency(0); t2->set_latency(0);
    c.Load(0x2010, d2, t2, nullptr, nullptr);
    for (int i = 0; i < 16; i++) vf_check(d2->Get<uint8_t>(i) == db->Get<uint8_t>(i), "a load returns the bytes last stored");
    vf_check(t2->Get<uint8_t>(0) == tv, "a load returns the tag last stored");
    vf_check(db->ref_count() == 1 && t->ref_count() == 1 && d2->ref_count() == 1 && t2->ref_count() == 1, "no references are kept");
  }
  vf_reach("data");
}
VF_ENTRY(cache_latency) {
  mh::State& st = *new mh::State;
  auto* mem = new TaggedFlatDemandMemory(0x10000, 0, 16);
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  Cache& c = *new Cache("cache", static_cast<TaggedMemoryInterface*>(mem));
  vf_check(c.Configure("32,16,1,true", &cycles).ok(), "a valid configuration is accepted");
  auto* f = new mh::DataBufferFactory;
  DataBuffer* t = f->Allocate(1);
  int kind = vf_choose("kind", 0, 3);
  mh::LatencyCheck(&st, f, 16, [&](DataBuffer* db, Instruction* in, ReferenceCount* ctx) {
    if (kind == 0) c.Load(0x2000, db, in, ctx);
    else if (kind == 1) {
      DataBuffer* adb = f->Allocate<uint64_t>(2); DataBuffer* mdb = f->Allocate<bool>(2);
      for (int i = 0; i < 2; i++) { adb->Set<uint64_t>(i, 0x2000 + i * 32); mdb->Set<bool>(i, vf_choose("mask", 0, 1)); }
      c.Load(adb, mdb, 8, db, in, ctx);
      adb->DecRef(); mdb->DecRef();
    } else if (kind == 2) c.Load(0x2000, db, t, in, ctx);
    else { t->set_latency(db->latency()); c.Load(0x2000, nullptr, t, in, ctx); }
    vf_check(db->ref_count() == 1 && t->ref_count() == 1, "no references to the data are kept");
  }, 2);
}
// Loads without an instruction keep nothing either.
VF_ENTRY(cache_no_instruction) {
  auto* mem = new TaggedFlatDemandMemory(0x10000, 0, 16);
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  Cache& c = *new Cache("cache", static_cast<TaggedMemoryInterface*>(mem));
  vf_check(c.Configure("32,16,1,true", &cycles).ok(), "a valid configuration is accepted");
  auto* f = new mh::DataBufferFactory;
  DataBuffer* t = f->Allocate(1); DataBuffer* db = f->Allocate(16);
  DataBuffer* adb = f->Allocate<uint64_t>(2); DataBuffer* mdb = f->Allocate<bool>(2);
  for (int i = 0; i < 2; i++) { adb->Set<uint64_t>(i, 0x2000); mdb->Set<bool>(i, true); }
  db->set_latency(0); t->set_latency(0);
  int dead = 0;
  mh::Ctx* ctx = new mh::Ctx(&dead);
  bool with = vf_choose("context", 0, 1);
  switch (vf_choose("kind", 0, 2)) {
    case 0: c.Load(0x2000, db, nullptr, with ? ctx : nullptr); break;
    case 1: c.Load(adb, mdb, 8, db, nullptr, with ? ctx : nullptr); break;
    default: c.Load(0x2000, db, t, nullptr, with ? ctx : nullptr); break;
  }
  vf_check(db->ref_count() == 1 && t->ref_count() == 1 && adb->ref_count() == 1 && mdb->ref_count() == 1, "no references to the data are kept");
  vf_check(ctx->ref_count() == 1 && !dead, "no reference to the context is kept");
  vf_reach("no instruction");
}
// Configurations that make no sense are refused.
VF_ENTRY(cache_config) {
  static const char* const kBad[] = {"64,16,1", "63,16,1,true", "64,12,1,true", "64,16,3,true", "64,16,8,true", "64,2,1,true", "16,32,1,true", "64,16,1,maybe", "64x,16,1,true", "64,16x,1,true",
                                     "64,16,1x,true", "64,16,1,true,c:0x10", "64,16,1,true,c:0x20:0x10", "64,16,1,true,x:0x10:0x20", "64,16,1,true,c:0x10:0x20,nc:0x30:0x40", "64,16,1,true,c:0x1g:0x20"};
  Cache c("cache");
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  int k = vf_choose("config", 0, 15);
  vf_check(!c.Configure(kBad[k], &cycles).ok(), "an invalid configuration is refused");
  vf_check(!c.Configure("64,16,1,true", nullptr).ok(), "a configuration without a cycle counter is refused");
  vf_check(c.Configure(vf_choose("suffix", 0, 1) ? "1k,16,2,true" : "1M,65536,2,true", &cycles).ok() || k >= 11, "a valid configuration is accepted");
  vf_reach("config");
}
// A tag only load touches the lines of the data its tags belong to.
VF_ENTRY(cache_tags) {
  Model m;
  m.g = kGeometry[vf_choose("geometry", 0, VF_N(1, 7))];
  auto& f = *new mh::DataBufferFactory;
  Cache& c = *new Cache("cache", nullptr, static_cast<TaggedMemoryInterface*>(nullptr));
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  vf_check(c.Configure(m.g.config, &cycles).ok(), "a valid configuration is accepted");
  uint64_t base = vf_u64("base") >> 8 << 8;
  for (int k = 0; k < 2; k++) {
    cycles.Increment(1);
    m.now++;
    int n = vf_choose("tags", 1, 3);
    uint64_t rel = k ? vf_choose("at", 0, 3) * 8 : vf_range("at", 0, 63);
    DataBuffer* t = f.Allocate(n);
    c.Load(base | rel, nullptr, t, nullptr, nullptr);
    m.Access(rel, (rel & ~7ULL) + 8 * n - rel, true);
  }
  m.Check(c);
  vf_reach("tags");
}
// The size of the cache, with its suffix, decides which lines share a set.
VF_ENTRY(cache_suffix) {
  static const char* const kConfig[] = {"1k,256,1,true", "1M,262144,1,true", "1G,268435456,1,true", "2k,512,1,true", "1024,256,1,true"};
  static const uint64_t kLine[] = {256, 262144, 268435456, 512, 256};
  int k = vf_choose("config", 0, 4);
  Cache& c = *new Cache("cache");
  auto& cycles = *new SimpleCounter<uint64_t>("cycles", 0);
  vf_check(c.Configure(kConfig[k], &cycles).ok(), "a valid configuration is accepted");
  auto& f = *new mh::DataBufferFactory;
  DataBuffer* db = f.Allocate(4);
  int far = vf_choose("distance", 1, 8);
  uint64_t at[3] = {0, far * kLine[k], 0};
  for (int i = 0; i < 3; i++) {
    cycles.Increment(1);
    c.Load(at[i] + 4 * vf_range("offset", 0, 15), db, nullptr, nullptr);
  }
  Model m;
  m.count[RM] = far % 4 ? 2 : 3;
  m.count[RH] = 3 - m.count[RM];
  m.Check(c);
  vf_reach("suffix");
}
