// Memory use profiler: the profile lists exactly the words accessed; requests pass through unchanged.
// SRC: util/memory/memory_use_profiler.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=9000000
// BOUND: up to 3 accesses of 1..8 bytes at every position around the boundary of two segments and the byte boundaries of the bit map, in three neighbouring and distant segments; vector accesses of up to 3 elements; accesses of more than 8 bytes (not profiled); any address for the forwarding
// ASSUME: accesses do not wrap around the end of the address space
#include <string>
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_use_profiler.h"
#include "vf.h"
#include "vf_out.h"
using namespace mpact::sim::util;
using mpact::sim::generic::DataBufferFactory;
namespace {
struct Call { int kind; uint64_t address; DataBuffer *db, *x, *m; int el; Instruction* in; ReferenceCount* ctx; };
struct Mem : TaggedMemoryInterface {
  Call last; int n = 0;
  void Note(Call c) { last = c; n++; }
  void Load(uint64_t a, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({0, a, db, nullptr, nullptr, 0, in, c}); }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({1, 0, db, a, m, el, in, c}); }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* in, ReferenceCount* c) override { Note({2, a, db, t, nullptr, 0, in, c}); }
  void Store(uint64_t a, DataBuffer* db) override { Note({3, a, db}); }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override { Note({4, 0, db, a, m, el}); }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override { Note({5, a, db, t}); }
};
bool Same(const Call& a, const Call& b) {
  return a.kind == b.kind && a.address == b.address && a.db == b.db && a.x == b.x && a.m == b.m && a.el == b.el && a.in == b.in && a.ctx == b.ctx;
}
// The words used, in order.
struct Words {
  uint64_t w[32]; int n = 0;
  void Add(uint64_t a) {
    int i = 0;
    while (i < n && w[i] < a) i++;
    if (i < n && w[i] == a) return;
    for (int j = n; j > i; j--) w[j] = w[j - 1];
    w[i] = a; n++;
  }
  void Use(uint64_t a, int size) { for (uint64_t x = a & ~3ULL; x <= a + size - 1 && x >= (a & ~3ULL); x += 4) Add(x); }
  static void Num(std::string* s, uint64_t v, int base) {
    char b[24]; int k = 0;
    do { b[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
    while (k) s->push_back(b[--k]);
  }
  std::string Text() {
    std::string s;
    for (int i = 0; i < n;) {
      int j = i;
      while (j + 1 < n && w[j + 1] == w[j] + 4) j++;
      s += "0x"; Num(&s, w[i], 16); s += ",0x"; Num(&s, w[j], 16); s += ","; Num(&s, w[j] - w[i] + 4, 10); s += "\n";
      i = j + 1;
    }
    return s;
  }
};
template <typename P>
void Check(P& p, Words& w) {
  VfOut out;
  p.WriteProfile(out.os());
  vf_check(out.str() == w.Text(), "the profile lists exactly the words accessed");
}
const uint64_t kSeg = 128 * 1024;
const uint64_t kPlace[] = {0, kSeg - 12, kSeg, 3 * kSeg - 32, 2 * kSeg - 4, 0 - kSeg - 8, 0 - 16ULL, 5 * kSeg + 28};
}  // namespace
VF_ENTRY(use_scalar) {
  auto& f = *new DataBufferFactory;
  auto& p = *new MemoryUseProfiler;
  vf_check(!p.is_enabled(), "profiling is off at first");
  p.set_is_enabled(true);
  Words w;
  for (int k = 0; k < 2; k++) {
    uint64_t at = kPlace[vf_choose("place", 0, VF_N(4, 7))] + (k == 0 ? vf_choose("off", 0, 7) : vf_choose("align", 0, 1) * 3);
    static const int kSize[] = {1, 4, 5, 8, 2, 3, 6, 7};
    int n = k == 0 ? kSize[vf_choose("size", 0, VF_N(3, 7))] : vf_choose("wide", 0, 1) ? 8 : 4;
    DataBuffer* db = f.Allocate(n);
    if (vf_choose("store", 0, k == VF_N(2, 0))) p.Store(at, db); else p.Load(at, db, nullptr, nullptr);
    w.Use(at, n);
  }
  Check(p, w);
  vf_reach("scalar");
}
// Runs of words across bytes of the bit map and across segments.
VF_ENTRY(use_runs) {
  auto& f = *new DataBufferFactory;
  auto& p = *new TaggedMemoryUseProfiler;
  p.set_is_enabled(true);
  Words w;
  uint64_t at = vf_choose("place", 0, 3);
  at = at == 0 ? 0 : at == 1 ? kSeg - 20 : at == 2 ? 2 * kSeg - 40 : kSeg + 24;
  DataBuffer* db = f.Allocate(4);
  int skip = vf_choose("skip", 0, 10), len = vf_choose("length", 0, 10);
  bool down = vf_choose("down", 0, 1);
  for (int k = 0; k < len; k++) {
    int i = down ? len - 1 - k : k;
    if (i == skip) continue;
    p.Load(at + 4 * i, db, nullptr, nullptr);
    w.Use(at + 4 * i, 4);
  }
  // Another run in a segment that may follow immediately.
  uint64_t far = vf_choose("far", 0, 1) ? 3 * kSeg : kSeg;
  if (vf_choose("second", 0, 1)) { p.Store(far, db, nullptr); w.Use(far, 4); }
  Check(p, w);
  vf_reach("runs");
}
VF_ENTRY(use_vector) {
  auto& f = *new DataBufferFactory;
  auto& plain = *new MemoryUseProfiler; auto& tagged = *new TaggedMemoryUseProfiler;
  bool t = vf_choose("tagged", 0, 1), store = vf_choose("store", 0, 1);
  bool on = vf_choose("enabled", 0, 1);
  plain.set_is_enabled(on); tagged.set_is_enabled(on);
  MemoryInterface* m = t ? (MemoryInterface*)&tagged : &plain;
  Words w;
  int n = vf_choose("elements", 1, 3), el = 1 << vf_choose("log", 0, 4);
  bool unit = n == 1 || vf_choose("unit", 0, 1);
  DataBuffer* adb = f.Allocate<uint64_t>(unit ? 1 : n); DataBuffer* mdb = f.Allocate<bool>(n); DataBuffer* db = f.Allocate(n * el);
  uint64_t first = kPlace[vf_choose("place", 0, 1)] + 2;
  for (int i = 0; i < n; i++) {
    uint64_t a = unit ? first + i * el : first + i * 40;
    if (!unit || i == 0) adb->Set<uint64_t>(i, a);
    bool mask = vf_choose("mask", 0, 1);
    mdb->Set<bool>(i, mask);
    if (mask && on && el <= 8) w.Use(a, el);
  }
  if (store) m->Store(adb, mdb, el, db); else m->Load(adb, mdb, el, db, nullptr, nullptr);
  if (t) Check(tagged, w); else Check(plain, w);
  vf_reach("vector");
}
VF_ENTRY(use_forward) {
  auto& f = *new DataBufferFactory;
  auto& mem = *new Mem;
  auto& plain = *new MemoryUseProfiler(&mem); auto& tagged = *new TaggedMemoryUseProfiler(&mem);
  bool t = vf_choose("tagged", 0, 1);
  bool on = vf_choose("enabled", 0, 1);
  plain.set_is_enabled(on); tagged.set_is_enabled(on);
  MemoryInterface* m = t ? (MemoryInterface*)&tagged : &plain;
  uint64_t a = vf_u64("base") >> 17 << 17 | vf_choose("at", 0, 3);
  DataBuffer* db = f.Allocate(vf_choose("wide", 0, 1) ? 16 : 4); DataBuffer* adb = f.Allocate<uint64_t>(1); DataBuffer* mdb = f.Allocate<bool>(1); DataBuffer* tags = f.Allocate(1);
  adb->Set<uint64_t>(0, a); mdb->Set<bool>(0, vf_choose("mask", 0, 1));
  Instruction in(0, nullptr), ctx(1, nullptr);
  int kind = vf_choose("kind", 0, t ? 6 : 3);
  Call want{};
  switch (kind) {
    case 0: m->Load(a, db, &in, &ctx); want = {0, a, db, nullptr, nullptr, 0, &in, &ctx}; break;
    case 1: m->Store(a, db); want = {3, a, db}; break;
    case 2: m->Load(adb, mdb, 4, db, &in, &ctx); want = {1, 0, db, adb, mdb, 4, &in, &ctx}; break;
    case 3: m->Store(adb, mdb, 4, db); want = {4, 0, db, adb, mdb, 4}; break;
    case 4: tagged.Load(a, db, tags, &in, &ctx); want = {2, a, db, tags, nullptr, 0, &in, &ctx}; break;
    case 5: tagged.Load(a, nullptr, tags, &in, &ctx); want = {2, a, nullptr, tags, nullptr, 0, &in, &ctx}; break;
    default: tagged.Store(a, db, tags); want = {5, a, db, tags}; break;
  }
  vf_check(mem.n == 1 && Same(mem.last, want), "a request is passed on once, unchanged");
  vf_check(db->ref_count() == 1 && adb->ref_count() == 1 && mdb->ref_count() == 1 && tags->ref_count() == 1, "no references are kept");
  vf_reach("forward");
}
// Each kind of request of the tagged profiler, of each size.
VF_ENTRY(use_tagged) {
  auto& f = *new DataBufferFactory;
  auto& p = *new TaggedMemoryUseProfiler;
  bool on = vf_choose("enabled", 0, 1);
  p.set_is_enabled(on);
  Words w;
  uint64_t at = kPlace[vf_choose("place", 0, 1)] + vf_choose("off", 0, 3);
  int n = vf_choose("size", 1, VF_N(6, 9));
  DataBuffer* db = f.Allocate(n); DataBuffer* tags = f.Allocate(1);
  int kind = vf_choose("kind", 0, 5);
  switch (kind) {
    case 0: p.Load(at, db, nullptr, nullptr); break;
    case 1: p.Store(at, db); break;
    case 2: p.Load(at, db, tags, nullptr, nullptr); break;
    case 3: p.Store(at, db, tags); break;
    case 4: p.Load(at, nullptr, tags, nullptr, nullptr); break;
    default: p.Store(at, nullptr, tags); break;
  }
  if (on && kind < 4 && n <= 8) w.Use(at, n);
  Check(p, w);
  vf_reach("tagged");
}
