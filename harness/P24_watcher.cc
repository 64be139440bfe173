// Watchers: every watched access is reported, nothing else is, and requests pass through unchanged.
// SRC: util/memory/memory_watcher.cc util/memory/tagged_memory_watcher.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=600000
// BOUND: up to 3 watch ranges of any symbolic bounds for loads and for stores in any order of setting and clearing, followed by a request of 1..16 bytes at any symbolic address; vector requests of up to 3 elements of 1..8 bytes, consecutive or at any listed addresses, with any mask
// ASSUME: accesses do not wrap around the end of the address space
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_watcher.h"
#include "mpact/sim/util/memory/tagged_memory_watcher.h"
#include "vf.h"
using namespace mpact::sim::util;
using mpact::sim::generic::DataBufferFactory;
namespace {
struct Call { int kind; uint64_t address; DataBuffer *db, *x, *m; int el; Instruction* in; ReferenceCount* ctx; };
int g_clock;
struct Mem : TaggedMemoryInterface {
  Call last; int n = 0, when = -1;
  void Note(Call c) { last = c; n++; when = g_clock++; }
  void Load(uint64_t a, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({0, a, db, nullptr, nullptr, 0, in, c}); }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({1, 0, db, a, m, el, in, c}); }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* in, ReferenceCount* c) override { Note({2, a, db, t, nullptr, 0, in, c}); }
  void Store(uint64_t a, DataBuffer* db) override { Note({3, a, db}); }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override { Note({4, 0, db, a, m, el}); }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override { Note({5, a, db, t}); }
};
bool Same(const Call& a, const Call& b) {
  return a.kind == b.kind && a.address == b.address && a.db == b.db && a.x == b.x && a.m == b.m && a.el == b.el && a.in == b.in && a.ctx == b.ctx;
}
struct Hit { uint64_t address; int size, when; };
struct Watch { bool live = false; uint64_t lo = 0, hi = 0; int n = 0; Hit hit[4]; };
constexpr int kMax = 3;
// The model: the live watches, for loads (0) and stores (1).
template <typename W>
struct World {
  Mem mem; W w{&mem}; Watch watch[2][kMax];
  bool Overlaps(int k, uint64_t lo, uint64_t hi, int except = -1) {
    bool r = false;
    for (int i = 0; i < kMax; i++) r |= i != except && watch[k][i].live & (watch[k][i].lo <= hi) & (lo <= watch[k][i].hi);
    return r;
  }
  void Set(int k, int slot, uint64_t lo, uint64_t hi) {
    bool want = lo <= hi && !Overlaps(k, lo, hi);
    Watch* x = &watch[k][slot];
    auto cb = [x](uint64_t a, int size) { if (x->n < 4) x->hit[x->n] = {a, size, g_clock}; x->n++; g_clock++; };
    typename W::AddressRange r(lo, hi);
    bool ok = k ? w.SetStoreWatchCallback(r, cb).ok() : w.SetLoadWatchCallback(r, cb).ok();
    vf_check(ok == want, "a watch is accepted exactly if its range is well formed and overlaps no other of its kind");
    if (ok) { x->live = true; x->lo = lo; x->hi = hi; }
  }
  void Clear(int k, uint64_t a) {
    bool want = Overlaps(k, a, a);
    bool ok = k ? w.ClearStoreWatchCallback(a).ok() : w.ClearLoadWatchCallback(a).ok();
    vf_check(ok == want, "a watch can be cleared by an address in it");
    for (int i = 0; i < kMax; i++)
      if (watch[k][i].live && watch[k][i].lo <= a && a <= watch[k][i].hi) watch[k][i].live = false;
  }
  // Called for each access made, in order; then Done.
  int expect[kMax] = {}; 
  void Access(bool store, uint64_t a, int size) {
    for (int i = 0; i < kMax; i++) {
      Watch& x = watch[store][i];
      if (!x.live || x.lo > a + (size - 1) || a > x.hi) continue;
      int e = expect[i]++;
      vf_check(x.n > e, "an access that touches a watched range is reported");
      vf_check(x.hit[e].address == a && x.hit[e].size == size, "the report has the address and size of the access");
      vf_check(store ? x.hit[e].when > mem.when : x.hit[e].when < mem.when, "loads are reported before and stores after they are made");
    }
  }
  void Done(bool store, const Call& c) {
    vf_check(mem.n == 1 && Same(mem.last, c), "a request is passed on once, unchanged");
    for (int i = 0; i < kMax; i++) {
      vf_check(watch[store][i].n == expect[i], "nothing but accesses that touch the watched range is reported");
      vf_check(watch[!store][i].n == 0, "loads are not reported to store watches nor stores to load watches");
    }
  }
};
template <typename W> void TagOp(World<W>&, uint64_t, DataBuffer*, DataBuffer*, bool, Instruction*, Instruction*) { vf_prune(); }
void TagOp(World<TaggedMemoryWatcher>& w, uint64_t a, DataBuffer* db, DataBuffer* t, bool store, Instruction* in, Instruction* c) {
  if (store) { w.w.Store(a, db, t); w.Access(true, a, db->size<uint8_t>()); w.Done(true, {5, a, db, t}); }
  else {
    if (vf_choose("tags_only", 0, 1)) { w.w.Load(a, nullptr, t, in, c); w.Done(false, {2, a, nullptr, t, nullptr, 0, in, c}); return; }
    w.w.Load(a, db, t, in, c); w.Access(false, a, db->size<uint8_t>()); w.Done(false, {2, a, db, t, nullptr, 0, in, c});
  }
}
template <typename W>
void Request(World<W>& w, uint64_t base, uint64_t mask) {
  auto& f = *new DataBufferFactory;
  static const int kSize[] = {1, 8, 16, 3};
  int n = kSize[vf_choose("size", 0, VF_N(1, 3))];
  uint64_t a = base | (vf_u64("address") & mask);
  vf_assume(a + (n - 1) >= a);
  DataBuffer* db = f.Allocate(n); DataBuffer* t = f.Allocate(1);
  Instruction in(0, nullptr), ctx(1, nullptr);
  bool store = vf_choose("store", 0, 1);
  if (vf_choose("tagged", 0, 1)) { TagOp(w, a, db, t, store, &in, &ctx); }
  else if (store) { w.w.Store(a, db); w.Access(true, a, n); w.Done(true, {3, a, db}); }
  else { w.w.Load(a, db, &in, &ctx); w.Access(false, a, n); w.Done(false, {0, a, db, nullptr, nullptr, 0, &in, &ctx}); }
  vf_check(db->ref_count() == 1, "no references are kept");
  db->DecRef(); t->DecRef();
}
// Any history of watches, then a request.
template <typename W>
void History() {
  auto& w = *new World<W>;
  int k0 = vf_choose("kind", 0, 1);
  for (int i = 0; i < VF_N(2, 3); i++) {
    uint64_t lo = vf_u64("lo"), hi = vf_u64("hi");
    w.Set(k0, i, lo, hi);
  }
  if (vf_choose("clear", 0, 1)) {
    w.Clear(vf_choose("clear_kind", 0, 1), vf_u64("clear_at"));
    if (vf_choose("again", 0, 1)) { uint64_t lo = vf_u64("lo"), hi = vf_u64("hi"); if (!w.watch[k0][0].live) w.Set(k0, 0, lo, hi); }
  }
  Request(w, 0, ~0ULL);
  vf_reach("history");
}
// Load and store watches together.
template <typename W>
void Kinds() {
  auto& w = *new World<W>;
  uint64_t base = vf_u64("base") >> 8 << 8;
  static const int kR[3][2] = {{8, 15}, {16, 16}, {32, 47}};
  for (int i = 0; i < 3; i++) {
    int k = vf_choose("kind", 0, VF_N(2, 3));
    if (k != 1) w.Set(0, i, base | kR[i][0], base | kR[i][1]);
    if (k == 1 || k == 2) w.Set(1, i, base | kR[i][0], base | kR[i][1]);
  }
  if (vf_choose("clear", 0, 1)) w.Clear(vf_choose("clear_kind", 0, 1), base | vf_range("clear_at", 0, 63));
  Request(w, base, 63);
  vf_reach("kinds");
}
// Accesses that are wider than a watched range and may touch several.
template <typename W>
void Wide() {
  auto& w = *new World<W>;
  auto& f = *new DataBufferFactory;
  uint64_t base = vf_u64("base") >> 8 << 8;
  bool store = vf_choose("store", 0, 1);
  static const int kR[3][2] = {{8, 15}, {16, 16}, {32, 47}};
  for (int i = 0; i < 3; i++) w.Set(store, i, base | kR[i][0], base | kR[i][1]);
  static const int kSize[] = {9, 12, 16, 24, 40, 64};
  int n = kSize[vf_choose("size", 0, 5)];
  uint64_t a = base | vf_range("at", 0, 63);
  DataBuffer* db = f.Allocate(n);
  Instruction in(0, nullptr), ctx(1, nullptr);
  if (store) { w.w.Store(a, db); w.Access(true, a, n); w.Done(true, {3, a, db}); }
  else { w.w.Load(a, db, &in, &ctx); w.Access(false, a, n); w.Done(false, {0, a, db, nullptr, nullptr, 0, &in, &ctx}); }
  db->DecRef();
  vf_reach("wide");
}
template <typename W>
void Vector() {
  auto& w = *new World<W>;
  auto& f = *new DataBufferFactory;
  uint64_t base = vf_u64("base") >> 8 << 8;
  bool store = vf_choose("store", 0, 1);
  static const int kR[3][2] = {{16, 19}, {20, 20}, {32, 47}};
  for (int i = 0; i < 3; i++) w.Set(store, i, base | kR[i][0], base | kR[i][1]);
  int n = vf_choose("elements", 1, 3), el = 1 << vf_choose("log", 0, 3);
  bool unit = n == 1 || vf_choose("unit", 0, 1);
  DataBuffer* adb = f.Allocate<uint64_t>(unit ? 1 : n);
  DataBuffer* mdb = f.Allocate<bool>(n);
  uint64_t a[3]; bool mask[3];
  uint64_t a0 = base | vf_range("at", 0, 63);
  for (int i = 0; i < n; i++) {
    a[i] = unit ? a0 + i * el : base | (i == 0 ? vf_range("at", 0, 63) : 12 + 4 * vf_choose("pos", 0, VF_N(3, 9)));
    if (!unit || i == 0) adb->Set<uint64_t>(i, a[i]);
    mask[i] = vf_choose("mask", 0, 1);
    mdb->Set<bool>(i, mask[i]);
  }
  DataBuffer* db = f.Allocate(n * el);
  Instruction in(0, nullptr), ctx(1, nullptr);
  if (store) w.w.Store(adb, mdb, el, db); else w.w.Load(adb, mdb, el, db, &in, &ctx);
  for (int i = 0; i < n; i++) if (mask[i]) w.Access(store, a[i], el);
  if (store) w.Done(true, {4, 0, db, adb, mdb, el}); else w.Done(false, {1, 0, db, adb, mdb, el, &in, &ctx});
  vf_check(db->ref_count() == 1 && adb->ref_count() == 1 && mdb->ref_count() == 1, "no references are kept");
  db->DecRef(); adb->DecRef(); mdb->DecRef();
  vf_reach("vector");
}
}  // namespace
VF_ENTRY(watch_history) { History<MemoryWatcher>(); }
VF_ENTRY(watch_history_tagged) { History<TaggedMemoryWatcher>(); }
VF_ENTRY(watch_kinds) { Kinds<MemoryWatcher>(); }
VF_ENTRY(watch_kinds_tagged) { Kinds<TaggedMemoryWatcher>(); }
VF_ENTRY(watch_vector) { Vector<MemoryWatcher>(); }
VF_ENTRY(watch_vector_tagged) { Vector<TaggedMemoryWatcher>(); }
VF_ENTRY(watch_wide) { Wide<MemoryWatcher>(); }
VF_ENTRY(watch_wide_tagged) { Wide<TaggedMemoryWatcher>(); }
