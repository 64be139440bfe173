// Routers: a request goes, once and unchanged, to the one target that covers it.
// SRC: util/memory/single_initiator_router.cc util/memory/memory_router.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=600000
// BOUND: up to 3 plain, 2 tagged and 2 atomic targets with adjacent and separated ranges in a 64 byte part of memory at any symbolic address, with and without default targets; requests of 1..9 bytes at every position; vector requests of up to 3 elements of 1..8 bytes, consecutive or at listed positions, with any mask; range conflicts of any two symbolic ranges
// ASSUME: requests do not wrap around the end of the address space; vector requests have at least one enabled element
#include <string>
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/memory/memory_router.h"
#include "mpact/sim/util/memory/single_initiator_router.h"
#include "vf.h"
using namespace mpact::sim::util;
using mpact::sim::generic::DataBufferFactory;
namespace {
struct Call { int kind = -1; uint64_t address = 0; DataBuffer *db = nullptr, *x = nullptr, *m = nullptr; int el = 0; Instruction* in = nullptr; ReferenceCount* ctx = nullptr; int op = -1; };
int g_calls;
struct Mem : TaggedMemoryInterface, AtomicMemoryOpInterface {
  Call last; int n = 0;
  void Note(Call c) { last = c; n++; g_calls++; }
  void Load(uint64_t a, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({0, a, db, nullptr, nullptr, 0, in, c}); }
  void Load(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({1, 0, db, a, m, el, in, c}); }
  void Load(uint64_t a, DataBuffer* db, DataBuffer* t, Instruction* in, ReferenceCount* c) override { Note({2, a, db, t, nullptr, 0, in, c}); }
  void Store(uint64_t a, DataBuffer* db) override { Note({3, a, db}); }
  void Store(DataBuffer* a, DataBuffer* m, int el, DataBuffer* db) override { Note({4, 0, db, a, m, el}); }
  void Store(uint64_t a, DataBuffer* db, DataBuffer* t) override { Note({5, a, db, t}); }
  absl::Status PerformMemoryOp(uint64_t a, Operation op, DataBuffer* db, Instruction* in, ReferenceCount* c) override { Note({6, a, db, nullptr, nullptr, 0, in, c, (int)op}); return absl::OkStatus(); }
};
bool Same(const Call& a, const Call& b) {
  return a.kind == b.kind && a.address == b.address && a.db == b.db && a.x == b.x && a.m == b.m && a.el == b.el && a.in == b.in && a.ctx == b.ctx && a.op == b.op;
}
struct Range { int lo, hi; };
// Plain, tagged and atomic targets; positions relative to the base.
struct Layout { int np; Range p[3]; int nt; Range t[2]; int na; Range a[2]; };
const Layout kLayouts[] = {
    {3, {{8, 15}, {16, 31}, {40, 47}}, 0, {}, 2, {{8, 15}, {16, 31}}},
    {0, {}, 2, {{8, 15}, {16, 31}}, 1, {{8, 31}}},
    {2, {{8, 15}, {32, 39}}, 2, {{16, 31}, {40, 47}}, 1, {{16, 31}}},
    {1, {{16, 17}}, 1, {{8, 47}}, 2, {{20, 23}, {24, 27}}},
};
struct World {
  SingleInitiatorRouter r{"r"}; DataBufferFactory* f = new DataBufferFactory;
  Layout L; uint64_t base; Mem p[3], t[2], a[2], dp, dt, da; bool hasdp, hasdt, hasda;
  World() {
    L = kLayouts[vf_choose("layout", 0, 3)];
    base = vf_u64("base") >> 8 << 8;
    for (int i = 0; i < L.np; i++) vf_check(r.AddTarget<MemoryInterface>(&p[i], base | L.p[i].lo, base | L.p[i].hi).ok(), "targets that do not overlap are accepted");
    for (int i = 0; i < L.nt; i++) vf_check(r.AddTarget<TaggedMemoryInterface>(&t[i], base | L.t[i].lo, base | L.t[i].hi).ok(), "targets that do not overlap are accepted");
    for (int i = 0; i < L.na; i++) vf_check(r.AddTarget<AtomicMemoryOpInterface>(&a[i], base | L.a[i].lo, base | L.a[i].hi).ok(), "targets that do not overlap are accepted");
    int d = vf_choose("defaults", 0, 3);
    hasdp = d & 1; hasdt = d & 2; hasda = d & 1;
    if (hasdp) vf_check(r.AddDefaultTarget<MemoryInterface>(&dp).ok() && !r.AddDefaultTarget<MemoryInterface>(&dp).ok(), "one default target");
    if (hasdt) vf_check(r.AddDefaultTarget<TaggedMemoryInterface>(&dt).ok() && !r.AddDefaultTarget<TaggedMemoryInterface>(&dt).ok(), "one default target");
    if (hasda) vf_check(r.AddDefaultTarget<AtomicMemoryOpInterface>(&da).ok() && !r.AddDefaultTarget<AtomicMemoryOpInterface>(&da).ok(), "one default target");
    g_calls = 0;
  }
  static int Find(const Range* x, int n, int lo, int hi, bool* overlap) {
    int got = -1; *overlap = false;
    for (int i = 0; i < n; i++) {
      if (x[i].lo <= lo && hi <= x[i].hi) got = i;
      if (x[i].lo <= hi && lo <= x[i].hi) *overlap = true;
    }
    return got;
  }
  Mem* Plain(int lo, int hi) { bool o; int i = Find(L.p, L.np, lo, hi, &o); return i >= 0 ? &p[i] : !o && hasdp ? &dp : nullptr; }
  Mem* Tagged(int lo, int hi) { bool o; int i = Find(L.t, L.nt, lo, hi, &o); return i >= 0 ? &t[i] : !o && hasdt ? &dt : nullptr; }
  Mem* Atomic(int lo, int hi) { bool o; int i = Find(L.a, L.na, lo, hi, &o); return i >= 0 ? &a[i] : !o && hasda ? &da : nullptr; }
  void Expect(Mem* m, const Call& c) {
    vf_check(g_calls == (m ? 1 : 0), "a request goes to at most one target, and only to one that covers it");
    if (m) vf_check(m->n == 1 && Same(m->last, c), "a request goes to the target that covers it, unchanged");
  }
};
}  // namespace
VF_ENTRY(router_scalar) {
  World w;
  int at = vf_choose("at", 4, 48), n = 1 << vf_choose("log", 0, 3);
  if (vf_choose("odd", 0, 1)) n++;
  DataBuffer* db = w.f->Allocate(n);
  Instruction in(0, nullptr); Instruction ctx(1, nullptr);
  uint64_t a = w.base | at;
  Mem* plain = w.Plain(at, at + n - 1);
  if (!plain) plain = w.Tagged(at, at + n - 1);
  Mem* tagged = w.Tagged(at, at + n - 1);
  DataBuffer* t = w.f->Allocate(1);
  switch (vf_choose("kind", 0, 5)) {
    case 0: w.r.Load(a, db, &in, &ctx); w.Expect(plain, {0, a, db, nullptr, nullptr, 0, &in, &ctx}); break;
    case 1: w.r.Store(a, db); w.Expect(plain, {3, a, db}); break;
    case 2: w.r.Load(a, db, t, &in, &ctx); w.Expect(tagged, {2, a, db, t, nullptr, 0, &in, &ctx}); break;
    case 3: w.r.Store(a, db, t); w.Expect(tagged, {5, a, db, t}); break;
    case 4: w.r.Load(a, nullptr, t, &in, &ctx); w.Expect(w.Tagged(at, at + 7), {2, a, nullptr, t, nullptr, 0, &in, &ctx}); break;
    default: {
      auto op = (AtomicMemoryOpInterface::Operation)vf_choose("op", 0, 3);
      Mem* m = w.Atomic(at, at + n - 1);
      absl::Status s = w.r.PerformMemoryOp(a, op, db, &in, &ctx);
      w.Expect(m, {6, a, db, nullptr, nullptr, 0, &in, &ctx, (int)op});
      vf_check(s.ok() == (m != nullptr), "an atomic operation without a target fails");
    }
  }
  vf_reach("scalar");
}
VF_ENTRY(router_vector) {
  World w;
  int n = vf_choose("elements", 2, 3), el = 1 << vf_choose("log", 0, 3);
  bool unit = vf_choose("unit", 0, 1);
  int pos[3];
  if (unit) { int at = vf_choose("at", 5, 40); if ((at & 3) > 1) vf_prune(); for (int i = 0; i < n; i++) pos[i] = at + i * el; }
  else {
    static const int kAt[][3] = {{8, 12, 15}, {16, 24, 30}, {28, 29, 16}, {8, 20, 9}, {24, 4, 25}, {33, 34, 41}, {0, 52, 48}, {16, 52, 25}, {40, 44, 20}};
    const int* p = kAt[vf_choose("pattern", 0, 8)];
    for (int i = 0; i < n; i++) pos[i] = p[i];
  }
  int mask = vf_choose("mask", 1, (1 << n) - 1);
  DataBuffer* adb = w.f->Allocate<uint64_t>(unit ? 1 : n);
  DataBuffer* mdb = w.f->Allocate<bool>(n);
  DataBuffer* db = w.f->Allocate(n * el);
  for (int i = 0; i < (unit ? 1 : n); i++) adb->Set<uint64_t>(i, w.base | pos[i]);
  for (int i = 0; i < n; i++) mdb->Set<bool>(i, mask >> i & 1);
  Instruction in(0, nullptr); Instruction ctx(1, nullptr);
  bool load = vf_choose("load", 0, 1);
  if (load) w.r.Load(adb, mdb, el, db, &in, &ctx); else w.r.Store(adb, mdb, el, db);
  Call c = load ? Call{1, 0, db, adb, mdb, el, &in, &ctx} : Call{4, 0, db, adb, mdb, el};
  // Which targets cover all enabled elements?
  Mem *plain = nullptr, *tagged = nullptr; bool first = true, plainAll = true, taggedAll = true, anyPlain = false, anyTagged = false;
  for (int i = 0; i < n; i++) {
    if (!(mask >> i & 1)) continue;
    Mem* x = w.Plain(pos[i], pos[i] + el - 1); Mem* y = w.Tagged(pos[i], pos[i] + el - 1);
    anyPlain |= x != nullptr; anyTagged |= y != nullptr;
    if (first) { plain = x; tagged = y; first = false; }
    plainAll &= x != nullptr && x == plain; taggedAll &= y != nullptr && y == tagged;
  }
  vf_check(g_calls <= 1, "a vector request goes to at most one target");
  if (plainAll) w.Expect(plain, c);
  else if (taggedAll && !anyPlain) w.Expect(tagged, c);
  else if (taggedAll) vf_check(g_calls == 0 || (tagged->n == 1 && Same(tagged->last, c)), "a vector request goes only to a target that covers all its elements");
  else vf_check(g_calls == 0, "a vector request that no target covers goes nowhere");
  vf_reach("vector");
}
// Overlapping ranges are refused, whatever the two ranges.
VF_ENTRY(router_conflict) {
  SingleInitiatorRouter r("r");
  Mem m[3];
  uint64_t lo[3], hi[3]; bool ok[3];
  int n = VF_N(2, 3);
  for (int i = 0; i < n; i++) {
    lo[i] = vf_u64("lo"); hi[i] = vf_u64("hi");
    bool same = false, clash = false;
    for (int j = 0; j < i; j++) if (ok[j]) { same |= (lo[j] == lo[i]) & (hi[j] == hi[i]); clash |= (lo[j] <= hi[i]) & (lo[i] <= hi[j]); }
    absl::Status s = r.AddTarget<MemoryInterface>(&m[i], lo[i], hi[i]);
    bool good = (lo[i] < hi[i]) & (same | !clash);
    vf_check(s.ok() == good, "exactly the valid ranges that do not overlap another are accepted");
    ok[i] = s.ok() && !same;
  }
  DataBufferFactory f;
  DataBuffer* db = f.Allocate(1);
  uint64_t a = vf_u64("address");
  g_calls = 0;
  r.Store(a, db);
  for (int i = 0; i < n; i++) vf_check(m[i].n == (ok[i] && lo[i] <= a && a <= hi[i]), "a byte goes to the target whose range contains it");
  vf_reach("conflict");
}
// The named router: initiators keep their own maps, names are unique.
VF_ENTRY(router_names) {
  MemoryRouter r;
  static const char* kName[] = {"a", "b", "ab"};
  DataBufferFactory f;
  DataBuffer* db = f.Allocate(8);
  Mem m[3]; bool added[3] = {}; int as[3] = {};
  MemoryInterface* init[3] = {};
  // mapping[i][r]: target of region r for initiator i
  int plain[3][2], tag[3][2], atom[3][2];
  for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) plain[i][k] = tag[i][k] = atom[i][k] = -1;
  const uint64_t kReg[] = {0x1000, 0x2000};
  auto initiator = [&](int i) {
    MemoryInterface* x = r.AddMemoryInitiator(kName[i]);
    vf_check(x != nullptr && (init[i] == nullptr || init[i] == x), "an initiator is the same for the same name");
    for (int j = 0; j < 3; j++) vf_check(j == i || init[j] != x, "initiators of different names are different");
    vf_check(static_cast<MemoryInterface*>(r.AddTaggedInitiator(kName[i])) == x, "the interfaces of a name belong to one initiator");
    r.AddAtomicInitiator(kName[i]);
    init[i] = x;
  };
  auto target = [&](int i, int t) {
    absl::Status s = t == 0 ? r.AddTarget(kName[i], (MemoryInterface*)&m[i]) : t == 1 ? r.AddTarget(kName[i], (TaggedMemoryInterface*)&m[i]) : r.AddTarget(kName[i], (AtomicMemoryOpInterface*)&m[i]);
    vf_check(s.ok() == !added[i], "a target name can be used once");
    if (s.ok()) { added[i] = true; as[i] = t; }
  };
  auto mapping = [&]() {
    int i = vf_choose("initiator", 0, VF_N(1, 2)), t = vf_choose("target", 0, VF_N(1, 2)), g = vf_choose("region", 0, 1);
    absl::Status s = r.AddMapping(kName[i], kName[t], kReg[g], kReg[g] + 0xff);
    vf_check(s.ok() == (init[i] != nullptr && added[t]), "a mapping needs an initiator and a target");
    if (s.ok()) { int* at = as[t] == 0 ? &plain[i][g] : as[t] == 1 ? &tag[i][g] : &atom[i][g]; if (*at < 0) *at = t; }
  };
  for (int i = 0; i < VF_N(2, 3); i++) {
    if (i == 0 || vf_bool("more")) initiator(i);
    int t = (int)vf_choose("target_as", i == 0 ? 1 : 0, 3) - 1;
    if (t >= 0) target(i, t);
  }
  for (int k = 0; k < 2; k++) mapping();
  initiator(1);
  target(0, vf_choose("again", 0, VF_N(0, 2)));
  for (int i = 0; i < 3; i++) {
    if (!init[i]) continue;
    for (int g = 0; g < 2; g++) {
      for (auto& x : m) x.n = 0;
      g_calls = 0;
      uint64_t a = kReg[g] + vf_range("offset", 0, 0xf8);
      init[i]->Store(a, db);
      int want = plain[i][g] >= 0 ? plain[i][g] : tag[i][g];
      vf_check(g_calls == (want >= 0) && (want < 0 || (m[want].n == 1 && m[want].last.address == a)), "an initiator reaches the targets mapped for it");
      AtomicMemoryOpInterface* at = r.AddAtomicInitiator(kName[i]);
      bool ok = at->PerformMemoryOp(a, AtomicMemoryOpInterface::Operation::kAtomicAdd, db, nullptr, nullptr).ok();
      vf_check(ok == (atom[i][g] >= 0), "atomic operations reach the atomic targets mapped");
    }
  }
  vf_reach("names");
}
