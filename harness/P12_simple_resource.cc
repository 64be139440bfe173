// Simple resources: a resource is reserved from acquisition to release, and sets act on all their members.
// SRC: generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: pools of up to 240 (quick) or 320 resources, all reserved and released; sets and operands made with any of 3 resources reserved
// BOUND: pools of width 3 and 66 (one and two words), 3 resources, 2 sets with any members, histories of 4 (quick) or 5 (thorough) acquire/release operations; scheduled release with latencies 0 to 5 over 7 cycles
#include <string>
#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct World {
  SimpleResourcePool* pool;
  SimpleResource* r[3]; SimpleResourceSet* s[2]; unsigned members[2] = {0, 0};
  unsigned busy = 0;
  static std::string Nm(int i) { return std::string("r") + char('a' + i); }
  explicit World(int width) {
    pool = new SimpleResourcePool("pool", width);
    vf_check((int)pool->width() == width && pool->name() == "pool", "pool attributes");
    // In a wide pool the interesting resources sit around the word boundary.
    int pad = width > 64 ? 63 : 0;
    for (int i = 0; i < pad; i++) (void)pool->AddResource(std::string("x") + char('0' + i / 10) + char('0' + i % 10));
    for (int i = 0; i < 3; i++) {
      if (i == 1) r[i] = pool->GetOrAddResource(Nm(i));
      else { vf_check(pool->AddResource(Nm(i)).ok(), "a new name can be added while there is room"); r[i] = pool->GetResource(Nm(i)); }
      vf_check(r[i] != nullptr && r[i]->name() == Nm(i) && r[i]->pool() == pool && r[i]->index() == pad + i, "resources are found by name");
      vf_check(pool->GetResource((unsigned)(pad + i)) == r[i] && pool->GetOrAddResource(Nm(i)) == r[i], "resources are found by index");
      vf_check(!pool->AddResource(Nm(i)).ok(), "a name can be added once");
    }
    vf_check(!pool->AddResource("one too many").ok() && pool->GetOrAddResource("one too many") == nullptr, "the pool has a fixed capacity");
    vf_check(pool->GetResource("nobody") == nullptr && pool->GetResource((unsigned)width) == nullptr, "unknown resources are not found");
  }
  void MakeSets() {
    for (int k = 0; k < 2; k++) {
      s[k] = pool->CreateResourceSet();
      members[k] = vf_choose("members", 0, 7);
      for (int i = 0; i < 3; i++) if (members[k] >> i & 1) {
        bool ok = (i == 1 ? s[k]->AddResource(Nm(i)) : s[k]->AddResource(r[i])).ok();
        vf_check(ok, "resources of the pool can be added to a set");
      }
      vf_check(s[k]->AddResource(nullptr).ok(), "adding nothing changes nothing");
    }
  }
  void Check() {
    std::string all = "["; const char* sep = "";
    for (int i = 0; i < 3; i++) {
      vf_check(r[i]->IsFree() == !(busy >> i & 1) && pool->IsFree(r[i]) == r[i]->IsFree(), "a resource is free exactly when it is not reserved");
      if (busy >> i & 1) { all += sep; all += Nm(i); sep = ", "; }
    }
    for (int k = 0; k < 2; k++) vf_check(s[k]->IsFree() == !(busy & members[k]) && pool->IsFree(s[k]) == s[k]->IsFree(), "a set is free exactly when all of its members are");
    vf_check(pool->ReservedAsString() == all + "]", "the reserved resources are listed");
  }
  void Op() {
    int i = vf_choose("which", 0, 4);
    bool acq = vf_choose("acquire", 0, 1);
    unsigned m = i < 3 ? 1u << i : members[i - 3];
    if (i < 3) { if (acq) r[i]->Acquire(); else r[i]->Release(); }
    else { if (acq) s[i - 3]->Acquire(); else s[i - 3]->Release(); }
    busy = acq ? busy | m : busy & ~m;
    Check();
  }
};
void History(int width, int ops) {
  long base = vf_heap_live();
  {
    World w(width);
    w.MakeSets();
    w.Check();
    for (int i = 0; i < ops; i++) w.Op();
    SimpleResourcePool other("other", 2);
    auto* foreign = other.GetOrAddResource("ra");
    vf_check(!w.s[0]->AddResource(foreign).ok(), "resources of another pool are rejected");
    w.Check();
    vf_check(foreign->IsFree(), "pools are independent");
    std::string want = "["; const char* sep = "";
    for (int i = 0; i < 3; i++) if (w.members[0] >> i & 1) { want += sep; want += World::Nm(i); sep = ", "; }
    vf_check(w.s[0]->AsString() == want + "]", "the members of a set are listed");
    delete w.pool;
    vf_reach("history");
  }
  vf_check(vf_heap_live() == base, "the pool owns its resources and sets");
}
}  // namespace
VF_ENTRY(res_narrow) { History(3, VF_N(2, 3)); }
VF_ENTRY(res_wide) { History(66, VF_N(1, 2)); }
// Resource operands release what they acquired after their latency.
VF_ENTRY(res_operand) {
  World w(3);
  SimpleResourceDelayLine dl(vf_choose("depth", 1, 2) * 2);
  SimpleResourceSet* s[2] = {w.pool->CreateResourceSet(), w.pool->CreateResourceSet()};
  (void)s[0]->AddResource(w.r[0]); (void)s[0]->AddResource(w.r[1]); (void)s[1]->AddResource(w.r[2]);
  int lat[2], start[2]; bool sched[2];
  SimpleResourceOperand* op[2];
  for (int k = 0; k < 2; k++) {
    lat[k] = vf_choose("latency", 0, 5); start[k] = vf_choose("start", 0, 2);
    op[k] = k ? new SimpleResourceOperand(s[k], lat[k]) : new SimpleResourceOperand(s[k], lat[k], &dl);
    if (k) op[k]->set_delay_line(&dl);
    vf_check(op[k]->latency() == lat[k] && op[k]->resource_set() == s[k], "operand attributes");
    sched[k] = k ? vf_choose("by_hand", 0, 1) : 0;
  }
  for (int now = 0; now < 9; now++) {
    for (int k = 0; k < 2; k++) if (now == start[k]) {
      vf_check(op[k]->IsFree(), "free before acquisition");
      if (sched[k]) { s[k]->Acquire(); vf_check(!op[k]->IsFree(), "reserved after acquisition"); op[k]->Release(); }
      else op[k]->Acquire();
    }
    for (int k = 0; k < 2; k++) {
      bool held = now >= start[k] && now < start[k] + lat[k];
      vf_check(op[k]->IsFree() == !held, "a set is reserved exactly from acquisition until its latency has passed");
    }
    vf_check(w.r[0]->IsFree() == op[0]->IsFree() && w.r[1]->IsFree() == op[0]->IsFree() && w.r[2]->IsFree() == op[1]->IsFree(), "operands act on their own resources");
    dl.Advance();
  }
  vf_check(dl.IsEmpty(), "nothing remains scheduled");
  vf_reach("operand");
}
// Sets may be made while resources are reserved, and operands acquire whatever state their resources are in.
VF_ENTRY(res_sets_while_busy) {
  World w(vf_choose("wide", 0, 1) ? 66 : 3);
  w.busy = vf_choose("busy", 0, 7);
  for (int i = 0; i < 3; i++) if (w.busy >> i & 1) w.r[i]->Acquire();
  w.MakeSets();
  w.Check();
  SimpleResourceDelayLine dl(8);
  int lat = vf_choose("latency", 0, 2);
  SimpleResourceOperand op(w.s[0], lat, &dl);
  vf_check(op.IsFree() == !(w.busy & w.members[0]), "an operand is free exactly when all of its resources are");
  op.Acquire();
  if (lat) w.busy |= w.members[0]; else w.busy &= ~w.members[0];
  w.Check();
  for (int i = 1; i <= lat; i++) {
    dl.Advance();
    if (i == lat) w.busy &= ~w.members[0];
    w.Check();
  }
  vf_reach("busy");
}
// Pools of many words, everything reserved and released again.
VF_ENTRY(res_large_pool) {
  int n = 40 * (int)vf_choose("size", 1, VF_N(6, 8));
  SimpleResourcePool* pool = new SimpleResourcePool("large", n);
  SimpleResource* r[320];
  SimpleResourceSet* all = pool->CreateResourceSet(); SimpleResourceSet* odd = pool->CreateResourceSet();
  for (int i = 0; i < n; i++) {
    std::string nm = std::string("q") + char('0' + i / 100) + char('0' + i / 10 % 10) + char('0' + i % 10);
    r[i] = pool->GetOrAddResource(nm);
    vf_check(r[i] != nullptr && r[i]->index() == i && pool->GetResource(nm) == r[i], "every resource is found");
    vf_check(all->AddResource(r[i]).ok(), "added");
    if (i & 1) vf_check(odd->AddResource(nm).ok(), "added");
  }
  vf_check(pool->GetOrAddResource("more") == nullptr, "the pool has a fixed capacity");
  all->Acquire();
  for (int i = 0; i < n; i++) vf_check(!r[i]->IsFree(), "reserved");
  bool by_set = vf_choose("by_set", 0, 1);
  if (by_set) odd->Release(); else for (int i = 1; i < n; i += 2) r[i]->Release();
  for (int i = 0; i < n; i++) vf_check(r[i]->IsFree() == (i & 1), "exactly the released ones are free");
  vf_check(odd->IsFree() && !all->IsFree(), "sets");
  all->Release();
  for (int i = 0; i < n; i++) vf_check(r[i]->IsFree(), "all are free");
  vf_check(all->IsFree() && pool->ReservedAsString() == "[]", "nothing is reserved");
  vf_reach("large");
}
