// Action points and breakpoints.
// SRC: generic/action_point_manager_base.cc generic/breakpoint_manager.cc
// OPTS: steps=3000000
// BOUND: histories of up to 4 (thorough: 5) operations on 2 symbolic addresses with up to 3 actions, in which any write to memory may fail; histories of 5 (thorough: 6) operations on three actions at one address
// ASSUME: actions do not set or clear action points themselves
#include "mpact/sim/generic/action_point_manager_base.h"
#include "mpact/sim/generic/breakpoint_manager.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct Memory : ActionPointMemoryInterface {
  uint64_t address[2]; bool brk[2] = {}; bool may_fail = false, failed = false;
  absl::Status Write(uint64_t a, bool b) {
    if (may_fail && vf_choose("fail", 0, 1)) { failed = true; return absl::InternalError("no"); }
    bool known = false;
    for (int i = 0; i < 2; i++) if (a == address[i]) { brk[i] = b; known = true; }
    vf_check(known, "only the addresses of action points are written");
    return absl::OkStatus();
  }
  absl::Status WriteOriginalInstruction(uint64_t a) override { return Write(a, false); }
  absl::Status WriteBreakpointInstruction(uint64_t a) override { return Write(a, true); }
};
constexpr int kMax = 6;
struct Action { bool live = false, on = false; int id = -1, at = 0, runs = 0; uint64_t where = 0; int ran_id = -1; };
}  // namespace
VF_ENTRY(action_history) {
  auto& mem = *new Memory; ActionPointManagerBase& m = *new ActionPointManagerBase(&mem);
  mem.address[0] = vf_u64("a"); mem.address[1] = vf_u64("b");
  vf_assume(mem.address[0] != mem.address[1]);
  mem.may_fail = vf_choose("may_fail", 0, 1);
  Action x[kMax]; int n = 0; bool set[2] = {};
  auto check = [&](bool exact) {
    for (int i = 0; i < 2; i++) {
      bool active = false;
      for (int k = 0; k < n; k++) active |= x[k].live && x[k].on && x[k].at == i;
      vf_check(m.IsActionPointActive(mem.address[i]) == active, "an address is active if an action at it is enabled");
      if (active) vf_check(mem.brk[i], "there is a breakpoint instruction where an action is enabled");
      else if (exact) vf_check(!mem.brk[i], "the original instruction is there where no action is enabled");
    }
    for (int k = 0; k < n; k++)
      vf_check(m.IsActionEnabled(mem.address[x[k].at], x[k].id) == (x[k].live && x[k].on), "an action is enabled as last set");
  };
  for (int step = 0; step < VF_N(4, 5); step++) {
    mem.failed = false;
    int op = n == 0 ? 0 : vf_choose("op", 0, 4);
    if (op == 0) {
      int at = vf_choose("at", 0, n == 0 ? 0 : 1);
      Action* y = &x[n];
      auto r = m.SetAction(mem.address[at], [y](uint64_t a, int id) { y->runs++; y->where = a; y->ran_id = id; });
      vf_check(r.ok() == !mem.failed, "setting an action fails only if memory cannot be written");
      if (r.ok()) {
        for (int k = 0; k < n; k++) vf_check(!x[k].live || x[k].at != at || x[k].id != *r, "the actions at an address have different ids");
        // The id of an action that is gone may be used again.
        for (int k = 0; k < n; k++) if (x[k].at == at && x[k].id == *r) x[k].id = -1;
        *y = Action(); y->live = y->on = true; y->id = *r; y->at = at; n++; set[at] = true;
      }
    } else if (op == 4) {
      m.ClearAllActionPoints();
      for (int k = 0; k < n; k++) x[k].live = false;
      set[0] = set[1] = false;
    } else {
      Action& y = x[vf_choose("which", 0, n - 1)];
      uint64_t a = mem.address[y.at];
      absl::Status s = op == 1 ? m.ClearAction(a, y.id) : op == 2 ? m.EnableAction(a, y.id) : m.DisableAction(a, y.id);
      vf_check(s.ok() == (y.live && !mem.failed), "an operation fails only without such an action, or if memory cannot be written");
      if (s.ok()) { if (op == 1) y.live = false; else y.on = op == 2; }
    }
    check(!mem.may_fail);
  }
  for (int i = 0; i < 2; i++) {
    int before[kMax]; for (int k = 0; k < n; k++) before[k] = x[k].runs;
    m.PerformActions(mem.address[i]);
    for (int k = 0; k < n; k++) {
      bool due = x[k].live && x[k].on && x[k].at == i;
      vf_check(x[k].runs == before[k] + due, "exactly the enabled actions at the address are performed, once");
      if (due) vf_check(x[k].where == mem.address[i] && x[k].ran_id == x[k].id, "an action gets its address and id");
    }
    if (!set[i]) vf_check(!m.HasActionPoint(mem.address[i]), "an address where no action was set has no action point");
    for (int k = 0; k < n; k++) if (x[k].live && x[k].at == i) vf_check(m.HasActionPoint(mem.address[i]), "an address with an action has an action point");
  }
  vf_reach("actions");
}
// Three actions at one address, disabled, enabled and cleared in any order.
VF_ENTRY(action_three) {
  auto& mem = *new Memory; ActionPointManagerBase& m = *new ActionPointManagerBase(&mem);
  uint64_t a = mem.address[0] = vf_u64("a"); mem.address[1] = a;
  Action x[4]; int n = 3;
  auto add = [&](Action* y) {
    auto r = m.SetAction(a, [y](uint64_t, int) { y->runs++; });
    vf_check(r.ok(), "set");
    y->live = y->on = true; y->id = *r;
  };
  for (int k = 0; k < 3; k++) add(&x[k]);
  for (int step = 0; step < VF_N(5, 6); step++) {
    int k = vf_choose("which", 0, 2);
    Action& y = x[k];
    if (!y.live) vf_prune();
    int op = vf_choose("op", 0, 2);
    absl::Status s = op == 0 ? m.DisableAction(a, y.id) : op == 1 ? m.EnableAction(a, y.id) : m.ClearAction(a, y.id);
    vf_check(s.ok(), "an operation fails only without such an action");
    if (op == 2) y.live = false; else y.on = op == 1;
    bool active = false;
    for (int i = 0; i < n; i++) active |= x[i].live && x[i].on;
    vf_check(m.IsActionPointActive(a) == active, "an address is active if an action at it is enabled");
    vf_check(mem.brk[0] == active, "there is a breakpoint instruction exactly where an action is enabled");
  }
  if (vf_choose("again", 0, 1)) {
    add(&x[3]); n = 4;
    vf_check(m.IsActionPointActive(a) && mem.brk[0], "a new action is enabled");
  }
  m.PerformActions(a);
  for (int k = 0; k < n; k++) vf_check(x[k].runs == (x[k].live && x[k].on), "exactly the enabled actions at the address are performed, once");
  vf_reach("three");
}
VF_ENTRY(breakpoint_history) {
  auto& mem = *new Memory; auto& m = *new ActionPointManagerBase(&mem);
  mem.address[0] = vf_u64("a"); mem.address[1] = vf_u64("b");
  vf_assume(mem.address[0] != mem.address[1]);
  int halts = 0, others = 0;
  auto& b = *new BreakpointManager(&m, [&]() { halts++; });
  // Another user of the action points.
  bool other = vf_choose("other", 0, 1);
  if (other) vf_check(m.SetAction(mem.address[0], [&](uint64_t, int) { others++; }).ok(), "set");
  mem.may_fail = vf_choose("may_fail", 0, 1);
  bool set[2] = {}, on[2] = {};
  for (int step = 0; step < VF_N(4, 5); step++) {
    mem.failed = false;
    int at = vf_choose("at", 0, 1); uint64_t a = mem.address[at];
    switch (vf_choose("op", 0, 4)) {
      case 0: { bool ok = b.SetBreakpoint(a).ok(); vf_check(ok == (!set[at] && !mem.failed), "a breakpoint can be set once"); if (ok) set[at] = on[at] = true; break; }
      case 1: { bool ok = b.ClearBreakpoint(a).ok(); vf_check(ok == (set[at] && !mem.failed), "a breakpoint that is set can be cleared"); if (ok) set[at] = false; break; }
      case 2: { bool ok = b.EnableBreakpoint(a).ok(); vf_check(ok == (set[at] && !mem.failed), "a breakpoint that is set can be enabled"); if (ok) on[at] = true; break; }
      case 3: { bool ok = b.DisableBreakpoint(a).ok(); vf_check(ok == (set[at] && !mem.failed), "a breakpoint that is set can be disabled"); if (ok) on[at] = false; break; }
      default: if (mem.may_fail) vf_prune(); b.ClearAllBreakpoints(); set[0] = set[1] = false; break;
    }
  }
  for (int i = 0; i < 2; i++) {
    bool act = set[i] && on[i];
    vf_check(b.HasBreakpoint(mem.address[i]) == set[i] && b.IsBreakpoint(mem.address[i]) == act, "breakpoints are as last set");
    if (act || (other && i == 0)) vf_check(mem.brk[i], "there is a breakpoint instruction at enabled breakpoints and actions");
    else if (!mem.may_fail) vf_check(!mem.brk[i], "the original instruction is restored elsewhere");
    int h = halts, o = others;
    m.PerformActions(mem.address[i]);
    vf_check(halts == h + act, "execution halts exactly at enabled breakpoints");
    vf_check(others == o + (other && i == 0), "other actions are not affected by breakpoints");
    if (act) vf_check(b.last_breakpoint_address() == mem.address[i], "the address of the last breakpoint is known");
  }
  vf_reach("breakpoints");
}
// Everything is released.
VF_ENTRY(action_leaks) {
  long before = vf_heap_live();
  {
    Memory mem; mem.address[0] = 16; mem.address[1] = 32;
    ActionPointManagerBase m(&mem);
    BreakpointManager b(&m, []() {});
    for (int k = 0; k < 3; k++) {
      uint64_t a = mem.address[vf_choose("at", 0, 1)];
      switch (vf_choose("op", 0, 4)) {
        case 0: (void)b.SetBreakpoint(a); break;
        case 1: (void)b.ClearBreakpoint(a); break;
        case 2: (void)m.SetAction(a, [](uint64_t, int) {}); break;
        case 3: (void)m.ClearAction(a, 0); break;
        default: b.ClearAllBreakpoints(); break;
      }
    }
    if (vf_choose("all", 0, 1)) m.ClearAllActionPoints();
  }
  vf_check(vf_heap_live() == before, "nothing is leaked");
  vf_reach("leaks");
}
