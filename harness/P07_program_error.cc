// Program error controller: raised errors stay visible, with their messages, until cleared.
// SRC: generic/program_error.cc
// BOUND: histories of 4 (quick) or 6 (thorough) operations (raise, clear, clear all, mask, unmask, query, add, over two registered, one unregistered and the internal error name) on one controller
// BOUND: three errors in each combination of raised and masked, followed by 2 (quick) or 3 (thorough) operations
#include <string>
#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/program_error.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
const char* kNames[] = {ProgramErrorController::kInternalErrorName, "first", "second", "third", "unknown"};
struct M { bool known = false, raised = false, masked = false; int msgs = 0; bool own = false; char last = 0; };
struct World {
  ProgramErrorController c{"ctrl"};
  M m[5];
  void Internal() { m[0].raised = true; m[0].msgs++; m[0].own = false; }
  void Raise(int i, char tag) {
    if (!m[i].known) { Internal(); return; }
    m[i].raised = true; m[i].msgs++; m[i].own = true; m[i].last = tag;
  }
  void Op(int nn, int nops) {
    int op = vf_choose("op", 0, nops - 1);
    int i = op == 2 ? 0 : vf_choose("name", 0, nn - 1);
    switch (op) {
      case 0: { char t = (char)vf_u8("text"); c.Raise(kNames[i], std::string(1, t)); Raise(i, t); break; }
      case 1: c.Clear(kNames[i]); if (m[i].known) { m[i].raised = false; m[i].msgs = 0; } else Internal(); break;
      case 2: c.ClearAll(); for (auto& x : m) { x.raised = false; x.msgs = 0; } break;
      case 3: c.Mask(kNames[i]); if (!m[i].known || i == 0) Internal(); else m[i].masked = true; break;
      case 4: c.Unmask(kNames[i]); if (!m[i].known) Internal(); else m[i].masked = false; break;
      case 5: {
        vf_check(c.IsMasked(kNames[i]) == m[i].masked, "masking state is reported");
        if (!m[i].known) Internal();
        break;
      }
      case 6: {
        bool r = c.AddProgramErrorName(kNames[i]);
        vf_check(r == !m[i].known, "a name is added exactly once");
        if (m[i].known) Internal(); else m[i].known = true;
        break;
      }
      default: {
        auto e = c.GetProgramError(kNames[i]);
        vf_check((e != nullptr) == m[i].known, "handles exist exactly for known names");
        if (e) { vf_check(e->name() == kNames[i], "handle name"); char t = (char)vf_u8("text"); e->Raise(std::string(1, t)); Raise(i, t); }
        break;
      }
    }
    Check();
  }
  void Check() {
    bool mk = false, un = false; int nm = 0, nu = 0;
    for (auto& x : m) if (x.raised) { if (x.masked) { mk = true; nm++; } else { un = true; nu++; } }
    vf_check(c.HasMaskedError() == mk, "a masked error is reported exactly while one is active");
    vf_check(c.HasUnmaskedError() == un, "an unmasked error is reported exactly while one is active");
    vf_check(c.HasError() == (mk || un), "an error is reported exactly while one is active");
    auto ms = c.GetMaskedErrorNames(); auto us = c.GetUnmaskedErrorNames();
    vf_check((int)ms.size() == nm && (int)us.size() == nu, "each active error is listed once");
    for (int i = 0; i < 5; i++) {
      vf_check(c.HasProgramErrorName(kNames[i]) == m[i].known, "known names");
      if (!m[i].known) continue;
      vf_check(c.IsMasked(kNames[i]) == m[i].masked, "masking state is reported");
      int a = 0, b = 0;
      for (auto& s : ms) if (s == kNames[i]) a++;
      for (auto& s : us) if (s == kNames[i]) b++;
      vf_check(a == (m[i].raised && m[i].masked) && b == (m[i].raised && !m[i].masked), "active errors are listed under their masking state");
      auto& msgs = c.GetErrorMessages(kNames[i]);
      vf_check((int)msgs.size() == m[i].msgs, "all messages since the last clear are kept");
      if (m[i].msgs && m[i].own) vf_check(msgs.back().size() == 1 && msgs.back()[0] == m[i].last, "messages are kept in order");
    }
  }
};
void History(int ops, int nn, int nops) {
  World w;
  w.m[0].known = true;
  w.c.AddProgramErrorName(kNames[1]); w.m[1].known = true;
  w.c.AddProgramErrorName(kNames[2]); w.m[2].known = true;
  w.Check();
  for (int i = 0; i < ops; i++) w.Op(nn, nops);
  vf_check(w.c.name() == "ctrl", "controller name");
  if (nops > 5 && vf_choose("ask_unknown", 0, 1)) {
    auto& m = w.c.GetErrorMessages("nobody");
    w.Internal();
    vf_check((int)m.size() == w.m[0].msgs, "an unknown name is reported as an internal error");
    w.Check();
  }
  vf_reach("end");
}
}  // namespace
VF_ENTRY(pe_one) { History(VF_N(4, 6), 2, 5); }
VF_ENTRY(pe_two) { History(VF_N(3, 5), 3, 5); }
VF_ENTRY(pe_all) { History(VF_N(2, 3), 5, 8); }
// Three errors in every combination of raised and masked, then further operations.
VF_ENTRY(pe_combined) {
  World w;
  w.m[0].known = true;
  for (int i = 1; i < 4; i++) { w.c.AddProgramErrorName(kNames[i]); w.m[i].known = true; }
  bool mask_first = vf_choose("mask_first", 0, 1);
  for (int i = 1; i < 4; i++) {
    int s = vf_choose("state", 0, 3);
    char t = (char)vf_u8("text");
    if ((s & 2) && mask_first) { w.c.Mask(kNames[i]); w.m[i].masked = true; }
    if (s & 1) { w.c.Raise(kNames[i], std::string(1, t)); w.Raise(i, t); }
    if ((s & 2) && !mask_first) { w.c.Mask(kNames[i]); w.m[i].masked = true; }
  }
  w.Check();
  for (int k = 0; k < VF_N(2, 3); k++) {
    int i = vf_choose("name", 1, VF_N(2, 3));
    switch (vf_choose("op", 0, 4)) {
      case 0: { char t = (char)vf_u8("text"); w.c.Raise(kNames[i], std::string(1, t)); w.Raise(i, t); break; }
      case 1: w.c.Clear(kNames[i]); w.m[i].raised = false; w.m[i].msgs = 0; break;
      case 2: w.c.ClearAll(); for (auto& x : w.m) { x.raised = false; x.msgs = 0; } break;
      case 3: w.c.Mask(kNames[i]); w.m[i].masked = true; break;
      default: w.c.Unmask(kNames[i]); w.m[i].masked = false; break;
    }
    w.Check();
  }
  vf_reach("end");
}
