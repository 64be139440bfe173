// Token fifos and notifying fifos: tokens account for elements, notifications for transitions.
// SRC: generic/token_fifo.cc generic/fifo_with_notify.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: one or two fifos sharing 0..3 tokens, histories of 5 (quick) or 6 (thorough) push/pop/reserve operations; notifying fifos of capacity 0..2 with callbacks set, cleared and replaced, histories of 5 (quick) or 7 (thorough) operations
// ASSUME: a token fifo is as deep as its token store
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/token_fifo.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct State : ArchState { State() : ArchState("state") {} };
void Tokens(int ops, int nf, int maxreserve) {
  State* st = new State();
  unsigned cap = vf_choose("tokens", 0, 3);
  FifoTokenStore store(cap);
  vf_check(store.capacity() == cap && store.available() == cap, "all tokens are available at first");
  TokenFifo<uint32_t>* f[2];
  ProgramErrorController pec("errors");
  pec.AddProgramErrorName("over"); pec.AddProgramErrorName("under");
  // Without error controllers the fifo behaves the same and reports nothing.
  bool report = nf > 1 || vf_choose("report", 0, 1);
  for (int i = 0; i < nf; i++) {
    f[i] = new TokenFifo<uint32_t>(st, i ? "g" : "f", cap, &store);
    auto o = pec.GetProgramError("over"), u = pec.GetProgramError("under");
    if (report) { f[i]->SetOverflowProgramError(&o); f[i]->SetUnderflowProgramError(&u); }
  }
  DataBuffer* q[2][8]; unsigned head[2] = {0, 0}, tail[2] = {0, 0}; unsigned res[2] = {0, 0};
  for (int k = 0; k < ops; k++) {
    int i = nf > 1 ? vf_choose("fifo", 0, 1) : 0;
    pec.ClearAll();
    unsigned free = store.available();
    switch (vf_choose("op", 0, maxreserve ? 2 : 1)) {
      case 0: {
        DataBuffer* db = st->db_factory()->Allocate<uint32_t>(1);
        unsigned before = f[i]->Available();
        bool ok = f[i]->Push(db);
        vf_check(f[i]->Available() == before + ok, "a push reports whether the element was accepted");
        vf_check(db->ref_count() == 1 + ok, "exactly the accepted elements are held");
        if (free == 0) vf_check(!ok, "no element is accepted without a token");
        if (free > 0 && res[0] + res[1] <= free) vf_check(ok, "an element is accepted if a token is available");
        vf_check(pec.HasError() == (report && !ok), "a rejected push is reported as an overflow");
        if (ok) q[i][tail[i]++] = db;
        else db->DecRef();
        if (res[i] > 0 && ok) res[i]--; else res[i] = f[i]->Reserved();
        break;
      }
      case 1: {
        bool had = head[i] != tail[i];
        DataBuffer* db = had ? q[i][head[i]] : nullptr;
        f[i]->Pop();
        vf_check(pec.HasError() == (report && !had), "popping without an element is reported as an underflow");
        if (had) { vf_check(db->ref_count() == 1, "the popped element is released"); db->DecRef(); head[i]++; }
        break;
      }
      default: { int n = vf_choose("count", 1, maxreserve); f[i]->Reserve(n); res[i] += n; break; }
    }
    unsigned held = 0;
    for (int j = 0; j < nf; j++) {
      held += f[j]->Available();
      vf_check(f[j]->Available() == tail[j] - head[j], "the number of elements");
      vf_check(f[j]->Reserved() == res[j], "the number of reservations");
      vf_check(f[j]->IsFull() == (store.available() == 0 || res[j] >= store.available()), "full");
      vf_check(f[j]->IsOverSubscribed() == (res[j] > store.available()), "oversubscribed");
      vf_check(f[j]->IsEmpty() == (tail[j] == head[j] && res[j] == 0), "empty");
      if (head[j] != tail[j]) vf_check(f[j]->Front() == q[j][head[j]], "elements leave in the order they came");
    }
    vf_check(store.available() + held == cap, "every element in a fifo holds exactly one token");
  }
  vf_reach("tokens");
}
}  // namespace
VF_ENTRY(tf_one) { Tokens(VF_N(6, 8), 1, 0); }
VF_ENTRY(tf_one_reserve) { Tokens(VF_N(5, 6), 1, 3); }
VF_ENTRY(tf_two) { Tokens(VF_N(5, 6), 2, 0); }
VF_ENTRY(tf_two_reserve) { Tokens(VF_N(3, 4), 2, 2); }
VF_ENTRY(tf_store) {
  unsigned cap = vf_choose("tokens", 0, 3), avail = cap;
  FifoTokenStore s(cap);
  for (int k = 0; k < VF_N(6, 8); k++) {
    if (vf_choose("acquire", 0, 1)) { vf_check(s.Acquire().ok() == (avail > 0), "a token is granted exactly if one is available"); if (avail) avail--; }
    else { vf_check(s.Release().ok() == (avail < cap), "a token is taken back only if one is out"); if (avail < cap) avail++; }
    vf_check(s.available() == avail && s.capacity() == cap, "tokens are conserved");
  }
}
// Notifications happen exactly at the transitions between empty and not empty.
VF_ENTRY(nf_history) {
  State* st = new State();
  unsigned cap = vf_choose("capacity", 0, 2);
  auto* f = new FifoWithNotify<uint32_t>(st, "f", cap);
  int not_empty = 0, empty = 0; bool set[2] = {false, false}, good = true;
  FifoWithNotifyBase* self = f;
  DataBuffer* q[8]; unsigned head = 0, tail = 0, res = 0;
  unsigned seen = 99;
  auto on_not = [&](FifoWithNotifyBase* x) { not_empty++; good &= x == self; seen = x->Available(); };
  auto on_empty = [&](FifoWithNotifyBase* x) { empty++; good &= x == self; seen = x->Available(); };
  if (vf_choose("start", 0, 1)) { f->SetOnNotEmpty(on_not); f->SetOnEmpty(on_empty); set[0] = set[1] = true; }
  for (int k = 0; k < VF_N(5, 7); k++) {
    int b0 = not_empty, b1 = empty;
    bool was = tail == head && res == 0;
    switch (vf_choose("op", 0, 4)) {
      case 0: {
        DataBuffer* db = st->db_factory()->Allocate<uint32_t>(1);
        unsigned r = res ? res - 1 : 0;
        bool ok = tail - head + r < cap;
        vf_check(f->Push(db) == ok, "a push is accepted exactly if there is room");
        res = r;
        if (ok) q[tail++] = db; else db->DecRef();
        vf_check(not_empty == b0 + (set[0] && was && ok), "leaving the empty state is notified once");
        vf_check(empty == b1, "a push never notifies that the fifo is empty");
        if (not_empty != b0) vf_check(seen == 1, "the element is there when the notification comes");
        break;
      }
      case 1:
        f->Pop();
        if (tail != head) { q[head]->DecRef(); head++; }
        vf_check(empty == b1 + (set[1] && !was && tail == head && res == 0), "reaching the empty state is notified once");
        vf_check(not_empty == b0, "a pop never notifies that the fifo is not empty");
        break;
      case 2: f->SetOnNotEmpty(nullptr); set[0] = false; break;
      case 3: f->SetOnEmpty(nullptr); set[1] = false; break;
      default: if (vf_choose("reserve", 0, 1)) { f->Reserve(1); res++; } else { f->SetOnEmpty(on_empty); set[1] = true; } break;
    }
    vf_check(f->Available() == tail - head && f->Reserved() == res, "contents");
    if (tail != head) vf_check(f->Front() == q[head], "elements leave in the order they came");
    vf_check(good, "callbacks get the fifo");
  }
  vf_reach("notify");
}
