// Fifos deliver what was pushed, in order, within their capacity.
// SRC: generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: capacities 0..3, histories of 5 (quick) or 7 (thorough) push/pop/front/reserve/delayed push/advance operations with any values; element types of 8 to 64 bits; imported depths 0..3 over them
// ASSUME: reservations are not negative
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/fifo.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct State : ArchState { State() : ArchState("state") {} };
void History(int ops, int maxcap, bool errors, bool leaks = false) {
  long base = vf_heap_live();
  {
    State* st = new State();
    unsigned cap = vf_choose("capacity", 0, maxcap);
    auto* f = st->AddFifo<Fifo<uint32_t>>("f", cap);
    ProgramErrorController pec("errors");
    if (errors) {
      pec.AddProgramErrorName("over"); pec.AddProgramErrorName("under");
      auto o = pec.GetProgramError("over"), u = pec.GetProgramError("under");
      f->SetOverflowProgramError(&o); f->SetUnderflowProgramError(&u);
    }
    SourceOperandInterface* s = f->CreateSourceOperand();
    DestinationOperandInterface* d = f->CreateDestinationOperand(1);
    vf_check(f->Capacity() == cap && f->IsEmpty() && f->Available() == 0 && f->Reserved() == 0, "a new fifo is empty");
    uint32_t q[16]; unsigned head = 0, tail = 0; unsigned res = 0; int over = 0, under = 0;
    uint32_t pending[8]; int np = 0;
    DataBuffer* dbs[16];
    auto push = [&](uint32_t v, DataBuffer* db) -> bool {
      if (res > 0) res--;
      if (tail - head + res >= cap) { over++; return false; }
      q[tail] = v; dbs[tail] = db; tail++;
      return true;
    };
    for (int k = 0; k < ops; k++) {
      switch (vf_choose("op", 0, 5)) {
        case 0: {
          DataBuffer* db = d->AllocateDataBuffer();
          vf_check(db->size<uint8_t>() == 4, "element size");
          uint32_t v = vf_u32("value");
          db->Set<uint32_t>(0, v);
          bool ok = f->Push(db);
          vf_check(ok == push(v, db), "a push is accepted exactly if there is room");
          vf_check(db->ref_count() == 1 + ok, "an accepted element is held by the fifo");
          db->DecRef();
          break;
        }
        case 1:
          f->Pop();
          if (head == tail) under++; else head++;
          break;
        case 2: {
          DataBuffer* db = f->Front();
          if (head == tail) { under++; vf_check(db == nullptr, "an empty fifo has no front"); }
          else vf_check(db == dbs[head], "the front is the oldest element");
          break;
        }
        case 3: {
          int n = vf_choose("count", 1, 2);
          f->Reserve(n); res += n;
          break;
        }
        case 4: {
          DataBuffer* db = d->AllocateDataBuffer();
          uint32_t v = vf_u32("value");
          pending[np++] = v;
          db->SetSubmit<uint32_t>(0, v);
          break;
        }
        default:
          st->AdvanceDelayLines();
          for (int i = 0; i < np; i++) push(pending[i], nullptr);
          // The buffers are only known to the fifo.
          np = 0;
          for (unsigned i = head; i < tail; i++) if (!dbs[i] && i == head) dbs[i] = f->Front();
          break;
      }
      vf_check(f->Available() == tail - head, "the number of elements");
      vf_check(f->Reserved() == res, "the number of reservations");
      vf_check(f->IsEmpty() == (tail == head && res == 0), "empty");
      vf_check(f->IsFull() == (tail - head + res >= cap), "full");
      vf_check(f->IsOverSubscribed() == (tail - head + res > cap), "oversubscribed");
      if (head != tail) {
        dbs[head] = f->Front();
        vf_check(dbs[head]->ref_count() == 1, "the fifo holds one reference to each element");
        vf_check(s->AsUint32(0) == q[head] && s->AsInt64(0) == (int64_t)(int32_t)q[head], "the operand reads the front element");
      }
    }
    if (errors) {
      bool o = false, u = false;
      for (auto& n : pec.GetUnmaskedErrorNames()) { o |= n == "over"; u |= n == "under"; }
      vf_check(o == (over > 0), "an overflow is reported");
      vf_check(u == (under > 0), "an underflow is reported");
      vf_check((int)pec.GetErrorMessages("over").size() == over && (int)pec.GetErrorMessages("under").size() == under, "every overflow and underflow is reported");
    }
    int left = vf_choose("drain", 0, 1) ? tail - head : 0;
    for (; left > 0; left--) { vf_check(f->Front()->Get<uint32_t>(0) == q[head], "elements leave in the order they came"); f->Pop(); head++; }
    if (!leaks) { vf_reach("history"); return; }
    delete s; delete d;
    delete st;
    vf_reach("history");
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
template <typename T>
void Read() {
  using S = typename std::make_signed<T>::type; using U = typename std::make_unsigned<T>::type;
  State st;
  VectorFifo<T, 2> f(&st, "f", 2);
  SourceOperandInterface* s = f.CreateSourceOperand();
  vf_check(s->AsUint64(0) == 0 && s->AsInt8(1) == 0, "reading an empty fifo gives zero");
  DestinationOperandInterface* d = f.CreateDestinationOperand(0);
  vf_check(d->CopyDataBuffer() == nullptr && d->shape() == f.shape() && s->shape() == f.shape() && f.size() == 2 * sizeof(T), "shape and size");
  DataBuffer* db = d->AllocateDataBuffer();
  T v[2] = {(T)vf_u64("value"), (T)vf_u64("value")};
  db->Set<T>(0, v[0]); db->Set<T>(1, v[1]);
  db->Submit();
  for (int i = 0; i < 2; i++) {
    S x = (S)v[i]; U y = (U)v[i];
    vf_check(s->AsBool(i) == (y != 0), "as bool");
    vf_check(s->AsInt8(i) == (int8_t)x && s->AsInt16(i) == (int16_t)x && s->AsInt32(i) == (int32_t)x && s->AsInt64(i) == (int64_t)x, "signed reads extend the sign");
    vf_check(s->AsUint8(i) == (uint8_t)y && s->AsUint16(i) == (uint16_t)y && s->AsUint32(i) == (uint32_t)y && s->AsUint64(i) == (uint64_t)y, "unsigned reads extend with zeros");
  }
  vf_check(std::any_cast<FifoBase*>(s->GetObject()) == &f && std::any_cast<FifoBase*>(d->GetObject()) == &f && s->AsString() == "f", "operands refer to the fifo");
  delete s; delete d;
}
}  // namespace
VF_ENTRY(ff_history) { History(VF_N(5, 6), 2, false); }
VF_ENTRY(ff_leaks) { History(VF_N(2, 3), 2, false, true); }
VF_ENTRY(ff_errors) { History(VF_N(4, 5), 3, true); }

VF_ENTRY(ff_u8) { Read<uint8_t>(); }
VF_ENTRY(ff_i16) { Read<int16_t>(); }
VF_ENTRY(ff_u32) { Read<uint32_t>(); }
VF_ENTRY(ff_u64) { Read<uint64_t>(); }
VF_ENTRY(ff_order) {
  // Fill, drain and wrap around.
  State st;
  Fifo<uint16_t> f(&st, "f", 3);
  DataBuffer* db[6];
  for (auto& b : db) { b = st.db_factory()->Allocate(2); b->Set<uint16_t>(0, vf_u16("value")); }
  int in = 0, out = 0;
  for (int k = 0; k < VF_N(8, 10); k++) {
    if (vf_choose("push", 0, 1)) { if (in == 6) vf_prune(); bool ok = in - out < 3; vf_check(f.Push(db[in]) == ok, "a push is accepted exactly if there is room"); if (!ok) vf_prune(); in++; }
    else { if (in == out) vf_prune(); vf_check(f.Front() == db[out], "elements leave in the order they came"); f.Pop(); out++; }
  }
  for (auto& b : db) b->DecRef();
}
VF_ENTRY(ff_same_buffer) {
  // The same buffer may be pushed more than once.
  State st;
  Fifo<uint16_t> f(&st, "f", 3);
  DataBuffer* db = st.db_factory()->Allocate(2);
  DataBuffer* other = st.db_factory()->Allocate(2);
  DataBuffer* q[3]; int n = 0, held[2] = {0, 0};
  for (int k = 0; k < VF_N(5, 7); k++) {
    int op = vf_choose("op", 0, 2);
    if (op == 2) {
      f.Pop();
      if (n) { held[q[0] == other]--; for (int i = 1; i < n; i++) q[i - 1] = q[i]; n--; }
    } else {
      DataBuffer* b = op ? other : db;
      bool ok = op && vf_choose("deliver", 0, 1) ? (f.SetDataBuffer(b), n < 3) : f.Push(b);
      vf_check(ok == (n < 3), "a push is accepted exactly if there is room");
      if (n < 3) { q[n++] = b; held[op]++; }
    }
    vf_check(db->ref_count() == 1 + held[0] && other->ref_count() == 1 + held[1], "the fifo holds one reference for each element");
    vf_check((int)f.Available() == n && (n == 0 || f.Front() == q[0]), "the elements are kept in order");
  }
  db->DecRef(); other->DecRef();
  vf_reach("same");
}
VF_ENTRY(ff_depth) {
  // The capacity is the depth that was configured.
  State st;
  int cap = vf_choose("capacity", 0, 3);
  Fifo<uint16_t> f(&st, "f", cap);
  DataBuffer* db = st.db_factory()->Allocate(2);
  int n = vf_choose("before", 0, 2);
  for (int i = 0; i < n; i++) f.Push(db);
  if (n > cap) n = cap;
  mpact::sim::proto::ComponentData data;
  data.set_name("f");
  int set = vf_choose("set", 0, 1), depth = cap;
  if (set) {
    auto* e = data.add_configuration();
    e->set_name("depth");
    depth = vf_choose("depth", 0, 3);
    e->set_uint64_value(depth);
  }
  vf_check(f.Import(data).ok(), "the configuration is imported");
  vf_check((int)f.Capacity() == depth, "the capacity is the configured depth");
  vf_check(f.IsFull() == (n >= depth) && f.IsOverSubscribed() == (n > depth) && (int)f.Available() == n, "elements are kept when the depth changes");
  vf_check(f.Push(db) == (n < depth), "a push is accepted exactly if there is room");
  db->DecRef();
  vf_reach("depth");
}
