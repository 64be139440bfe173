// Registers hold the last value written back; operands read and write them.
// SRC: generic/register.cc generic/control_register.cc generic/fifo.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: destination operands with a delay line of their own, latencies 1..3
// BOUND: scalar registers of 8 to 64 bits, signed and unsigned, 4 element vectors and 2x3 matrices, all values; three writes (quick: two) at latencies 0..3 and gaps 0..2, from any of two operands; write-back interleaved with reads every cycle
// ASSUME: buffers written to a register have the size of the register
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/simple_resource.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct State : ArchState {
  State() : ArchState("state") {}
  DataBufferDelayLine* Line() { return CreateAndAddDelayLine<DataBufferDelayLine>(8); }
};
template <typename T>
void CheckRead(SourceOperandInterface* op, int i, T v) {
  using U = typename std::make_unsigned<T>::type; using S = typename std::make_signed<T>::type;
  vf_check(op->AsBool(i) == (v != 0), "read as bool");
  vf_check(op->AsInt8(i) == (int8_t)v, "read as int8");
  vf_check(op->AsUint8(i) == (uint8_t)v, "read as uint8");
  vf_check(op->AsInt16(i) == (int16_t)(S)v, "read as int16 extends the sign");
  vf_check(op->AsUint16(i) == (uint16_t)v, "read as uint16");
  vf_check(op->AsInt32(i) == (int32_t)(S)v, "read as int32 extends the sign");
  vf_check(op->AsUint32(i) == (uint32_t)v, "read as uint32");
  vf_check(op->AsInt64(i) == (int64_t)(S)v, "read as int64 extends the sign");
  vf_check(op->AsUint64(i) == (uint64_t)v, "read as uint64");
  (void)sizeof(U);
}
template <typename T>
void Scalar() {
  State st;
  Register<T>* r = st.AddRegister<Register<T>>("r");
  SourceOperandInterface* s = r->CreateSourceOperand();
  DestinationOperandInterface* d = r->CreateDestinationOperand(0);
  vf_check(r->size() == (int)sizeof(T) && r->data_buffer()->template size<T>() == 1, "register size");
  CheckRead<T>(s, 0, 0);
  T v = (T)vf_u64("value");
  DataBuffer* db = d->AllocateDataBuffer();
  vf_check(db->size<uint8_t>() == (int)sizeof(T), "the buffer of a destination has the size of the register");
  db->Set<T>(0, v);
  CheckRead<T>(s, 0, 0);
  db->Submit();
  CheckRead<T>(s, 0, v);
  vf_observe("read", s->AsUint64(0));
  delete s; delete d;
}
// Writes with latencies: at every cycle the register holds the last value due.
void Schedule(int kind) {
  long base = vf_heap_live();
  {
    State* st = new State();
    SimpleResourcePool* pool = new SimpleResourcePool("pool", 4);
    SimpleResource* res = pool->GetOrAddResource("r");
    RegisterBase* reg; SourceOperandInterface* src; DestinationOperandInterface* dst[2];
    int lat[2] = {(int)vf_choose("latency", 0, 3), (int)vf_choose("latency", 0, 3)};
    if (kind == 0) {
      auto* r = st->AddRegister<Register<uint32_t>>("r"); reg = r;
      src = r->CreateSourceOperand(); for (int i = 0; i < 2; i++) dst[i] = r->CreateDestinationOperand(lat[i]);
    } else {
      auto* r = st->AddRegister<ReservedRegister<uint32_t>>("r", res); reg = r;
      vf_check(r->resource() == res, "the register knows its resource");
      src = r->CreateSourceOperand(); for (int i = 0; i < 2; i++) dst[i] = r->CreateDestinationOperand(lat[i], "dest");
    }
    for (int i = 0; i < 2; i++) vf_check(dst[i]->latency() == lat[i], "operand latency");
    const int K = VF_N(2, 3);
    int due[K], n = 0; uint32_t val[K]; int now = 0; uint32_t cur = 0;
    bool reserved = false;
    for (int i = 0; i < K; i++) {
      int gap = vf_choose("gap", 0, 2);
      for (int g = 0; g < gap; g++) {
        st->AdvanceDelayLines(); now++;
        for (int j = 0; j < n; j++) if (due[j] == now) { cur = val[j]; reserved = false; }
        vf_check(src->AsUint32(0) == cur, "the register holds the last value due");
        if (kind) vf_check(res->IsFree() == !reserved, "write-back releases the resource, and nothing else does");
      }
      int which = vf_choose("operand", 0, 1);
      if (kind) { res->Acquire(); reserved = true; }
      DataBuffer* db = dst[which]->AllocateDataBuffer();
      vf_check(db->latency() == lat[which], "the buffer carries the latency of its operand");
      val[n] = vf_u32("value"); due[n] = now + lat[which];
      db->SetSubmit<uint32_t>(0, val[n]);
      if (lat[which] == 0) { cur = val[n]; due[n] = -1; reserved = false; }
      n++;
      vf_check(src->AsUint32(0) == cur, "a write takes effect immediately only without latency");
    }
    for (int g = 0; g < 4; g++) {
      st->AdvanceDelayLines(); now++;
      for (int j = 0; j < n; j++) if (due[j] == now) { cur = val[j]; reserved = false; }
      vf_check(src->AsUint32(0) == cur, "the register holds the last value due");
      if (kind) vf_check(res->IsFree() == !reserved, "write-back releases the resource, and nothing else does");
    }
    vf_check(reg->data_buffer()->ref_count() == 1, "the register holds the only reference to its value");
    vf_check(st->cycle() == (uint64_t)now, "cycles are counted");
    delete src; delete dst[0]; delete dst[1];
    delete st; delete pool;
    vf_reach("done");
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
}  // namespace
VF_ENTRY(reg_u8) { Scalar<uint8_t>(); }
VF_ENTRY(reg_i8) { Scalar<int8_t>(); }
VF_ENTRY(reg_u16) { Scalar<uint16_t>(); }
VF_ENTRY(reg_i16) { Scalar<int16_t>(); }
VF_ENTRY(reg_u32) { Scalar<uint32_t>(); }
VF_ENTRY(reg_i32) { Scalar<int32_t>(); }
VF_ENTRY(reg_u64) { Scalar<uint64_t>(); }
VF_ENTRY(reg_i64) { Scalar<int64_t>(); }
VF_ENTRY(reg_schedule) { Schedule(0); }
VF_ENTRY(reg_reserved) { Schedule(1); }
// Partial updates of vectors and matrices.
template <typename R, typename T>
static void Partial(int n) {
  State st;
  R* r = st.AddRegister<R>("r");
  SourceOperandInterface* s = r->CreateSourceOperand();
  DestinationOperandInterface* d = r->CreateDestinationOperand(1);
  int total = 1;
  for (int x : s->shape()) total *= x;
  vf_check(total == n && d->shape() == s->shape() && r->shape() == s->shape(), "shape");
  vf_check(r->size() == (int)(n * sizeof(T)), "size in bytes");
  T init[8];
  DataBuffer* db = d->AllocateDataBuffer();
  vf_check(db->size<T>() == n, "the buffer has all elements");
  for (int i = 0; i < n; i++) { init[i] = (T)vf_u64("element"); db->Set<T>(i, init[i]); }
  db->Submit();
  st.AdvanceDelayLines();
  int i = vf_choose("index", 0, n - 1);
  T v = (T)vf_u64("value");
  DataBuffer* c = d->CopyDataBuffer();
  vf_check(c != r->data_buffer(), "a copy is a buffer of its own");
  c->Set<T>(i, v);
  for (int k = 0; k < n; k++) CheckRead<T>(s, k, init[k]);
  c->Submit();
  st.AdvanceDelayLines();
  for (int k = 0; k < n; k++) CheckRead<T>(s, k, k == i ? v : init[k]);
  delete s; delete d;
}
VF_ENTRY(reg_vector) { Partial<VectorRegister<uint16_t, 4>, uint16_t>(4); }
VF_ENTRY(reg_vector64) { Partial<VectorRegister<int64_t, 2>, int64_t>(2); }
VF_ENTRY(reg_matrix) { Partial<MatrixRegister<uint8_t, 2, 3>, uint8_t>(6); }
// Giving a register the buffer it already holds must keep the value alive.
VF_ENTRY(reg_same_buffer) {
  long base = vf_heap_live();
  {
    State* st = new State();
    auto* r = st->AddRegister<Register<uint32_t>>("r");
    DataBuffer* db = st->db_factory()->Allocate<uint32_t>(1);
    uint32_t v = vf_u32("value");
    db->Set<uint32_t>(0, v);
    r->SetDataBuffer(db);
    db->DecRef();
    int times = vf_choose("times", 0, 2);
    for (int i = 0; i < times; i++) r->SetDataBuffer(r->data_buffer());
    DataBuffer* other = st->db_factory()->Allocate<uint32_t>(1);
    if (other != r->data_buffer()) other->Set<uint32_t>(0, ~v);
    vf_check(other != r->data_buffer(), "the buffer of a register is not handed out");
    vf_check(r->data_buffer()->ref_count() == 1, "the register holds one reference");
    vf_check(r->data_buffer()->Get<uint32_t>(0) == v, "the value is kept");
    other->DecRef();
    delete st;
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
// A control register passes every write to its callback, and only the callback changes it.
VF_ENTRY(reg_control) {
  State st;
  bool pass = vf_choose("pass", 0, 1);
  int calls = 0; uint32_t seen = 0; bool self = true; ControlRegisterBase* expect = nullptr;
  ControlRegisterBase::UpdateCallbackFunction f = [&](ControlRegisterBase* r, DataBuffer* db) {
    calls++; seen = db->Get<uint32_t>(0); self &= r == expect;
    if (pass) r->RegisterBase::SetDataBuffer(db);
  };
  auto* r = new ControlRegister<uint32_t>(&st, "c", f);
  st.AddRegister(r);
  expect = r;
  SourceOperandInterface* s = r->CreateSourceOperand();
  int lat = vf_choose("latency", 0, 2);
  DestinationOperandInterface* d = r->CreateDestinationOperand(lat);
  uint32_t v = vf_u32("value");
  DataBuffer* db = d->AllocateDataBuffer();
  db->IncRef();
  db->SetSubmit<uint32_t>(0, v);
  for (int i = 0; i < 3; i++) { vf_check(calls == (i >= lat), "the callback runs once, after the latency"); st.AdvanceDelayLines(); }
  vf_check(calls == 1 && self && seen == v, "the callback sees the register and the value");
  vf_check(s->AsUint32(0) == (pass ? v : 0), "only the callback changes the register");
  vf_check(db->ref_count() == 1 + pass, "the buffer is released after the callback");
  db->DecRef();
  delete s; delete d;
}
// The register table: every name finds the register it was added for; all registers are owned once.
VF_ENTRY(reg_table) {
  long base = vf_heap_live();
  {
    State* st = new State();
    const char* names[] = {"a", "b", "alias"};
    RegisterBase* want[3] = {nullptr, nullptr, nullptr};
    auto* a = st->AddRegister<Register<uint8_t>>("a"); want[0] = a;
    auto* b = st->AddRegister<Register<uint64_t>>("b"); want[1] = b;
    for (int k = 0; k < 2; k++) switch (vf_choose("op", 0, 3)) {
      case 0: st->AddRegister("alias", a); if (!want[2]) want[2] = a; break;
      case 1: st->AddRegister("alias", b); if (!want[2]) want[2] = b; break;
      case 2: st->RemoveRegister("alias"); want[2] = nullptr; break;
      default: st->RemoveRegister("none"); break;
    }
    for (int i = 0; i < 3; i++) {
      auto it = st->registers()->find(names[i]);
      if (want[i]) vf_check(it != st->registers()->end() && it->second == want[i], "a name finds its register");
      else vf_check(it == st->registers()->end(), "a removed name finds nothing");
    }
    delete st;
  }
  vf_check(vf_heap_live() == base, "registers are freed exactly once, aliases or not");
}
// Operands with a delay line of their own: whatever way the buffer was obtained, its write is due on that line.
VF_ENTRY(reg_own_delay_line) {
  State st;
  auto* r = st.AddRegister<VectorRegister<uint32_t, 2>>("r");
  DataBufferDelayLine* own = vf_choose("created", 0, 1) ? st.Line() : new DataBufferDelayLine(8);
  int lat = vf_choose("latency", 1, 3);
  bool named = vf_choose("named", 0, 1);
  RegisterDestinationOperand<uint32_t>* d = named ? new RegisterDestinationOperand<uint32_t>(r, lat, "other", own) : new RegisterDestinationOperand<uint32_t>(r, lat, own);
  vf_check(d->AsString() == (named ? "other" : "r") && d->latency() == lat && d->GetRegister() == r, "operand attributes");
  DataBuffer* db;
  uint32_t b = vf_u32("value");
  switch (vf_choose("how", 0, 2)) {
    case 0: db = d->AllocateDataBuffer(); db->Set<uint32_t>(0, 0); break;
    case 1: db = d->CopyDataBuffer(); break;
    default: db = st.db_factory()->Allocate<uint32_t>(2); db->Set<uint32_t>(0, 0); d->InitializeDataBuffer(db);
  }
  vf_check(db->latency() == lat, "the buffer carries the latency of its operand");
  db->Set<uint32_t>(1, b);
  db->Submit();
  vf_check(st.data_buffer_delay_line()->IsEmpty() && !own->IsEmpty(), "the write is due on the operand's delay line");
  for (int i = 1; i <= lat; i++) {
    vf_check(r->data_buffer()->Get<uint32_t>(1) == 0, "no write before its latency");
    own->Advance();
  }
  vf_check(r->data_buffer()->Get<uint32_t>(1) == b && r->data_buffer()->Get<uint32_t>(0) == 0, "the register holds the value");
  vf_reach("own");
}
