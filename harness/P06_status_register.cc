// Status registers: each bit read is the current value of the condition attached to it.
// SRC: generic/state_item_base.cc generic/data_buffer.cc
// BOUND: 8, 16, 32 and 64 bit status registers with all condition values, all masks (16 bit masks of wider registers are applied at both ends of the register), signed and unsigned
#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/status_register.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
template <typename T>
struct World {
  using U = typename std::make_unsigned<T>::type;
  static constexpr int N = sizeof(T) * 8;
  StatusRegister<T>* reg = new StatusRegister<T>(nullptr, "status");
  SourceOperandInterface* op = reg->CreateSourceOperand();
  U cond = 0, set = 0, called = 0;
  void Attach(int i) {
    set |= (U)((U)1 << i);
    reg->SetEvaluateFunction(i, [this, i]() -> bool { called |= (U)((U)1 << i); return (cond >> i) & 1; });
  }
  void CheckOp(SourceOperandInterface* o, T v) {
    int i = (int)vf_u32("index");
    vf_check(o->AsBool(i) == (v != 0), "operand as bool");
    vf_check(o->AsInt8(i) == (int8_t)v, "operand as int8");
    vf_check(o->AsUint8(i) == (uint8_t)v, "operand as uint8");
    vf_check(o->AsInt16(i) == (int16_t)v, "operand as int16");
    vf_check(o->AsUint16(i) == (uint16_t)v, "operand as uint16");
    vf_check(o->AsInt32(i) == (int32_t)v, "operand as int32");
    vf_check(o->AsUint32(i) == (uint32_t)v, "operand as uint32");
    vf_check(o->AsInt64(i) == (int64_t)v, "operand as int64");
    vf_check(o->AsUint64(i) == (uint64_t)v, "operand as uint64");
  }
  ~World() { delete op; delete reg; }
};
template <typename T>
void Full(bool all) {
  World<T> w; using U = typename World<T>::U; const int N = World<T>::N;
  vf_check(w.reg->Read() == 0, "conditions default to false");
  if (all) for (int i = 0; i < N; i++) w.Attach(i);
  else { w.Attach(vf_choose("bit", 0, N - 1)); }
  w.cond = (U)vf_u64("conditions");
  T want = (T)(U)(w.cond & w.set);
  w.called = 0;
  vf_check(w.reg->Read() == want, "every bit reads its condition");
  vf_check(w.called == w.set, "every attached condition is evaluated");
  w.CheckOp(w.op, want);
  vf_check(std::any_cast<StatusRegisterBase<T>*>(w.op->GetObject()) == w.reg, "the operand refers to its register");
  vf_check(w.op->AsString() == "status" && w.op->shape().size() == 1 && w.op->shape()[0] == 1, "operand text and shape");
  // Conditions are evaluated at each read.
  w.cond = (U)vf_u64("conditions2");
  want = (T)(U)(w.cond & w.set);
  vf_check(w.reg->Read() == want, "a later read sees the later conditions");
  vf_reach("full");
}
template <typename T>
void Masked(T mask) {
  World<T> w; using U = typename World<T>::U; const int N = World<T>::N;
  for (int i = 0; i < N; i++) w.Attach(i);
  w.cond = (U)vf_u64("conditions");
  w.called = 0;
  vf_check(w.reg->Read(mask) == (T)(U)(w.cond & (U)mask), "a masked read returns exactly the selected conditions");
  vf_check(w.called == (U)mask, "only the selected conditions are evaluated");
  vf_reach("masked");
}
uint64_t Mask16(int width) {
  uint64_t m = vf_choose("mask", 0, VF_N(63, 255));
  int at = vf_choose("at", 0, 3) * (width - VF_N(6, 8)) / 3;
  return m << at;
}
}  // namespace
VF_ENTRY(sr_full8) { Full<uint8_t>(vf_choose("all", 0, 1)); }
VF_ENTRY(sr_full16) { Full<int16_t>(vf_choose("all", 0, 1)); }
VF_ENTRY(sr_full32) { Full<uint32_t>(vf_choose("all", 0, 1)); }
VF_ENTRY(sr_full32s) { Full<int32_t>(vf_choose("all", 0, 1)); }
VF_ENTRY(sr_full64) { Full<uint64_t>(vf_choose("all", 0, 1)); }
VF_ENTRY(sr_mask8) { Masked<uint8_t>((uint8_t)vf_choose("mask", 0, 255)); }
VF_ENTRY(sr_mask16) { Masked<int16_t>((int16_t)Mask16(16)); }
VF_ENTRY(sr_mask32) { Masked<uint32_t>((uint32_t)Mask16(32)); }
VF_ENTRY(sr_mask64) { Masked<uint64_t>(Mask16(64)); }
VF_ENTRY(sr_replace) {
  World<uint32_t> w;
  int i = vf_choose("bit", 0, 31);
  w.Attach(i);
  bool c = vf_bool("replacement");
  w.cond = vf_u32("conditions");
  w.reg->SetEvaluateFunction(i, [c]() -> bool { return c; });
  vf_check(w.reg->Read() == (uint32_t)c << i, "a replaced condition is no longer consulted");
}
// A status register is read only: data sent to it is dropped.
VF_ENTRY(sr_write) {
  long base = vf_heap_live();
  {
    World<uint32_t> w;
    for (int i = 0; i < 32; i++) w.Attach(i);
    w.cond = vf_u32("conditions");
    DataBufferFactory f;
    DataBufferDelayLine dl(4);
    DataBuffer* db = f.Allocate<uint32_t>(1);
    bool hold = vf_choose("hold", 0, 1);
    if (hold) db->IncRef();
    db->Set<uint32_t>(0, vf_u32("value"));
    db->set_destination(w.reg); db->set_delay_line(&dl);
    int lat = vf_choose("latency", 0, 2);
    db->Submit(lat);
    for (int i = 0; i < 3; i++) dl.Advance();
    vf_check(w.reg->Read() == w.cond, "writes to a status register are ignored");
    if (hold) { vf_check(db->ref_count() == 1, "exactly the submitted reference is released"); db->DecRef(); }
    DataBuffer* a = f.Allocate<uint32_t>(1); DataBuffer* b = f.Allocate<uint32_t>(1);
    vf_check(a != b, "a dropped buffer is recycled once");
    a->DecRef(); b->DecRef();
  }
  vf_check(vf_heap_live() == base, "no buffer is lost");
}
