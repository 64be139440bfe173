// Immediate and literal operands deliver their constant, converted to the requested type.
// BOUND: vectors of up to 20 (quick) or 70 (thorough) elements
// BOUND: every value of every operand type (8 to 64 bit, signed and unsigned, bool); every element index of 1 to 4 element vectors; the literals 0, 1, -1, 255, 32768, INT_MIN, INT_MAX
#include "absl/strings/str_cat.h"
#include "mpact/sim/generic/immediate_operand.h"
#include "mpact/sim/generic/literal_operand.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
// v: the value sign- or zero-extended from its type to 64 bits.
void All(SourceOperandInterface* op, int i, uint64_t v) {
  vf_check(op->AsBool(i) == (v != 0), "as bool");
  vf_check(op->AsInt8(i) == (int8_t)v, "as int8");
  vf_check(op->AsUint8(i) == (uint8_t)v, "as uint8");
  vf_check(op->AsInt16(i) == (int16_t)v, "as int16");
  vf_check(op->AsUint16(i) == (uint16_t)v, "as uint16");
  vf_check(op->AsInt32(i) == (int32_t)v, "as int32");
  vf_check(op->AsUint32(i) == (uint32_t)v, "as uint32");
  vf_check(op->AsInt64(i) == (int64_t)v, "as int64");
  vf_check(op->AsUint64(i) == v, "as uint64");
  vf_check(!op->GetObject().has_value(), "a constant has no underlying state object");
}
template <typename T>
void Imm() {
  T val = (T)vf_u64("value");
  uint64_t ext = (uint64_t)(int64_t)val;
  int idx = (int)vf_u32("index");
  // An operand and one with a shape and a name; the value reaches every index.
  ImmediateOperand<T> named(val, "name");
  All(&named, idx, ext);
  vf_check(named.shape().size() == 1 && named.shape()[0] == 1, "a scalar has shape {1}");
  vf_check(named.AsString() == "name", "the given text is kept");
  int d = vf_choose("dim", 1, 3);
  ImmediateOperand<T> shaped(val, std::vector<int>{d, 2}, "n2");
  All(&shaped, idx, ext);
  vf_check(shaped.shape().size() == 2 && shaped.shape()[0] == d && shaped.shape()[1] == 2, "the given shape is kept");
  vf_check(shaped.AsString() == "n2", "the given text is kept");
  int n = vf_choose("elements", 1, 4);
  std::vector<T> e; std::vector<uint64_t> x;
  for (int i = 0; i < n; i++) { e.push_back((T)vf_u64("element")); x.push_back((uint64_t)(int64_t)e[i]); }
  VectorImmediateOperand<T> v(e);
  VectorImmediateOperand<T> v2(e, std::vector<int>{n});
  for (int i = 0; i < n; i++) { All(&v, i, x[i]); All(&v2, i, x[i]); }
  vf_check(v.shape().size() == 1 && v.shape()[0] == n, "vector shape");
  vf_check(v2.shape().size() == 1 && v2.shape()[0] == n, "vector shape");
}
template <typename T>
void Text() {
  // The default text is the decimal value.
  const int64_t vals[] = {0, 1, 7, 99, 100, 127, -1, -128};
  T val = (T)vals[vf_choose("which", 0, 7)];
  std::string want;
  int64_t w = (int64_t)val; bool neg = w < 0 && T(-1) < T(0); uint64_t u = neg ? 0 - (uint64_t)w : (uint64_t)val;
  do { want.insert(want.begin(), (char)('0' + u % 10)); u /= 10; } while (u);
  if (neg) want.insert(want.begin(), '-');
  ImmediateOperand<T> a(val), b(val, std::vector<int>{4});
  vf_check(a.AsString() == want, "default text is the value");
  vf_check(b.AsString() == want && b.shape()[0] == 4, "default text is the value");
  All(&a, 0, (uint64_t)(int64_t)val);
  All(&b, 3, (uint64_t)(int64_t)val);
}
template <int L>
void Lit() {
  int idx = (int)vf_u32("index");
  IntLiteralOperand<L> a, b(absl::string_view("nm")), c(std::vector<int>{2, 3}), d(std::vector<int>{5}, absl::string_view("nm"));
  All(&a, idx, (uint64_t)(int64_t)L); All(&b, idx, (uint64_t)(int64_t)L); All(&c, idx, (uint64_t)(int64_t)L); All(&d, idx, (uint64_t)(int64_t)L);
  vf_check(b.AsString() == "nm" && d.AsString() == "nm", "the given text is kept");
  vf_check(a.AsString() == std::to_string(L) && c.AsString() == std::to_string(L), "default text is the value");
  vf_check(c.shape().size() == 2 && c.shape()[1] == 3 && d.shape().size() == 1 && d.shape()[0] == 5, "shape");
}
template <bool L>
void BoolLit() {
  int idx = (int)vf_u32("index");
  BoolLiteralPredicateOperand<L> p;
  vf_check(p.Value() == L, "predicate value");
  BoolLiteralOperand<L> a, b(absl::string_view("nm")), c(std::vector<int>{2, 3}), d(std::vector<int>{5}, absl::string_view("nm"));
  All(&a, idx, L); All(&b, idx, L); All(&c, idx, L); All(&d, idx, L);
  vf_check(b.AsString() == "nm" && d.AsString() == "nm", "the given text is kept");
  vf_check(c.shape().size() == 2 && c.shape()[1] == 3 && d.shape().size() == 1 && d.shape()[0] == 5, "shape");
}
}  // namespace
VF_ENTRY(imm_i8) { Imm<int8_t>(); }
VF_ENTRY(imm_u8) { Imm<uint8_t>(); }
VF_ENTRY(imm_i16) { Imm<int16_t>(); }
VF_ENTRY(imm_u16) { Imm<uint16_t>(); }
VF_ENTRY(imm_i32) { Imm<int32_t>(); }
VF_ENTRY(imm_u32) { Imm<uint32_t>(); }
VF_ENTRY(imm_i64) { Imm<int64_t>(); }
VF_ENTRY(imm_u64) { Imm<uint64_t>(); }
VF_ENTRY(imm_text) {
  switch (vf_choose("type", 0, 4)) {
    case 0: Text<int32_t>(); break;
    case 1: Text<uint64_t>(); break;
    case 2: Text<int64_t>(); break;
    case 3: Text<int16_t>(); break;
    default: Text<uint32_t>(); break;
  }
}
VF_ENTRY(lit_int) {
  switch (vf_choose("literal", 0, 6)) {
    case 0: Lit<0>(); break;
    case 1: Lit<1>(); break;
    case 2: Lit<-1>(); break;
    case 3: Lit<255>(); break;
    case 4: Lit<32768>(); break;
    case 5: Lit<-2147483647 - 1>(); break;
    default: Lit<2147483647>(); break;
  }
}
VF_ENTRY(lit_bool) { BoolLit<true>(); BoolLit<false>(); }
// Longer vectors: every element in every type, and the text shows the first and the last one.
VF_ENTRY(imm_long_vector) {
  int n = vf_choose("elements", 1, VF_N(20, 70)), first = (int)vf_choose("first", 0, 2) - 1;
  std::vector<int16_t> e; std::vector<uint64_t> x;
  for (int i = 0; i < n; i++) {
    e.push_back(i == 0 ? first : i == n - 1 ? 100 + i : (int16_t)vf_u16("element"));
    x.push_back((uint64_t)(int64_t)e[i]);
  }
  VectorImmediateOperand<int16_t> v(e), w(e, std::vector<int>{n});
  for (int i = 0; i < n; i++) { All(&v, i, x[i]); All(&w, i, x[i]); }
  std::string want = "[" + std::to_string(e[0]) + "..." + std::to_string(e[n - 1]) + "]";
  vf_check(v.AsString() == want && w.AsString() == want, "the text shows the first and the last element");
  vf_check(v.shape() == std::vector<int>{n} && w.shape() == std::vector<int>{n}, "vector shape");
}
