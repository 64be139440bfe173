// Value sets of constraints: exactly the values that satisfy the constraint, under intersection and union.
// SRC: decoder/proto_constraint_expression.cc decoder/proto_constraint_value_set.cc
// FLAGS: -I@VERIF@/shim_dec
// OPTS: steps=400000
// BOUND: intersections and unions of up to 3 (thorough: 4) sets, each from one of the six comparisons with a bound or an explicit range; all seven value types
// BOUND: eight values of each type, among them the limits (infinities, smallest and largest finite values), in every order
// ASSUME: explicit ranges are given with the lower bound first; floating point values are not NaN; the most negative signed value is not negated
#include <cmath>
#include <limits>
#include <type_traits>
#include "mpact/sim/decoder/proto_constraint_expression.h"
#include "mpact/sim/decoder/proto_constraint_value_set.h"
#include "mpact/sim/decoder/proto_instruction_encoding.h"
#include "vf.h"
using namespace mpact::sim::decoder::proto_fmt;
using google::protobuf::FieldDescriptor;
namespace {
using Set = ProtoConstraintValueSet;
using Expr = ProtoConstraintValueExpression;
// The sets only compare values, so the order of the values matters and whether they are at the limits of the type:
// eight values cover every order of the five values that occur in an intersection, with and without limits.
template <typename T>
T Sym(const char* n) {
  if constexpr (std::is_same_v<T, bool>) return vf_bool(n);
  else {
    using L = std::numeric_limits<T>;
    static const T kI[8] = {L::has_infinity ? (T)-L::infinity() : L::min(), L::has_infinity ? L::lowest() : (T)(L::min() + 1), (T)(L::is_signed ? -3 : 3), L::has_infinity ? -L::denorm_min() : (T)(L::is_signed ? -1 : 5), (T)(L::is_signed ? 0 : 7),
                            L::has_infinity ? L::min() : (T)9, L::has_infinity ? L::max() : (T)(L::max() - 1), L::has_infinity ? L::infinity() : L::max()};
    return kI[vf_range(n, 0, 7)];
  }
}
template <typename T>
bool Contains(const Set& s, T x) {
  bool r = false;
  for (auto const& sub : s.subranges()) {
    bool lo = true, hi = true;
    if (sub.min) { T m = sub.min->GetValueAs<T>(); lo = sub.min_included ? m <= x : m < x; }
    if (sub.max) { T m = sub.max->GetValueAs<T>(); hi = sub.max_included ? x <= m : x < m; }
    r |= lo & hi;
  }
  return r;
}
// A symbolic constraint: the value set made for it and whether x satisfies it.
template <typename T>
Set* Make(T x, bool* in, const FieldDescriptor* fd) {
  int op = vf_choose("op", 0, 6);
  T a = Sym<T>("bound");
  Expr ea(a);
  if (op == 6) {
    T b = Sym<T>("upper");
    bool li = vf_choose("low_included", 0, 1), hi = vf_choose("high_included", 0, 1);
    Expr eb(b);
    vf_assume(a <= b);
    *in = (int)(li ? a <= x : a < x) & (int)(hi ? x <= b : x < b);
    return new Set(&ea, li, &eb, hi);
  }
  ConstraintType t = (ConstraintType)op;
  *in = op == 0 ? x == a : op == 1 ? x != a : op == 2 ? x < a : op == 3 ? x <= a : op == 4 ? x > a : x >= a;
  ProtoConstraint c(nullptr, fd, t, &ea, 0, nullptr);
  Set* s = vf_choose("by_reference", 0, 0) ? new Set(c) : new Set(&c);
  vf_check(s->field_descriptor() == fd, "the set knows its field");
  return s;
}
template <typename T>
void Algebra(int n) {
  long base = vf_heap_live();
  {
    FieldDescriptor fd;
    T x = Sym<T>("x");
    bool in, in2;
    Set* a = Make<T>(x, &in, &fd);
    vf_check(Contains<T>(*a, x) == in, "the set holds exactly the values that satisfy the constraint");
    for (int i = 1; i < n; i++) {
      Set* b = Make<T>(x, &in2, &fd);
      Set copy(*b);
      vf_check(copy.field_descriptor() == b->field_descriptor() && copy.subranges().size() == b->subranges().size(), "a copy is the same set");
      bool was = in;
      Set old(*a);
      if (vf_choose("union", 0, 1)) {
        vf_check(a->UnionWith(*b).ok(), "union succeeds");
        in = in | in2;
        vf_check(Contains<T>(*a, x) == in, "the union holds exactly the values of either set");
      } else {
        vf_check(a->IntersectWith(*b).ok(), "intersection of sets of the same type succeeds");
        in = in & in2;
        vf_check(Contains<T>(*a, x) == in, "the intersection holds exactly the values of both sets");
        for (auto const& s : a->subranges()) {
          T lo = s.min->template GetValueAs<T>(), hi = s.max->template GetValueAs<T>();
          vf_check(s.min_included && s.max_included ? lo <= hi : lo < hi, "an intersection keeps no empty range");
        }
        vf_check(!(in & a->IsEmpty()), "sets with a common value do intersect");
      }
      delete b;
      vf_check(Contains<T>(copy, x) == in2, "a copy is independent of its original");
      vf_check(Contains<T>(old, x) == was, "a copy is not changed by operations on the original");
    }
    delete a;
    vf_reach("done");
  }
  vf_check(vf_heap_live() == base, "no expression leaks");
}
}  // namespace
VF_ENTRY(vs_int32) { Algebra<int32_t>(VF_N(2, 3)); }
VF_ENTRY(vs_int64) { Algebra<int64_t>(2); }
VF_ENTRY(vs_uint32) { Algebra<uint32_t>(2); }
VF_ENTRY(vs_uint64) { Algebra<uint64_t>(VF_N(2, 3)); }
VF_ENTRY(vs_bool) { Algebra<bool>(2); }
VF_ENTRY(vs_float) { Algebra<float>(2); }
VF_ENTRY(vs_double) { Algebra<double>(2); }
// A set of fields present in a one-of: exactly that alternative.
VF_ENTRY(vs_has) {
  google::protobuf::OneofDescriptor oneof; oneof.name_ = "kind";
  FieldDescriptor fd[4];
  static const char* kNames[] = {"add", "sub", "mul", "a"};
  for (int i = 0; i < 4; i++) { fd[i].name_ = kNames[i]; fd[i].oneof_ = &oneof; oneof.fields_.push_back(&fd[i]); }
  int i = vf_choose("i", 0, 3), j = vf_choose("j", 0, 3);
  ProtoConstraint a(nullptr, &fd[i], ConstraintType::kHas), b(nullptr, &fd[j], ConstraintType::kHas);
  Set sa(a), sb(&b);
  int32_t x = (int32_t)vf_u32("x");
  vf_check(Contains<int32_t>(sa, x) == (x == i), "the set of a one-of alternative is its index");
  vf_check(sa.field_descriptor() == &fd[i] && sb.field_descriptor() == &fd[j], "the set knows its field");
  vf_check(sa.IntersectWith(sb).ok() && sa.IsEmpty() == (i != j), "different alternatives exclude each other");
}
namespace {
struct Bad : ProtoConstraintExpression {
  absl::StatusOr<ProtoValue> GetValue() const override { return absl::InternalError("bad"); }
  ProtoConstraintExpression* Clone() const override { return new Bad(); }
  FieldDescriptor::CppType cpp_type() const override { return FieldDescriptor::CPPTYPE_INT32; }
  int variant_type() const override { return 0; }
};
Expr* Any(int kind) {
  switch (kind) {
    case 0: return new Expr((int32_t)vf_u32("v"));
    case 1: return new Expr((int64_t)vf_u64("v"));
    case 2: return new Expr(vf_u32("v"));
    case 3: return new Expr(vf_u64("v"));
    case 4: return new Expr(1.5);
    case 5: return new Expr(2.5f);
    case 6: return new Expr(vf_bool("v"));
    default: return new Expr(std::string("text"));
  }
}
}  // namespace
// Sets of different types do not mix; sets of unsupported types are refused; nothing crashes.
VF_ENTRY(vs_errors) {
  long base = vf_heap_live();
  {
    FieldDescriptor fd;
    int ka = vf_choose("ka", 0, 7), kb = vf_choose("kb", 0, 7), oa = vf_choose("opa", 0, 5), ob = vf_choose("opb", 0, 5);
    Expr* ea = Any(ka); Expr* eb = Any(kb);
    ProtoConstraint ca(nullptr, &fd, (ConstraintType)oa, ea, 0, nullptr), cb(nullptr, &fd, (ConstraintType)ob, eb, 0, nullptr);
    Set a(&ca), b(&cb);
    Set copy(a);
    vf_check(!a.IsEmpty() && copy.subranges().size() == a.subranges().size(), "a constraint has values");
    auto st = a.IntersectWith(b);
    vf_check(st.ok() == (ka == kb && ka != 7), "exactly sets of the same, ordered type can be intersected");
    if (!st.ok()) vf_check(a.subranges().size() == copy.subranges().size(), "a refused intersection changes nothing");
    Set mixed(ea, true, eb, true);
    vf_check(mixed.IsEmpty() == (ka != kb), "a range has bounds of one type");
    Set none(nullptr, true, eb, true), none2(ea, false, nullptr, true), none3;
    vf_check(none.IsEmpty() && none2.IsEmpty() && none3.IsEmpty(), "a range without a bound is empty");
    vf_check(copy.UnionWith(none).ok() && !copy.IsEmpty(), "union with nothing");
    vf_check(copy.IntersectWith(none).ok() && copy.IsEmpty(), "intersection with nothing is empty");
    delete ea; delete eb;
  }
  vf_check(vf_heap_live() == base, "no expression leaks");
}
// Expressions: the value given, negation, clones, types.
template <typename T>
static void Negation(T v, T expect, int kind) {
  long base = vf_heap_live();
  {
    ProtoConstraintExpression* e = new Expr(v);
    ProtoConstraintExpression* n = new ProtoConstraintNegateExpression(e);
    ProtoConstraintExpression* c = n->Clone();
    ProtoConstraintExpression* nn = new ProtoConstraintNegateExpression(c->Clone());
    vf_check(e->variant_type() == kind && n->variant_type() == kind && c->variant_type() == kind, "type of the expression");
    vf_check(e->cpp_type() == (kind == 7 ? 9 : kind + 1) && n->cpp_type() == e->cpp_type(), "proto type of the expression");
    if constexpr (!std::is_same_v<T, std::string>) {
      vf_check(e->GetValueAs<T>() == v && n->GetValueAs<T>() == expect && c->GetValueAs<T>() == expect && nn->GetValueAs<T>() == v, "value and its negation");
      vf_check(n->GetValue().ok() && n->GetValue().value().index() == (size_t)kind, "negation keeps the type");
    } else {
      vf_check(!n->GetValue().ok() && !nn->GetValue().ok() && e->GetValueAs<T>() == v, "text has no negation");
    }
    using Other = std::conditional_t<std::is_same_v<T, uint32_t>, int32_t, uint32_t>;
    vf_check(e->GetValueAs<Other>() == 0, "a value of another type reads as default");
    delete n;
    if constexpr (!std::is_same_v<T, std::string>) vf_check(c->GetValueAs<T>() == expect, "a clone is independent");
    delete c; delete nn;
  }
  vf_check(vf_heap_live() == base, "no expression leaks");
}
VF_ENTRY(vs_negate) {
  switch (vf_choose("kind", 0, 7)) {
    case 0: { int32_t v = (int32_t)vf_u32("v"); vf_assume(v != INT32_MIN); Negation<int32_t>(v, -v, 0); break; }
    case 1: { int64_t v = (int64_t)vf_u64("v"); vf_assume(v != INT64_MIN); Negation<int64_t>(v, -v, 1); break; }
    case 2: { uint32_t v = vf_u32("v"); Negation<uint32_t>(v, 0 - v, 2); break; }
    case 3: { uint64_t v = vf_u64("v"); Negation<uint64_t>(v, 0 - v, 3); break; }
    case 4: Negation<double>(1.25, -1.25, 4); break;
    case 5: Negation<float>(-3.5f, 3.5f, 5); break;
    case 6: { bool v = vf_bool("v"); Negation<bool>(v, !v, 6); break; }
    default: Negation<std::string>("text", "", 7); break;
  }
  Bad bad;
  ProtoConstraintNegateExpression nb(new Bad());
  vf_check(!nb.GetValue().ok() && nb.GetValueAs<int32_t>() == 0, "the failure of an operand is the failure of the expression");
  google::protobuf::EnumValueDescriptor ev; ev.number_ = (int)vf_u32("enum");
  ProtoConstraintEnumExpression en(&ev), en0(nullptr);
  ProtoConstraintExpression* ec = en.Clone();
  vf_check(en.GetValueAs<int32_t>() == ev.number_ && ec->GetValueAs<int32_t>() == ev.number_ && en.variant_type() == 0 && en.cpp_type() == 1, "the value of an enumeration constant");
  vf_check(!en0.GetValue().ok(), "a missing constant has no value");
  delete ec;
}
