// State items and operands describe the state they stand for: name, shape, size, object, text.
// SRC: generic/register.cc generic/fifo.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=2000000
// BOUND: shapes of up to 3 (quick) or 4 (thorough) dimensions with sides 0..5, element sizes 1..16, names of up to 4 characters; discarded writes of all shapes in bounds with any contents; all nine typed reads of wrapped objects at any index
// ASSUME: the byte size of an item fits in an int
#include <string>
#include "mpact/sim/decoder/base_class.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/devnull_operand.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/variant_helper.h"
#include "mpact/sim/generic/wrapper_operand.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct State : ArchState { State() : ArchState("state") {} };
struct Item : StateItemBase {
  Item(ArchState* st, absl::string_view n, const std::vector<int>& s, int e) : StateItemBase(st, n, s, e) {}
  void SetDataBuffer(DataBuffer*) override {}
};
struct Obj { std::string text; std::string AsString() const { return text; } };
std::string Name() {
  int n = vf_choose("length", 0, 4);
  std::string s;
  for (int i = 0; i < n; i++) s.push_back((char)vf_u8("char"));
  return s;
}
std::vector<int> Shape(int maxdim, int maxside) {
  std::vector<int> s;
  int d = vf_choose("dims", 0, maxdim);
  for (int i = 0; i < d; i++) s.push_back(vf_choose("side", 0, maxside));
  return s;
}
// Every kind of item (scalar, bytes, source only, vector, matrix) has the shape its type says, hands the further
// arguments on to its base, and makes operands with the text and latency asked for.
struct RecBase : RegisterBase {
  int a, b;
  RecBase(ArchState* st, absl::string_view n, const std::vector<int>& s, int e, int a, int b) : RegisterBase(st, n, s, e), a(a), b(b) {}
};
template <typename I> void CheckSource(I& r, const std::vector<int>& shape, int el, int a, int b, const std::string& n) {
  int total = el;
  for (int x : shape) total *= x;
  vf_check(r.name() == n && r.shape() == shape && r.element_size() == el && r.size() == total, "shape and size of the type");
  vf_check(r.a == a && r.b == b, "further arguments reach the base");
  SourceOperandInterface* s[2] = {r.CreateSourceOperand(), r.CreateSourceOperand("text")};
  for (int i = 0; i < 2; i++) {
    vf_check(s[i]->AsString() == (i ? "text" : n), "text of the source");
    vf_check(std::any_cast<RegisterBase*>(s[i]->GetObject()) == &r && s[i]->shape() == shape, "source of the item");
    delete s[i];
  }
}
template <typename I> void CheckDest(I& r, const std::vector<int>& shape, const std::string& n) {
  int lat = (int)vf_u32("latency");
  DestinationOperandInterface* d[2] = {r.CreateDestinationOperand(lat), r.CreateDestinationOperand(lat, "text")};
  for (int i = 0; i < 2; i++) {
    vf_check(d[i]->AsString() == (i ? "text" : n) && d[i]->latency() == lat, "text and latency of the destination");
    vf_check(std::any_cast<RegisterBase*>(d[i]->GetObject()) == &r && d[i]->shape() == shape, "destination of the item");
    delete d[i];
  }
}
template <typename T, typename D, int... Ns> using Rec = StateItem<RecBase, T, RegisterSourceOperand<std::remove_pointer_t<T>>, D, Ns...>;
template <typename T> void Items(State& st, const std::string& n) {
  using D = RegisterDestinationOperand<T>;
  int a = (int)vf_u32("a"), b = (int)vf_u32("b"), el = (int)sizeof(T);
  switch (vf_choose("kind", 0, 5)) {
    case 0: { Rec<T, D> r(&st, n, a, b); CheckSource(r, {1}, el, a, b, n); CheckDest(r, {1}, n); break; }
    case 1: { Rec<T, void> r(&st, n, a, b); CheckSource(r, {1}, el, a, b, n); break; }
    case 2: {
      using V = Rec<T, D, 5>;
      static_assert(std::is_same_v<typename V::ValueType, T>);
      V r(&st, n, a, b); CheckSource(r, {5}, el, a, b, n); CheckDest(r, {5}, n);
      vf_check(V::kNumDimensions == 1 && sizeof(V::kShape) == sizeof(int) && V::kShape[0] == 5, "dimensions of a vector");
      break;
    }
    case 3: {
      using M = Rec<T, D, 2, 3>;
      static_assert(std::is_same_v<typename M::ValueType, T>);
      M r(&st, n, a, b); CheckSource(r, {2, 3}, el, a, b, n); CheckDest(r, {2, 3}, n);
      vf_check(M::kNumDimensions == 2 && sizeof(M::kShape) == 2 * sizeof(int) && M::kShape[0] == 2 && M::kShape[1] == 3, "dimensions of a matrix");
      break;
    }
    case 4: {
      int w = (int)vf_choose("width", 0, 9);
      Rec<uint8_t*, RegisterDestinationOperand<uint8_t>> r(&st, n, w, a, b);
      CheckSource(r, {w}, 1, a, b, n); CheckDest(r, {w}, n);
      break;
    }
    case 5: {
      SimpleResource* res = reinterpret_cast<SimpleResource*>(&st);
      ReservedRegister<T> r(&st, n, res); ReservedVectorRegister<T, 4> v(&st, n, res); ReservedMatrixRegister<T, 3, 2> m(&st, n, res);
      vf_check(r.resource() == res && v.resource() == res && m.resource() == res, "reserved registers keep their resource");
      vf_check(r.size() == el && v.size() == 4 * el && m.size() == 6 * el, "sizes of reserved registers");
      CheckDest(r, {1}, n);
      break;
    }
  }
}
}  // namespace
VF_ENTRY(op_state_item) {
  State st;
  std::vector<int> shape = Shape(VF_N(3, 4), VF_N(3, 5));
  int el = (int)vf_range("element", 1, 16);
  Item it(vf_choose("nostate", 0, 1) ? nullptr : &st, "item", shape, el);
  int total = el;
  for (int x : shape) total *= x;
  vf_check(it.size() == total, "size is the product of shape and element size");
  vf_check(it.element_size() == el, "element size");
  vf_check(it.shape() == shape, "shape");
  vf_check(it.arch_state() == nullptr || it.arch_state() == &st, "architecture state");
  vf_check(it.name() == "item", "name");
}
VF_ENTRY(op_name) {
  State st;
  std::string n = Name();
  Register<uint32_t> r(&st, n);
  vf_check(r.name() == n, "the item keeps its name");
  SourceOperandInterface* s[2] = {r.CreateSourceOperand(), r.CreateSourceOperand("text")};
  int lat = (int)vf_u32("latency");
  DestinationOperandInterface* d[2] = {r.CreateDestinationOperand(lat), r.CreateDestinationOperand(lat, "text")};
  vf_check(s[0]->AsString() == n && d[0]->AsString() == n, "operands are shown by the name of the item");
  vf_check(s[1]->AsString() == "text" && d[1]->AsString() == "text", "operands are shown by the text given");
  for (int i = 0; i < 2; i++) {
    vf_check(std::any_cast<RegisterBase*>(s[i]->GetObject()) == &r && std::any_cast<RegisterBase*>(d[i]->GetObject()) == &r, "operands refer to their item");
    vf_check(d[i]->latency() == lat, "latency");
    vf_check(s[i]->shape() == r.shape() && d[i]->shape() == r.shape(), "shape");
    delete s[i]; delete d[i];
  }
}
VF_ENTRY(op_items) {
  State st;
  std::string n = Name();
  switch (vf_choose("type", 0, 3)) {
    case 0: Items<uint8_t>(st, n); break;
    case 1: Items<uint16_t>(st, n); break;
    case 2: Items<uint32_t>(st, n); break;
    default: Items<uint64_t>(st, n); break;
  }
}
// Writes to the null device vanish: the buffer goes back to its factory, nothing else happens.
VF_ENTRY(op_devnull) {
  long base = vf_heap_live();
  {
    State* st = new State();
    std::vector<int> shape = Shape(2, 3);
    int total = 4;
    for (int x : shape) total *= x;
    DevNullOperand<uint32_t> d(st, shape, "null");
    DevNullOperand<uint32_t> unnamed(st, shape);
    vf_check(d.shape() == shape && d.AsString() == "null" && unnamed.AsString() == "" && d.latency() == 0, "description");
    vf_check(!d.GetObject().has_value(), "no object");
    DataBuffer* db;
    auto* reg = st->AddRegister<Register<uint32_t>>("r");
    switch (vf_choose("how", 0, 2)) {
      case 0: db = d.AllocateDataBuffer(); break;
      case 1: db = d.CopyDataBuffer(); break;
      default:
        db = st->db_factory()->Allocate(total);
        db->set_destination(reg); db->set_delay_line(st->data_buffer_delay_line()); db->set_latency(2);
        d.InitializeDataBuffer(db);
    }
    vf_check(db->size<uint8_t>() == total, "the buffer has the size of the shape");
    vf_check(db->ref_count() == 1, "one reference");
    for (int i = 0; i < total / 4; i++) db->Set<uint32_t>(i, vf_u32("value"));
    db->IncRef();
    db->Submit();
    vf_check(db->ref_count() == 1, "the buffer is released");
    db->DecRef();
    vf_check(st->data_buffer_delay_line()->IsEmpty(), "nothing is scheduled");
    st->AdvanceDelayLines();
    vf_check(reg->data_buffer() != db && reg->data_buffer()->Get<uint32_t>(0) == 0, "no state changes");
    delete st;
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
VF_ENTRY(op_wrapper) {
  Obj o{Name()};
  std::vector<int> shape = Shape(2, 3);
  WrapperSourceOperand<Obj> s(&o, shape);
  WrapperDestinationOperand<Obj> d(&o, shape);
  int i = (int)vf_u32("index");
  vf_check(!s.AsBool(i) && s.AsInt8(i) == 0 && s.AsUint8(i) == 0 && s.AsInt16(i) == 0 && s.AsUint16(i) == 0 && s.AsInt32(i) == 0 && s.AsUint32(i) == 0 &&
           s.AsInt64(i) == 0 && s.AsUint64(i) == 0, "a wrapped object has no numeric value");
  vf_check(std::any_cast<Obj*>(s.GetObject()) == &o && std::any_cast<Obj*>(d.GetObject()) == &o, "the object is reachable");
  vf_check(s.shape() == shape && d.shape() == shape, "shape");
  vf_check(s.AsString() == o.text && d.AsString() == o.text, "text is the object's");
  vf_check(d.AllocateDataBuffer() == nullptr && d.CopyDataBuffer() == nullptr && d.latency() == 0, "a wrapped object takes no buffers");
  o.text.push_back('x');
  vf_check(s.AsString() == o.text && d.AsString() == o.text, "text follows the object");
}
VF_ENTRY(op_types) {
  using V = std::variant<bool, int8_t, uint16_t>;
  static const bool in[] = {IsMemberOfVariant<V, bool>::value, IsMemberOfVariant<V, int8_t>::value, IsMemberOfVariant<V, uint16_t>::value};
  static const bool out[] = {IsMemberOfVariant<V, uint8_t>::value, IsMemberOfVariant<V, int>::value, IsMemberOfVariant<V, int16_t>::value, IsMemberOfVariant<V, char>::value};
  for (bool b : in) vf_check(b, "types of a variant are recognised");
  for (bool b : out) vf_check(!b, "other types are not");
  using namespace mpact::sim::machine_description::instruction_set;
  int x;
  TemplateInstantiationArgs args;
  BaseClass<int> b(&x), c(&x, &args);
  vf_check(b.base == &x && b.arguments == nullptr && c.base == &x && c.arguments == &args, "a base class reference keeps its base and arguments");
}
