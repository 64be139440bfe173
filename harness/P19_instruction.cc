// Instructions: operands in order, owned, delivered by value; lists of instructions keep their members alive; semantic helpers.
// SRC: generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=600000
// BOUND: up to 4 operands of each kind; trees of up to 5 instructions with any interleaving of releases; attribute arrays of up to 5 integers set up to 3 times and of up to 20 (quick) or 40 (thorough) set twice; vectors of up to 4 elements; all source values
// ASSUME: an instruction is linked into at most one list; operands are not null
#include <cstring>
#include <string>
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/instruction_helpers.h"
#include "mpact/sim/generic/register.h"
#include "mpact/sim/generic/resource_operand_interface.h"
#include "vf.h"
using namespace mpact::sim::generic;
using mpact::sim::generic::Instruction;
namespace {
struct State : ArchState { State() : ArchState("state") {} };
int g_dead[64]; int g_made;
struct Src : SourceOperandInterface {
  uint64_t v[8] = {}; int id = -1; int wide = 0; int last = -1;
  uint64_t At(int i, int w) { wide = w; last = i; return v[i]; }
  bool AsBool(int i) override { return At(i, 1) & 1; }
  int8_t AsInt8(int i) override { return At(i, -8); }
  uint8_t AsUint8(int i) override { return At(i, 8); }
  int16_t AsInt16(int i) override { return At(i, -16); }
  uint16_t AsUint16(int i) override { return At(i, 16); }
  int32_t AsInt32(int i) override { return At(i, -32); }
  uint32_t AsUint32(int i) override { return At(i, 32); }
  int64_t AsInt64(int i) override { return At(i, -64); }
  uint64_t AsUint64(int i) override { return At(i, 64); }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {8}; }
  std::string AsString() const override { return "src"; }
  ~Src() override { if (id >= 0) g_dead[id]++; }
};
struct Dst : DestinationOperandInterface {
  int id = -1;
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return "dst"; }
  ~Dst() override { if (id >= 0) g_dead[id]++; }
};
struct Pred : PredicateOperandInterface {
  int id = -1;
  bool Value() override { return true; }
  std::string AsString() const override { return "p"; }
  ~Pred() override { if (id >= 0) g_dead[id]++; }
};
struct Res : ResourceOperandInterface {
  int id = -1;
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "r"; }
  ~Res() override { if (id >= 0) g_dead[id]++; }
};
}  // namespace
VF_ENTRY(ins_operands) {
  long base = vf_heap_live();
  {
    uint64_t addr = vf_u64("address");
    Instruction* in = new Instruction(addr, nullptr);
    vf_check(in->address() == addr && in->state() == nullptr && in->Predicate() == nullptr && in->SourcesSize() == 0 && in->DestinationsSize() == 0 &&
             in->child() == nullptr && in->next() == nullptr && in->parent() == nullptr && in->Attributes().empty() && in->AsString() == "", "a new instruction is empty");
    int op = (int)vf_u32("opcode"), sz = (int)vf_u32("size");
    in->set_opcode(op); in->set_size(sz);
    uint64_t a2 = vf_u64("address2");
    in->set_address(a2);
    vf_check(in->opcode() == op && in->size() == sz && in->address() == a2, "opcode, size and address are kept");
    in->SetDisassemblyString("disassembly of the instruction");
    Src* s[4]; Dst* d[4]; Res* h[4]; Res* q[4]; int ns = 0, nd = 0, nh = 0, nq = 0, made = 0;
    int n = vf_choose("operands", 0, VF_N(4, 5));
    for (int i = 0; i < n; i++) {
      switch (vf_choose("kind", 0, 3)) {
        case 0: if (ns == 4) vf_prune(); in->AppendSource(s[ns] = new Src); s[ns++]->id = made++; break;
        case 1: if (nd == 4) vf_prune(); in->AppendDestination(d[nd] = new Dst); d[nd++]->id = made++; break;
        case 2: if (nh == 4) vf_prune(); in->AppendResourceHold(h[nh] = new Res); h[nh++]->id = made++; break;
        default: if (nq == 4) vf_prune(); in->AppendResourceAcquire(q[nq] = new Res); q[nq++]->id = made++; break;
      }
    }
    Pred* p = nullptr;
    if (vf_choose("predicated", 0, 1)) { in->SetPredicate(p = new Pred); p->id = made++; }
    vf_check(in->SourcesSize() == ns && in->DestinationsSize() == nd && (int)in->ResourceHold().size() == nh && (int)in->ResourceAcquire().size() == nq, "operand counts");
    for (int i = 0; i < ns; i++) vf_check(in->Source(i) == s[i], "sources are in order");
    for (int i = 0; i < nd; i++) vf_check(in->Destination(i) == d[i], "destinations are in order");
    for (int i = 0; i < nh; i++) vf_check(in->ResourceHold()[i] == h[i], "held resources are in order");
    for (int i = 0; i < nq; i++) vf_check(in->ResourceAcquire()[i] == q[i], "acquired resources are in order");
    vf_check(in->Predicate() == p && in->AsString() == "disassembly of the instruction", "predicate and text");
    in->IncRef(); in->DecRef();
    for (int i = 0; i < made; i++) vf_check(g_dead[i] == 0, "operands live as long as the instruction");
    in->DecRef();
    for (int i = 0; i < made; i++) vf_check(g_dead[i] == 1, "operands are disposed of with the instruction, once");
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
  vf_reach("operands");
}
VF_ENTRY(ins_attributes) {
  long base = vf_heap_live();
  {
    Instruction* in = new Instruction(0, nullptr);
    int times = vf_choose("times", 1, 3);
    for (int t = 0; t < times; t++) {
      int n = vf_choose("n", 0, VF_N(3, 5));
      int a[5], want[5];
      for (int i = 0; i < n; i++) want[i] = a[i] = (int)vf_u32("attribute");
      in->SetAttributes(absl::Span<const int>(a, n));
      for (int i = 0; i < n; i++) a[i] = 0;
      auto got = in->Attributes();
      vf_check((int)got.size() == n, "the number of attributes");
      for (int i = 0; i < n; i++) vf_check(got[i] == want[i], "the instruction keeps its own copy of the attributes");
    }
    in->DecRef();
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
namespace {
int g_gone[8];
struct Node : Instruction {
  int id;
  explicit Node(int i) : Instruction(i, nullptr), id(i) {}
  ~Node() override { g_gone[id]++; }
};
int g_runs; Instruction* g_on; ReferenceCount* g_ctx;
}  // namespace
// A parent with children and a list after it; the user's references are dropped in any order.
VF_ENTRY(ins_tree) {
  long base = vf_heap_live();
  {
    const int n = VF_N(4, 5);
    Node* x[5];
    // owner[i]: who keeps i alive besides the user; -1 for none
    int owner[5], par[5]; int firstchild[5], lastin[5], next[5];
    for (int i = 0; i < n; i++) { x[i] = new Node(i); owner[i] = par[i] = firstchild[i] = next[i] = -1; }
    (void)lastin;
    for (int i = 1; i < n; i++) {
      int to = vf_choose("to", 0, i - 1);
      bool child = vf_choose("child", 0, 1);
      if (child) {
        x[to]->AppendChild(x[i]);
        par[i] = to;
        if (firstchild[to] < 0) { firstchild[to] = i; owner[i] = to; }
        else { int t = firstchild[to]; while (next[t] >= 0) t = next[t]; next[t] = i; owner[i] = t; }
      } else {
        x[to]->Append(x[i]);
        int t = to; while (next[t] >= 0) t = next[t];
        next[t] = i; owner[i] = t;
      }
    }
    x[0]->Append(nullptr); x[0]->AppendChild(nullptr);
    bool user[5], alive[5];
    for (int i = 0; i < n; i++) { user[i] = alive[i] = true; }
    auto verify = [&]() {
      for (int i = 0; i < n; i++) {
        bool live = user[i] || (owner[i] >= 0 && alive[owner[i]]);
        // owners precede what they own
        alive[i] = live;
        vf_check(g_gone[i] == !live, "an instruction lives exactly as long as it is referenced");
      }
      for (int i = 0; i < n; i++) {
        if (!alive[i]) continue;
        vf_check(x[i]->next() == (next[i] < 0 ? nullptr : x[next[i]]), "the next instruction");
        vf_check(x[i]->child() == (firstchild[i] < 0 ? nullptr : x[firstchild[i]]), "the first child");
        vf_check(x[i]->parent() == (par[i] < 0 || !alive[par[i]] ? nullptr : x[par[i]]), "the parent, while it exists");
        vf_check(x[i]->ref_count() == user[i] + (owner[i] >= 0 && alive[owner[i]]), "reference count");
      }
    };
    verify();
    for (int k = 0; k < n; k++) {
      int i = vf_choose("drop", 0, n - 1);
      if (!user[i]) vf_prune();
      user[i] = false;
      x[i]->DecRef();
      verify();
    }
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
  vf_reach("tree");
}
// A predicate given later replaces the first; a child given to a second parent belongs to that one.
VF_ENTRY(ins_replaced) {
  Instruction* in = new Instruction(1, nullptr);
  Pred* p[3];
  int n = vf_choose("times", 1, 3);
  for (int i = 0; i < n; i++) { in->SetPredicate(p[i] = new Pred); vf_check(in->Predicate() == p[i], "the predicate is the one given last"); }
  Node* a = new Node(0); Node* b = new Node(1); Node* c = new Node(2);
  a->AppendChild(c);
  vf_check(c->parent() == a && a->child() == c && c->ref_count() == 2, "a child");
  b->AppendChild(c);
  vf_check(c->parent() == b && a->child() == c && b->child() == c && c->ref_count() == 3, "a child belongs to the parent it was given to last");
  c->DecRef();
  if (vf_choose("first", 0, 1)) {
    a->DecRef();
    vf_check(g_gone[0] == 1 && g_gone[2] == 0 && c->parent() == b && b->child() == c && c->ref_count() == 1, "a child outlives a former parent");
    b->DecRef();
  } else {
    b->DecRef();
    vf_check(g_gone[1] == 1 && g_gone[2] == 0 && c->parent() == nullptr && a->child() == c && c->ref_count() == 1, "a child outlives its parent while referenced");
    a->DecRef();
  }
  vf_check(g_gone[0] == 1 && g_gone[1] == 1 && g_gone[2] == 1, "all are disposed of once");
  vf_reach("replaced");
}
VF_ENTRY(ins_many_attributes) {
  Instruction* in = new Instruction(0, nullptr);
  for (int t = 0; t < 2; t++) {
    int n = vf_choose("n", 0, VF_N(20, 40));
    int a[40], want[40];
    for (int i = 0; i < n; i++) want[i] = a[i] = (int)vf_u32("attribute");
    in->SetAttributes(absl::Span<const int>(a, n));
    auto got = in->Attributes();
    bool same = (int)got.size() == n;
    for (int i = 0; i < n && same; i++) same &= got[i] == want[i];
    vf_check(same, "the instruction keeps all its attributes");
  }
  in->DecRef();
}
VF_ENTRY(ins_execute) {
  Instruction* in = new Instruction(1, nullptr);
  int captured = (int)vf_u32("captured"), seen = 0;
  in->set_semantic_function([&seen, captured](Instruction* i) { g_runs++; g_on = i; g_ctx = i->context(); seen = captured; });
  Instruction* ctx = new Instruction(2, nullptr);
  int n = vf_choose("n", 0, 3);
  for (int k = 0; k < n; k++) {
    bool with = vf_choose("with", 0, 1);
    g_ctx = in;
    if (with) in->Execute(ctx); else in->Execute();
    vf_check(g_runs == k + 1 && g_on == in && seen == captured, "executing runs the semantic function once, on the instruction");
    vf_check(g_ctx == (with ? ctx : nullptr), "the semantic function sees the context given");
    vf_check(in->context() == nullptr && ctx->ref_count() == 1, "the context is gone afterwards");
  }
}
namespace {
template <typename T> bool SameBits(T a, uint64_t b) {
  uint64_t x = 0; std::memcpy(&x, &a, sizeof(T));
  uint64_t m = sizeof(T) == 8 ? ~0ull : ((1ull << (8 * (sizeof(T) & 7))) - 1);
  return x == (b & m);
}
Src* Operand(Instruction* in, const char* name) {
  Src* s = new Src;
  for (int i = 0; i < 4; i++) s->v[i] = vf_u64(name);
  in->AppendSource(s);
  return s;
}
template <typename T> void One(Instruction* in, Src* s[3], int bits) {
  int k = vf_choose("operand", 0, 2);
  T a = GetInstructionSource<T>(in, k);
  vf_check(SameBits(a, s[k]->v[0]) && s[k]->last == 0 && s[k]->wide == bits, "the source value in the type");
  int e = vf_choose("element", 0, 3);
  T b = GetInstructionSource<T>(in, k, e);
  vf_check(SameBits(b, s[k]->v[e]) && s[k]->last == e && s[k]->wide == bits, "the element of the source in the type");
}
}  // namespace
VF_ENTRY(ins_source) {
  Instruction* in = new Instruction(1, nullptr);
  Src* s[3] = {Operand(in, "a"), Operand(in, "b"), Operand(in, "c")};
  switch (vf_choose("type", 0, 13)) {
    case 0: One<uint8_t>(in, s, 8); break;
    case 1: One<int8_t>(in, s, -8); break;
    case 2: One<uint16_t>(in, s, 16); break;
    case 3: One<int16_t>(in, s, -16); break;
    case 4: One<uint32_t>(in, s, 32); break;
    case 5: One<int32_t>(in, s, -32); break;
    case 6: One<uint64_t>(in, s, 64); break;
    case 7: One<int64_t>(in, s, -64); break;
    case 8: One<float>(in, s, 32); break;
    case 9: One<double>(in, s, 64); break;
    case 10: One<HalfFP>(in, s, 16); break;
    case 11: {
      absl::uint128 a = GetInstructionSource<absl::uint128>(in, 1);
      vf_check(absl::Uint128Low64(a) == s[1]->v[0] && absl::Uint128High64(a) == 0, "unsigned 128 bits extend with zeros");
      int e = vf_choose("element", 0, 3);
      a = GetInstructionSource<absl::uint128>(in, 1, e);
      vf_check(absl::Uint128Low64(a) == s[1]->v[e] && absl::Uint128High64(a) == 0, "unsigned 128 bits extend with zeros");
      break;
    }
    case 12: {
      absl::int128 a = GetInstructionSource<absl::int128>(in, 1);
      vf_check(absl::Int128Low64(a) == s[1]->v[0] && absl::Int128High64(a) == ((int64_t)s[1]->v[0] >> 63), "signed 128 bits extend with the sign");
      int e = vf_choose("element", 0, 3);
      a = GetInstructionSource<absl::int128>(in, 1, e);
      vf_check(absl::Int128Low64(a) == s[1]->v[e] && absl::Int128High64(a) == ((int64_t)s[1]->v[e] >> 63), "signed 128 bits extend with the sign");
      break;
    }
    default: {
      int e = vf_choose("element", 0, 3);
      vf_check(GetInstructionSource<bool>(in, 2) == (bool)(s[2]->v[0] & 1) && GetInstructionSource<bool>(in, 2, e) == (bool)(s[2]->v[e] & 1), "the truth value");
    }
  }
  vf_reach("source");
}
namespace {
// An instruction writing to a register of n elements of T.
template <typename T, int N> struct Setup {
  State* st = new State;
  VectorRegister<T, N>* r = new VectorRegister<T, N>(st, "r");
  Instruction* in = new Instruction(1, st);
  Src* s[3];
  explicit Setup(int srcs) {
    for (int i = 0; i < srcs; i++) s[i] = Operand(in, "src");
    T init[N];
    DataBuffer* db = st->db_factory()->Allocate<T>(N);
    for (int i = 0; i < N; i++) db->template Set<T>(i, init[i] = (T)vf_u64("old"));
    r->SetDataBuffer(db); db->DecRef();
    in->AppendDestination(r->CreateDestinationOperand(0));
  }
  T Get(int i) { return r->data_buffer()->template Get<T>(i); }
  int Refs() { return r->data_buffer()->ref_count(); }
};
}  // namespace
VF_ENTRY(ins_scalar_ops) {
  Setup<uint32_t, 1> s(2);
  uint64_t a = s.s[0]->v[0], b = s.s[1]->v[0];
  switch (vf_choose("form", 0, 4)) {
    case 0:
      BinaryOp<uint32_t, uint32_t, int8_t>(s.in, [](uint32_t x, int8_t y) -> uint32_t { return x - y; });
      vf_check(s.Get(0) == (uint32_t)((uint32_t)a - (int8_t)b), "binary operation on two types"); break;
    case 1:
      BinaryOp<uint32_t, int64_t>(s.in, [](int64_t x, int64_t y) -> uint32_t { return x < y; });
      vf_check(s.Get(0) == (uint32_t)((int64_t)a < (int64_t)b), "binary operation on one type"); break;
    case 2:
      BinaryOp<uint32_t>(s.in, [](uint32_t x, uint32_t y) -> uint32_t { return x - y; });
      vf_check(s.Get(0) == (uint32_t)(a - b), "binary operation on the result type"); break;
    case 3:
      UnaryOp<uint32_t, int16_t>(s.in, [](int16_t x) -> uint32_t { return ~(int32_t)x; });
      vf_check(s.Get(0) == (uint32_t)~(int32_t)(int16_t)a, "unary operation on another type"); break;
    default:
      UnaryOp<uint32_t>(s.in, [](uint32_t x) -> uint32_t { return -x; });
      vf_check(s.Get(0) == (uint32_t)-a, "unary operation on the result type");
  }
  vf_check(s.Refs() == 1, "the register alone holds its value");
  vf_reach("scalar");
}
VF_ENTRY(ins_vector_ops) {
  Setup<uint16_t, 4> s(3);
  int f = vf_choose("form", 0, 7);
  switch (f) {
    case 0: TernaryVectorOp<uint16_t, uint16_t, int8_t, uint32_t>(s.in, [](uint16_t x, int8_t y, uint32_t z) -> uint16_t { return x - y + (z >> 16); }); break;
    case 1: TernaryVectorOp<uint16_t, uint32_t>(s.in, [](uint32_t x, uint32_t y, uint32_t z) -> uint16_t { return (x - y + z) >> 8; }); break;
    case 2: TernaryVectorOp<uint16_t>(s.in, [](uint16_t x, uint16_t y, uint16_t z) -> uint16_t { return (x & y) - z; }); break;
    case 3: BinaryVectorOp<uint16_t, uint32_t, int8_t>(s.in, [](uint32_t x, int8_t y) -> uint16_t { return (x >> 4) - y; }); break;
    case 4: BinaryVectorOp<uint16_t, uint32_t>(s.in, [](uint32_t x, uint32_t y) -> uint16_t { return (x - y) >> 16; }); break;
    case 5: BinaryVectorOp<uint16_t>(s.in, [](uint16_t x, uint16_t y) -> uint16_t { return x - y; }); break;
    case 6: UnaryVectorOp<uint16_t, int64_t>(s.in, [](int64_t x) -> uint16_t { return x >> 40; }); break;
    default: UnaryVectorOp<uint16_t>(s.in, [](uint16_t x) -> uint16_t { return ~x; });
  }
  for (int i = 0; i < 4; i++) {
    uint64_t x = s.s[0]->v[i], y = s.s[1]->v[i], z = s.s[2]->v[i];
    uint16_t want;
    switch (f) {
      case 0: want = (uint16_t)x - (int8_t)y + ((uint32_t)z >> 16); break;
      case 1: want = ((uint32_t)x - (uint32_t)y + (uint32_t)z) >> 8; break;
      case 2: want = (x & y) - z; break;
      case 3: want = ((uint32_t)x >> 4) - (int8_t)y; break;
      case 4: want = ((uint32_t)x - (uint32_t)y) >> 16; break;
      case 5: want = x - y; break;
      case 6: want = (int64_t)x >> 40; break;
      default: want = ~x;
    }
    vf_check(s.Get(i) == want, "the operation is applied to every element, operands in order");
  }
  vf_check(s.Refs() == 1, "the register alone holds its value");
  vf_reach("vector");
}
