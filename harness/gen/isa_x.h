// What a decoded instruction must look like, and operands that remember what they were asked for.
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "absl/container/flat_hash_map.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "mpact/sim/generic/arch_state.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/generic/operand_interface.h"
#include "mpact/sim/generic/resource_operand_interface.h"
#include "isa_sem.h"
#include "vf.h"
namespace vfi {
using namespace mpact::sim::generic;
using mpact::sim::generic::Instruction;
constexpr int kWild = -1000;   // latency computed by the encoding
struct XOp { int kind, en, no, latency; };
struct XPart { const XOp* ops; int n; int sem; };
struct XRes { int kind, en, begin, end; };
struct XPiece { int field, width, kind; const char* text; bool addr; char op; int part, opkind, index, shift; };
struct XInst { int op; const char* name; int size; const XPart* parts; int nparts; const XRes* hold; int nhold; const XRes* acq; int nacq; const int* attrs; const XPiece* pieces; int npieces; };
struct XSlot { int slot; const XInst* insts; int n; int nattrs; };

// A request made of the encoding.
struct Req {
  int kind = -1, slot = -1, op = -1, en = -1, no = -1; uint32_t entry = 0; int sub = 0; std::vector<int> latency; bool computed = false; const void* inst = nullptr;
};
inline uint64_t g_val[8]; inline int g_ops = 0; inline int g_dead = 0;
inline std::string OpName(int i) { std::string s = "<a>"; s[1] = (char)('a' + i); return s; }
struct Src : SourceOperandInterface {
  Req r; int id; uint64_t v;
  explicit Src(const Req& q) : r(q), id(g_ops++) { v = g_val[id & 7]; }
  bool AsBool(int) override { return v & 1; }
  int8_t AsInt8(int i) override { return At(i); }
  uint8_t AsUint8(int i) override { return At(i); }
  int16_t AsInt16(int i) override { return At(i); }
  uint16_t AsUint16(int i) override { return At(i); }
  int32_t AsInt32(int i) override { return At(i); }
  uint32_t AsUint32(int i) override { return At(i); }
  int64_t AsInt64(int i) override { return At(i); }
  uint64_t AsUint64(int i) override { return At(i); }
  uint64_t At(int i) { vf_check(i == 0, "disassembly reads element 0"); return v; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return OpName(id); }
  ~Src() override { g_dead++; }
};
struct Pred : PredicateOperandInterface {
  Req r; int id;
  explicit Pred(const Req& q) : r(q), id(g_ops++) {}
  bool Value() override { return true; }
  std::string AsString() const override { return OpName(id); }
  ~Pred() override { g_dead++; }
};
struct Dst : DestinationOperandInterface {
  Req r; int id;
  explicit Dst(const Req& q) : r(q), id(g_ops++) {}
  DataBuffer* AllocateDataBuffer() override { return nullptr; }
  void InitializeDataBuffer(DataBuffer*) override {}
  DataBuffer* CopyDataBuffer() override { return nullptr; }
  int latency() const override { return 0; }
  std::any GetObject() const override { return std::any(); }
  std::vector<int> shape() const override { return {1}; }
  std::string AsString() const override { return OpName(id); }
  ~Dst() override { g_dead++; }
};
struct Res : ResourceOperandInterface {
  std::vector<XRes> v; int sub = 0;
  bool IsFree() override { return true; }
  void Acquire() override {}
  std::string AsString() const override { return "res"; }
  ~Res() override { g_dead++; }
};
}  // namespace vfi
