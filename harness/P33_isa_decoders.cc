// Generated slot decoders: a decoded instruction has the operands, latencies, semantic functions, resources,
// attributes, size and disassembly of its description.
// SRC: generic/instruction.cc generic/arch_state.cc generic/component.cc generic/register.cc generic/fifo.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// GEN: gen/isa.sh
// FLAGS: -DVF_FMT_TOKENS -I@VERIF@/shim_antlr -I@VERIF@/harness/gen -I@GEN@/isa
// OPTS: steps=20000000
// BOUND: the decoders emitted by the generator of /repo for four instruction set descriptions (about 150 instructions: sharing of setters, latencies, child instructions, arrays, resources, attributes, inheritance, templates, overrides, generated opcodes, several slots, both generator versions); every address, entry and operand value; array operands of 0 to 2 elements; every resource present or absent
// ASSUME: the encoding returns operands that are not null; bundles are out of scope; numbers in the disassembly are compared before they are converted to text
#include "isa_expect.h"
#include "vf.h"
using namespace vfi;
namespace {
int Size(const char* spec) {   // bytes of the operand that are printed
  int w = 0; for (; *spec; spec++) if (*spec >= '0' && *spec <= '9') w = w * 10 + *spec - '0';
  return w == 0 ? 8 : w <= 2 ? 1 : w <= 4 ? 2 : w <= 8 ? 4 : 8;
}
uint64_t Ext(uint64_t v, int n) { return n == 1 ? (uint64_t)(int64_t)(int8_t)v : n == 2 ? (uint64_t)(int64_t)(int16_t)v : n == 4 ? (uint64_t)(int64_t)(int32_t)v : v; }
int Wide(const char* s) { int w = 0; for (; *s; s++) if (*s >= '0' && *s <= '9') w = w * 10 + *s - '0'; return w; }

void CheckReq(const Req& r, const XOp& x, const XInst& xi, int slot, uint32_t entry, int sub, Instruction* inst, bool v2) {
  vf_check(r.kind == x.kind && r.en == x.en, "the operand is the one described");
  vf_check(r.no == x.no, "the operand number is the position of the operand");
  vf_check(r.slot == slot && r.entry == entry && r.op == xi.op && r.sub == sub, "operand requested for this instruction");
  vf_check(r.inst == (v2 ? (const void*)inst : nullptr), "version 2 passes the instruction that gets the operand");
  if (x.kind == 3) vf_check(r.latency.size() == 1 && r.latency[0] == (x.latency == kWild ? 2000 + x.en * 16 + x.no : x.latency), "latency of the destination");
  if (x.kind == 4) {
    if (x.latency == kWild) vf_check(r.latency.size() == 3 && r.latency[0] == 3000 + x.en * 16 + x.no && r.latency[1] == 1 && r.latency[2] == 2, "latencies of the destination array");
    else vf_check(r.latency.size() == 1 && r.latency[0] == x.latency, "latency of the destination array");
  }
}
// Removes what was got from what is wanted.
void Match(const std::vector<ResourceOperandInterface*>& got, std::vector<XRes>& want, const char* what) {
  for (auto* g : got) {
    vf_check(g != nullptr, "absent resources are left out");
    auto* r = static_cast<Res*>(g);
    if (r->sub > 0) continue;   // further elements of an array, counted below
    for (auto& x : r->v) {
      bool found = false;
      for (auto& w : want) if (x.kind == w.kind && x.en == w.en && x.begin == w.begin && x.end == w.end) { found = true; w.kind = -2; break; }
      vf_check(found, what);
    }
  }
}
template <typename Enc> void CheckInst(Instruction* inst, const Enc& enc, const XInst& x, const XSlot& xs, uint64_t address, int slot, uint32_t entry, bool v2, bool first_of_word, int word_size, size_t* plist = nullptr) {
  vf_check(inst->opcode() == x.op, "opcode");
  vf_check(inst->size() == (first_of_word ? word_size : x.size), "size");
  vf_check(inst->address() == address, "address");
  Instruction* in = inst; size_t own = 0; size_t& list = plist ? *plist : own;
  for (int p = 0; p < x.nparts; p++) {
    vf_check(in != nullptr, "one instruction for each part");
    const XPart& xp = x.parts[p];
    if (p > 0) { vf_check(in->address() == address, "address of a child"); vf_check(in->next() == nullptr, "children are nested"); }
    g_sem = -1; in->Execute(nullptr); vf_check(g_sem == xp.sem, "semantic function of the part");
    int si = 0, di = 0; bool pred = false;
    for (int k = 0; k < xp.n; k++) {
      const XOp& o = xp.ops[k];
      if (o.kind == 0) {
        vf_check(in->Predicate() != nullptr, "predicate"); auto* q = static_cast<Pred*>(in->Predicate());
        CheckReq(q->r, o, x, slot, entry, 0, in, v2); pred = true; continue;
      }
      int n = 1;
      if (o.kind == 2 || o.kind == 4) { vf_check(list < enc.counts.size(), "array operands are requested"); n = enc.counts[list++]; }
      for (int j = 0; j < n; j++) {
        if (o.kind <= 2) {
          vf_check(si < in->SourcesSize(), "number of sources"); auto* q = static_cast<Src*>(in->Source(si++));
          CheckReq(q->r, o, x, slot, entry, j, in, v2);
        } else {
          vf_check(di < in->DestinationsSize(), "number of destinations"); auto* q = static_cast<Dst*>(in->Destination(di++));
          CheckReq(q->r, o, x, slot, entry, j, in, v2);
        }
      }
    }
    vf_check(si == in->SourcesSize() && di == in->DestinationsSize() && pred == (in->Predicate() != nullptr), "no further operands");
    if (p > 0) vf_check(in->ResourceHold().empty() && in->ResourceAcquire().empty(), "resources belong to the whole instruction");
    in = in->child();
  }
  vf_check(in == nullptr, "no further child instructions");
  // Resources.
  if (!first_of_word && word_size == 0) {
    std::vector<XRes> wh(x.hold, x.hold + x.nhold), wa(x.acq, x.acq + x.nacq), lost(enc.lost);
    Match(inst->ResourceHold(), wh, "resources that have to be free");
    Match(inst->ResourceAcquire(), wa, "resources that are acquired");
    // What is missing is what the encoding does not have.
    wh.insert(wh.end(), wa.begin(), wa.end()); size_t missing = 0;
    for (auto& w : wh) {
      if (w.kind == -2) continue;
      missing++; bool found = false;
      for (auto& l : lost) if (l.kind == w.kind && l.en == w.en && l.begin == w.begin && l.end == w.end) { found = true; l.kind = -3; break; }
      vf_check(found, "every described resource is requested");
    }
    vf_check(missing == lost.size(), "no other resource is requested");
    int subs = 0; for (auto* v : {&inst->ResourceHold(), &inst->ResourceAcquire()}) for (auto* g : *v) if (static_cast<Res*>(g)->sub > 0) subs++;
    vf_check(subs == enc.rsub, "every element of a resource array");
  }
  // Attributes.
  auto at = inst->Attributes();
  vf_check((int)at.size() == xs.nattrs, "one attribute for each name");
  for (int i = 0; i < xs.nattrs; i++) vf_check(at[i] == x.attrs[i], "value of the attribute");
}
// The disassembly, with the numbers replaced by tokens in the order of printing.
int CheckDisasm(Instruction* inst, const XInst& x, uint64_t address, int tok0) {
  std::string want, field; int tok = tok0, cur = 0, width = 0;
  auto close = [&] { bool left = width < 0; size_t w = left ? -width : width; while (field.size() < w) { if (left) field.push_back(' '); else field.insert(field.begin(), ' '); } want += field; field.clear(); };
  for (int i = 0; i < x.npieces; i++) {
    const XPiece& p = x.pieces[i];
    if (i > 0 && p.field != cur) close();
    cur = p.field; width = p.width;
    if (p.kind == 0) { field += p.text; continue; }
    Instruction* in = inst; for (int k = 0; k < p.part; k++) in = in->child();
    if (p.kind == 1) { field += p.opkind == 0 ? in->Predicate()->AsString() : p.opkind == 1 ? in->Source(p.index)->AsString() : in->Destination(p.index)->AsString(); continue; }
    uint64_t v = address; int n = 8, w = Wide(p.text); char c = p.text[std::string_view(p.text).size() - 1];
    if (p.part >= 0) {
      n = Size(p.text); v = Ext(static_cast<Src*>(in->Source(p.index))->v, n);
      if (p.shift != 0) { if (n < 4) n = 4; v = p.shift > 0 ? Ext(v << p.shift, n) : (uint64_t)((int64_t)v >> -p.shift); }
      if (p.addr) { v = p.op == '-' ? address - v : address + v; n = 8; }
    }
    if (c != 'd' && n < 8) v &= (1ULL << (8 * n)) - 1;
    if (c == 'x') field += "0x";
    vf_check(tok < absl::shim::g_ftoks, "every number is printed");
    std::string spec = p.text;
    vf_check(absl::shim::g_ftok[tok].spec == spec, "format of the number");
    vf_check(absl::shim::g_ftok[tok].value == v, "value of the number");
    field += absl::shim::TokText(tok++, w);
  }
  if (x.npieces > 0) close();
  vf_check(inst->AsString() == want, "disassembly");
  return tok;
}
struct State : ArchState { State() : ArchState("state") {} };
void Reset() { g_ops = 0; g_dead = 0; absl::shim::g_ftoks = 0; }
template <typename Enc, typename D> void RunSlot(const XSlot* slots, int n_slots, bool v2, D decode, int slot) {
  State* st = new State;
  for (int i = 0; i < 8; i++) g_val[i] = 0;
  { Enc* e = new Enc; e->slot = slots[slot].slot; e->entry = 0; e->op = 0; Reset(); Instruction* i = decode(slot, st, 0, e, 0); i->DecRef(); }
  const XSlot& xs = slots[slot];
  const XInst& x = xs.insts[vf_choose("inst", 0, xs.n - 1)];
  uint64_t address = vf_u64("address"); uint32_t entry = vf_u32("entry");
  for (int i = 0; i < 4; i++) g_val[i] = vf_u64("value");
  Reset();
  auto live = vf_heap_live();
  {
    Enc enc; enc.slot = xs.slot; enc.entry = entry; enc.op = x.op;
    Instruction* inst = decode(slot, st, address, &enc, (int)entry);
    vf_check(inst != nullptr && inst->next() == nullptr && inst->state() == st, "one instruction");
    CheckInst(inst, enc, x, xs, address, xs.slot, entry, v2, false, 0);
    int tok = CheckDisasm(inst, x, address, 0);
    vf_check(tok == absl::shim::g_ftoks, "no further numbers");
    inst->DecRef();
    vf_check(g_dead >= g_ops, "operands are released with the instruction");
  }
  vf_check(vf_heap_live() == live, "nothing is left behind");
}
template <typename Enc, typename D> void RunWord(const XSlot* slots, const int (*word)[2], int n, bool v2, D decode) {
  State* st = new State;
  for (int i = 0; i < 8; i++) g_val[i] = 0;
  { Enc* e = new Enc; e->any = true; Reset(); Instruction* i = decode(st, 0, e); i->DecRef(); }
  int base = vf_choose("first", 0, 8), stride = vf_choose("stride", 0, 2);
  uint64_t address = vf_u64("address"); for (int i = 0; i < 4; i++) g_val[i] = vf_u64("value");
  Reset();
  auto live = vf_heap_live();
  {
    Enc enc; enc.any = true; const XInst* xi[8]; int size = 0;
    for (int i = 0; i < n; i++) { const XSlot& xs = slots[word[i][0]]; xi[i] = &xs.insts[(base + i * stride) % xs.n]; enc.ops[i] = xi[i]->op; size += xi[i]->size; }
    Instruction* inst = decode(st, address, &enc);
    vf_check(inst != nullptr && enc.n_ops == n, "every entry of the word is decoded once");
    Instruction* in = inst; int tok = 0; size_t list = 0;
    for (int i = 0; i < n; i++) {
      vf_check(in != nullptr, "one instruction for each entry");
      vf_check(enc.seen[i][0] == slots[word[i][0]].slot && enc.seen[i][1] == word[i][1], "the entries in the order of the description");
      CheckInst(in, enc, *xi[i], slots[word[i][0]], address, slots[word[i][0]].slot, word[i][1], v2, i == 0, size, &list);
      tok = CheckDisasm(in, *xi[i], address, tok);
      in = in->next();
    }
    vf_check(in == nullptr && tok == absl::shim::g_ftoks, "nothing else is decoded");
    inst->DecRef();
    vf_check(g_dead >= g_ops, "operands are released with the instructions");
  }
  vf_check(vf_heap_live() == live, "nothing is left behind");
}
#define SLOT(isa, v2, k) RunSlot<isa::FakeEnc>(isa::x_slots, isa::n_slots, v2, [](int s, State* st, uint64_t a, isa::FakeEnc* e, int n) { return isa::DecodeSlot(s, st, a, e, n); }, k)
#define WORD(isa, v2) RunWord<isa::FakeEnc>(isa::x_slots, isa::x_word, isa::n_word, v2, [](State* st, uint64_t a, isa::FakeEnc* e) { return isa::DecodeWord(st, a, e); })
template <typename N> void Names(const XSlot* slots, int n_slots, int n, N name) {
  int i = vf_choose("opcode", 0, n - 1); bool found = false;
  for (int s = 0; s < n_slots; s++) for (int k = 0; k < slots[s].n; k++) if (slots[s].insts[k].op == i) { found = true; vf_check(std::string(name(i)) == slots[s].insts[k].name, "name of the opcode"); }
  if (found) vf_reach("found");
}
}  // namespace
VF_ENTRY(P33_setters) { SLOT(alpha, false, 0); }
VF_ENTRY(P33_inherit) { SLOT(beta, false, (int)vf_choose("slot", 0, beta::n_slots - 1)); }
VF_ENTRY(P33_slots) { SLOT(gamma, true, (int)vf_choose("slot", 0, gamma::n_slots - 1)); }
VF_ENTRY(P33_generate) { SLOT(delta, false, 0); }
VF_ENTRY(P33_word) { switch (vf_choose("isa", 0, 1)) { case 0: WORD(beta, false); break; default: WORD(gamma, true); } }
VF_ENTRY(P33_names) {
  switch (vf_choose("isa", 0, 3)) {
    case 0: Names(alpha::x_slots, alpha::n_slots, alpha::kOpcodes, alpha::OpcodeName); break;
    case 1: Names(beta::x_slots, beta::n_slots, beta::kOpcodes, beta::OpcodeName); break;
    case 2: Names(gamma::x_slots, gamma::n_slots, gamma::kOpcodes, gamma::OpcodeName); break;
    default: Names(delta::x_slots, delta::n_slots, delta::kOpcodes, delta::OpcodeName);
  }
}
