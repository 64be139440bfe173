// Memory mapped devices: the registers of the uart and the accesses passed on to renode.
// SRC: util/other/simple_uart.cc util/renode/renode_memory_access.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=3000000
// BOUND: histories of 2 (quick) or 3 (thorough) stores of 1 to 3 words, or of a misaligned or odd sized access, at every offset of the register window and beyond, with any data and any upper address bits, followed by loads of every register; renode accesses of 1 to 16 bytes with any data, addresses and results; latencies 0..3
// ASSUME: vector accesses, which the devices do not support, are not made
#include <sstream>
#include <string>
#include "memhelp.h"
#include "mpact/sim/util/other/simple_uart.h"
#include "mpact/sim/util/renode/renode_memory_access.h"
using namespace mh;
using mpact::sim::util::SimpleUart;
using mpact::sim::util::renode::RenodeMemoryAccess;
namespace {
// The registers as the documentation of a 16550 with 32 bit registers has them.
struct Model {
  uint32_t lcr = 0, dlm = 0, dll = 0, ier = 0, scr = 0;
  char out[32];
  int n = 0;
  bool dlab() const { return (lcr >> 7) & 1; }
  void Write(int off, uint32_t v) {
    switch (off) {
      case 0: if (dlab()) dll = v; else out[n++] = static_cast<char>(v); break;
      case 4: if (dlab()) dlm = v; else ier = v; break;
      case 12: lcr = v; break;
      case 28: scr = v; break;
      default: break;
    }
  }
  uint32_t Read(int off) const {
    switch (off) {
      case 0: return dlab() ? dll : 0;
      case 4: return dlab() ? dlm : ier;
      case 12: return lcr;
      case 28: return scr;
      default: return 0;
    }
  }
};
struct World {
  State* st = new State;
  DataBufferFactory* f = new DataBufferFactory;
  std::ostringstream& os = *new std::ostringstream;
  SimpleUart* uart = new SimpleUart(st, os);
  uint64_t base = vf_u64("base") >> 16 << 16;
  Model m;
  void Store(int off, int bytes) {
    DataBuffer* db = f->Allocate(bytes);
    for (int i = 0; i < bytes; i++) db->Set<uint8_t>(i, vf_u8("data"));
    uart->Store(base + off, db);
    if (off % 4 == 0 && bytes % 4 == 0) for (int i = 0; i < bytes / 4; i++) m.Write(off + i * 4, db->Get<uint32_t>(i));
    vf_check(db->ref_count() == 1, "a store keeps no reference");
    db->DecRef();
  }
  void Load(int off, int bytes) {
    DataBuffer* db = f->Allocate(bytes);
    for (int i = 0; i < bytes; i++) db->Set<uint8_t>(i, 0xa5);
    db->set_latency(0);
    uart->Load(base + off, db, nullptr, nullptr);
    if (off % 4 == 0 && bytes % 4 == 0) for (int i = 0; i < bytes / 4; i++) vf_check(db->Get<uint32_t>(i) == m.Read(off + i * 4), "a load returns the value of the register");
    else for (int i = 0; i < bytes; i++) vf_check(db->Get<uint8_t>(i) == 0, "a load that is not of whole registers returns zero");
    db->DecRef();
  }
  void CheckAll() {
    for (int off = 0; off < 36; off += 4) Load(off, 4);
    std::string s = os.str();
    vf_check(static_cast<int>(s.size()) == m.n, "each character is sent once");
    for (int i = 0; i < m.n; i++) vf_check(s[i] == m.out[i], "the characters written are sent in order");
  }
};
}  // namespace
VF_ENTRY(P37_uart) {
  World w;
  w.CheckAll();
  for (int k = 0; k < VF_N(2, 3); k++) w.Store(vf_choose("register", 0, 9) * 4, 4);
  w.CheckAll();
  vf_reach("history");
}
VF_ENTRY(P37_uart_modes) {  // longer histories on the registers that keep a value
  static const int kOff[] = {12, 0, 4, 28};
  World w;
  for (int k = 0; k < VF_N(4, 5); k++) w.Store(kOff[vf_choose("register", 0, 3)], 4);
  w.CheckAll();
  vf_reach("modes");
}
VF_ENTRY(P37_uart_words) {  // several registers at a time
  World w;
  int at = vf_choose("register", 0, 7) * 4, n = vf_choose("words", 2, 4);
  w.Store(at, n * 4);
  w.CheckAll();
  at = vf_choose("register", 0, 7) * 4;
  w.Load(at, vf_choose("words", 2, 4) * 4);
}
VF_ENTRY(P37_uart_partial) {  // accesses that are not of whole registers have no effect
  World w;
  w.Store(12, 4);
  int at = vf_choose("offset", 0, 31), n = vf_choose("bytes", 1, 8);
  if (at % 4 == 0 && n % 4 == 0) vf_prune();
  w.Store(at, n);
  w.Load(at, n);
  w.CheckAll();
}
VF_ENTRY(P37_uart_far) {  // offsets with no register
  World w;
  uint64_t off = vf_u64("offset") & 0xfffc;
  vf_assume(off >= 0x20 && off <= 0xfff0);
  DataBuffer* db = w.f->Allocate<uint32_t>(2);
  db->Set<uint32_t>(0, vf_u32("data")); db->Set<uint32_t>(1, vf_u32("data"));
  w.uart->Store(w.base + off, db);
  w.uart->Load(w.base + off, db, nullptr, nullptr);
  vf_check(db->Get<uint64_t>(0) == 0, "there is nothing there");
  w.CheckAll();
}
VF_ENTRY(P37_uart_latency) {
  World w;
  int words = vf_choose("words", 1, 2), off = vf_choose("offset", 0, 3) * 7;
  LatencyCheck(w.st, w.f, words * 4, [&](DataBuffer* db, Instruction* i, ReferenceCount* c) { w.uart->Load(w.base + off, db, i, c); }, 3);
}
VF_ENTRY(P37_renode) {
  DataBufferFactory* f = new DataBufferFactory;
  bool store = vf_bool("store"), set = vf_bool("set"), none = vf_choose("none", 0, 1);
  int n = vf_choose("bytes", 1, VF_N(8, 16)), calls = 0, wrong = 0;
  int32_t result = vf_choose("short", 0, 1) ? vf_range("result", 0, n) : n;
  uint64_t a = vf_u64("address"), seen = 0;
  uint8_t bus[16], old[16];
  for (auto& b : bus) b = vf_u8("bus");
  DataBuffer* db = f->Allocate(n);
  for (int i = 0; i < n; i++) { old[i] = vf_u8("data"); db->Set<uint8_t>(i, old[i]); }
  db->set_latency(0);
  RenodeMemoryAccess::RenodeMemoryFunction rd = [&](uint64_t at, char* p, int32_t k) { calls++; wrong += store | (k != n); seen = at; memcpy(p, bus, k); return result; };
  RenodeMemoryAccess::RenodeMemoryFunction wr = [&](uint64_t at, char* p, int32_t k) { calls++; wrong += !store | (k != n); seen = at; memcpy(bus, p, k); return result; };
  if (none) { if (store) wr = nullptr; else rd = nullptr; }
  RenodeMemoryAccess* m = set ? new RenodeMemoryAccess(nullptr, nullptr) : new RenodeMemoryAccess(std::move(rd), std::move(wr));
  if (set) { m->set_read_fcn(std::move(rd)); m->set_write_fcn(std::move(wr)); }
  vf_check(m->has_read_fcn() == !(none && !store) && m->has_write_fcn() == !(none && store), "the functions are known");
  if (store) m->Store(a, db); else m->Load(a, db, nullptr, nullptr);
  vf_check(calls == !none && wrong == 0, "the bus is accessed once with the size of the access");
  if (!none) vf_check(seen == a, "at the address of the access");
  for (int i = 0; i < n; i++) {
    uint8_t b = db->Get<uint8_t>(i);
    if (store) vf_check(b == old[i] && (none || bus[i] == b), "the bytes of a store arrive");
    else vf_check(b == (none ? 0 : bus[i]), "a load returns the bytes of the bus");
  }
  vf_check(db->ref_count() == 1, "no reference is kept");
  db->DecRef();
}
VF_ENTRY(P37_renode_latency) {
  State* st = new State;
  DataBufferFactory* f = new DataBufferFactory;
  bool none = vf_choose("none", 0, 1);
  RenodeMemoryAccess* m = new RenodeMemoryAccess([](uint64_t, char* p, int32_t k) { memset(p, 7, k); return k; }, nullptr);
  if (none) m->set_read_fcn(nullptr);
  LatencyCheck(st, f, 4, [&](DataBuffer* db, Instruction* i, ReferenceCount* c) { m->Load(16, db, i, c); }, 3);
}
