// Loading a program puts every byte of its segments where the file says, and profiles count every instruction executed.
// SRC: util/program_loader/elf_program_loader.cc util/other/instruction_profiler.cc generic/data_buffer.cc
// OPTS: steps=20000000
// BOUND: programs of 1 or 2 (quick) or 3 (thorough) segments of any type and flags, at any addresses, of up to 3 bytes with any values; symbol tables of up to 2 symbols of any kind and address with sizes from a small table; queries of any address; profiles of 1 to 3 segments with gaps around the coalescing distance, granularities 1, 2 and 4, and 2 (quick) or 3 (thorough) samples
// ASSUME: ELFIO is replaced by a model that hands over the contents of the file; functions do not overlap partially
#include <sys/stat.h>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/util/other/instruction_profiler.h"
#include "mpact/sim/util/program_loader/elf_program_loader.h"
#include "vf.h"
using mpact::sim::generic::AccessType;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::generic::ReferenceCount;
using mpact::sim::util::ElfProgramLoader;
using mpact::sim::util::InstructionProfiler;
using mpact::sim::util::MemoryDescriptor;
using mpact::sim::util::MemoryInterface;
namespace {
int g_exists = 1, g_loads = 1, g_invalid = 0, g_calls = 0;
struct Seg { uint32_t type, flags; uint64_t paddr, vaddr, filesz, memsz; char data[4]; };
Seg g_seg[3];
int g_segs = 0;
std::vector<ELFIO::vf_symbol>* g_sym[2];
int g_tables = 0;
uint64_t g_entry = 0;
struct Access { int who; uint64_t address; int n; char data[4]; };
struct Log { Access a[8]; int n = 0; };
struct Mem : MemoryInterface {
  Log* log; int who;
  Mem(Log* l, int w) : log(l), who(w) {}
  void Load(uint64_t, DataBuffer*, Instruction*, ReferenceCount*) override { vf_check(false, "nothing is loaded"); }
  void Load(DataBuffer*, DataBuffer*, int, DataBuffer*, Instruction*, ReferenceCount*) override { vf_check(false, "nothing is loaded"); }
  void Store(DataBuffer*, DataBuffer*, int, DataBuffer*) override { vf_check(false, "no vector stores"); }
  void Store(uint64_t a, DataBuffer* db) override {
    Access& x = log->a[log->n++];
    x.who = who; x.address = a; x.n = db->size<uint8_t>();
    for (int i = 0; i < x.n && i < 4; i++) x.data[i] = db->Get<uint8_t>(i);
  }
};
struct Core : CoreDebugInterface {
  Log* log;
  int fail = 0;
  explicit Core(Log* l) : log(l) {}
  absl::Status Halt() override { return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
  absl::StatusOr<int> Step(int n) override { return n; }
  absl::Status Run() override { return absl::OkStatus(); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return RunStatus::kHalted; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return 0u; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string&) override { return 0ull; }
  absl::Status WriteRegister(const std::string&, uint64_t) override { return absl::OkStatus(); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string&) override { return nullptr; }
  absl::StatusOr<size_t> ReadMemory(uint64_t, void*, size_t n) override { return n; }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    Access& x = log->a[log->n++];
    x.who = 9; x.address = a; x.n = n;
    memcpy(x.data, b, n);
    if (fail == 1) return absl::InternalError("failed");
    return fail == 2 ? n - 1 : n;
  }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearSwBreakpoint(uint64_t) override { return absl::OkStatus(); }
  absl::Status ClearAllSwBreakpoints() override { return absl::OkStatus(); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return nullptr; }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return std::string(); }
};
void Reset() {
  g_exists = g_loads = 1; g_invalid = g_segs = g_tables = g_calls = 0;
  g_entry = vf_u64("entry");
}
void AnySegments(int max) {
  g_segs = vf_choose("segments", 1, max);
  static const uint32_t kType[] = {1, 1, 4, 0x6474e551};
  for (int i = 0; i < g_segs; i++) {
    Seg& s = g_seg[i];
    s.type = kType[vf_choose("type", i == 0 ? 1 : 0, 3)];
    s.flags = vf_range("flags", 0, 7);
    s.paddr = vf_u64("paddr");
    s.vaddr = vf_u64("vaddr");
    s.filesz = s.type == 1 ? vf_choose("bytes", 0, VF_N(3, 1)) * VF_N(1, 3) : 2;
    s.memsz = s.type == 1 ? s.filesz + vf_range("more", 0, 5) : vf_u64("memory");
    for (auto& c : s.data) c = vf_u8("byte");
  }
}
}  // namespace
extern "C" int stat(const char*, struct stat*) { return g_exists ? 0 : -1; }
bool vf_elf_load(ELFIO::elfio* e, const std::string& name) {
  g_calls++;
  vf_check(name == "prog", "the file named is loaded");
  if (!g_loads) return false;
  if (g_invalid) e->error = "bad";
  e->entry = g_entry;
  e->segments.clear(); e->sections.clear();
  for (int i = 0; i < g_segs; i++) {
    e->segments.push_back(std::make_unique<ELFIO::segment>());
    ELFIO::segment& s = *e->segments.back();
    Seg& g = g_seg[i];
    s.type = g.type; s.flags = g.flags; s.paddr = g.paddr; s.vaddr = g.vaddr; s.filesz = g.filesz; s.memsz = g.memsz; s.data = g.data;
  }
  e->sections.push_back(std::make_unique<ELFIO::section>());
  e->sections.back()->type = ELFIO::SHT_PROGBITS;
  for (int i = 0; i < g_tables; i++) {
    e->sections.push_back(std::make_unique<ELFIO::section>());
    e->sections.back()->type = ELFIO::SHT_SYMTAB;
    e->sections.back()->symbols = *g_sym[i];
  }
  return true;
}
VF_ENTRY(P38_load) {
  Reset();
  AnySegments(VF_N(2, 3));
  Log log;
  Mem code(&log, 1), data(&log, 2), third(&log, 3);
  Core core(&log);
  int mode = vf_choose("mode", 0, 3);
  uint64_t delta = vf_u64("delta");
  std::vector<MemoryDescriptor> memories;
  memories.push_back({&code, [](const ELFIO::segment& s) { return (s.get_flags() & 3) == 1; }, nullptr});
  memories.push_back({&data, [](const ELFIO::segment& s) { return (s.get_flags() & 2) != 0; }, [&](uint64_t a) { return a - delta; }});
  memories.push_back({&third, [](const ELFIO::segment& s) { return (s.get_flags() & 4) != 0; }, nullptr});
  if (mode == 3) core.fail = vf_choose("fail", 0, 2);
  ElfProgramLoader* l = mode == 0 ? new ElfProgramLoader(&code) : mode == 1 ? new ElfProgramLoader(&code, &data) : mode == 2 ? new ElfProgramLoader(memories) : new ElfProgramLoader(&core);
  auto res = l->LoadProgram("prog");
  int k = 0;
  bool failed = false;
  uint64_t stack = 0;
  bool has_stack = false;
  for (int i = 0; i < g_segs && !failed; i++) {
    Seg& s = g_seg[i];
    if (s.type == 0x6474e551) { stack = s.memsz; has_stack = true; continue; }
    if (s.type != 1 || s.filesz == 0) continue;
    uint64_t at = s.paddr ? s.paddr : s.vaddr;
    int who = mode == 3 ? 9 : mode == 0 ? 1 : mode == 1 ? ((s.flags & 1) ? 1 : 2) : (s.flags & 3) == 1 ? 1 : (s.flags & 2) ? 2 : (s.flags & 4) ? 3 : 0;
    if (mode == 2 && who == 2) at -= delta;
    if (who == 0) continue;
    vf_check(k < log.n, "every segment is loaded");
    Access& x = log.a[k++];
    vf_check(x.who == who, "a segment is loaded into its memory");
    vf_check(x.address == at && x.n == static_cast<int>(s.filesz), "a segment is loaded at its address with its size");
    for (int j = 0; j < x.n; j++) vf_check(x.data[j] == s.data[j], "a segment is loaded with its bytes");
    failed = mode == 3 && core.fail;
  }
  vf_check(k == log.n, "nothing else is loaded");
  vf_check(res.ok() == !failed, "failed writes are reported");
  if (res.ok()) vf_check(res.value() == g_entry, "the entry point");
  if (!failed) {
    auto st = l->GetStackSize();
    vf_check(st.ok() == (has_stack && stack != 0), "the stack size is known if the program has one");
    if (st.ok()) vf_check(st.value() == stack, "the stack size");
  }
  vf_reach("loaded");
}
VF_ENTRY(P38_refused) {  // files that cannot be loaded
  Reset();
  int why = vf_choose("why", 0, 2);
  if (why == 0) g_exists = 0; else if (why == 1) g_loads = 0; else g_invalid = 1;
  g_segs = 1;
  g_seg[0] = Seg{1, 5, 0x100, 0x100, 2, 2, {1, 2}};
  Log log;
  Mem mem(&log, 1);
  ElfProgramLoader l(&mem);
  bool symbols = vf_bool("symbols");
  auto res = symbols ? l.LoadSymbols("prog") : l.LoadProgram("prog");
  vf_check(!res.ok() && log.n == 0, "a file that cannot be loaded is reported and nothing is stored");
  vf_check(!l.GetSymbol("f").ok() && !l.GetFcnSymbolName(0x100).ok() && !l.GetFunctionName(0x100).ok() && !l.GetStackSize().ok(), "and there are no symbols");
}
VF_ENTRY(P38_symbols) {
  Reset();
  static const char* const kNames[] = {"f", "main", "f", "a_function_with_a_long_name"};
  static const uint64_t kAt[] = {0, 0x10000, 0xffffffffffff0000};
  static const uint64_t kSize[] = {4, 0, 10, 1};
  int n = vf_choose("symbols", 0, 2);
  ELFIO::vf_symbol y[3];
  g_tables = n == 0 ? vf_choose("tables", 0, 1) : vf_choose("tables", 1, 2);
  g_sym[0] = new std::vector<ELFIO::vf_symbol>;
  g_sym[1] = new std::vector<ELFIO::vf_symbol>;
  uint64_t scale = vf_choose("scaled", 0, 1) ? 2 : 1, at = kAt[vf_choose("address", 0, 2)];
  for (int i = 0; i < n; i++) {
    y[i].name = kNames[i == 0 ? vf_choose("name", 0, 1) : (vf_choose("name", 0, 1) + i) & 3];
    y[i].size = kSize[vf_choose("size", 0, VF_N(2, 3))];
    // Functions next to each other, with a gap, inside or at the start of the one before.
    int where = i == 0 ? 0 : vf_choose("place", 0, 2);
    if (i > 0) {
      uint64_t len = y[i - 1].size / scale;
      if (where == 0) at += len; else if (where == 1) at += len + 3; else if (y[i].size / scale == 0 || len == 0) at += len / 2;
    }
    if (where == 2 && y[i].size / scale != 0 && y[i - 1].size / scale != 0 && y[i].size != y[i - 1].size) vf_prune();
    y[i].value = at;
    y[i].type = vf_choose("type", 1, 2);
    y[i].bind = 1; y[i].section = 1; y[i].other = 0;
  }
  if (n >= 2 && vf_choose("swap", 0, 1)) std::swap(y[0], y[n - 1]);
  for (int i = 0; i < n; i++) g_sym[g_tables == 2 && i > 0]->push_back(y[i]);
  // Partial overlaps are outside.
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) {
    if (y[i].type != 2 || y[j].type != 2) continue;
    uint64_t si = y[i].size / scale, sj = y[j].size / scale, d = y[i].value - y[j].value;
    if (si == 0 || sj == 0 || (d == 0 && si == sj)) continue;
    if (!(d >= sj && (0 - d) >= si)) vf_prune();
  }
  Log log;
  Mem mem(&log, 1);
  ElfProgramLoader l(&mem);
  l.set_text_size_scale(scale);
  auto res = l.LoadSymbols("prog");
  vf_check(res.ok() && res.value() == g_entry && log.n == 0, "the symbols are loaded, and nothing else");
  for (const char* name : {"main", "f", "none"}) {
    int hit = -1;
    for (int i = 0; i < n && hit < 0; i++) if (y[i].name == name) hit = i;
    auto s = l.GetSymbol(name);
    vf_check(s.ok() == (hit >= 0), "a symbol is found if the table has it");
    if (s.ok()) vf_check(s.value().first == y[hit].value && s.value().second == y[hit].size, "the value and size of a symbol");
  }
  uint64_t q = n && vf_choose("near", 0, 1) ? y[0].value + vf_range("offset", 0, 14) - 1 : vf_u64("query");
  auto exact = l.GetFcnSymbolName(q);
  auto in = l.GetFunctionName(q);
  bool is = false, inside = false, named = false, nin = false;
  for (int i = 0; i < n; i++) {
    if (y[i].type != 2) continue;
    if (y[i].value == q) { is = true; if (exact.ok() && exact.value() == y[i].name) named = true; }
    if (q - y[i].value < y[i].size / scale) { inside = true; if (in.ok() && in.value() == y[i].name) nin = true; }
  }
  vf_check(exact.ok() == is && named == is, "the function at an address");
  vf_check(in.ok() == inside && nin == inside, "the function around an address");
}
VF_ENTRY(P38_unloaded) {
  Log log;
  Mem mem(&log, 1);
  ElfProgramLoader l(&mem);
  vf_check(!l.GetSymbol("f").ok() && !l.GetFcnSymbolName(1).ok() && !l.GetFunctionName(1).ok() && !l.GetStackSize().ok(), "nothing is known before a program is loaded");
}
namespace {
// Expected profile: addresses of samples in executable segments with their counts, in order of the address.
struct Profile {
  uint64_t at[8]; uint64_t count[8]; int n = 0;
  void Add(uint64_t a) {
    int i = 0;
    while (i < n && at[i] < a) i++;
    if (i < n && at[i] == a) { count[i]++; return; }
    for (int j = n++; j > i; j--) { at[j] = at[j - 1]; count[j] = count[j - 1]; }
    at[i] = a; count[i] = 1;
  }
};
}  // namespace
namespace {
void Profiled(uint64_t gran, int samples) {
  Log log;
  Mem mem(&log, 1);
  ElfProgramLoader* l = new ElfProgramLoader(&mem);
  vf_check(l->LoadSymbols("prog").ok(), "loaded");
  bool late = vf_choose("late", 0, 1);
  InstructionProfiler* p = late ? new InstructionProfiler(gran) : new InstructionProfiler(*l, gran);
  if (late) { p->SetValue(0x1000); p->SetElfLoader(l); }
  Profile e;
  for (int k = 0; k < samples; k++) {
    int i = vf_choose("segment", 0, k == 0 ? g_segs : g_segs - 1), off;
    uint64_t a;
    if (i == g_segs) { a = ~0ull - vf_choose("far", 0, 1) * 0x10000000; }  // in none of them
    else {
      uint64_t len = g_seg[i].memsz;
      off = vf_choose("place", 0, 1) ? len - 1 : 0;
      a = g_seg[i].vaddr + off;
      if (g_seg[i].flags & 1) e.Add(a / gran * gran);
      else continue;
    }
    p->SetValue(a);
  }
  std::ostringstream os, expect;
  p->WriteProfile(os);
  expect << "Address,Count\n";
  for (int i = 0; i < e.n; i++) expect << "0x" << std::hex << e.at[i] << "," << std::dec << e.count[i] << "\n";
  vf_check(os.str() == expect.str(), "every instruction executed is counted");
  delete p;
}
}  // namespace
VF_ENTRY(P38_profile) {
  static const uint64_t kLen[] = {4, 6, 1, 9};
  static const uint64_t kGap[] = {0, 2, 0x1000, 0x3ffe, 0x4000, 0x8001};
  Reset();
  uint64_t gran = 1 << vf_choose("granularity", 0, 2);
  g_segs = vf_choose("segments", 1, 2);
  uint64_t at = g_segs == 1 ? vf_choose("start", 0, 4) : 0x1000;
  for (int i = 0; i < g_segs; i++) {
    if (i > 0) at += kGap[vf_choose("gap", 0, 5)];
    uint64_t len = kLen[vf_choose("length", 0, 3)];
    g_seg[i] = Seg{1, 5, 0, at, len, len, {0}};
    at += len;
  }
  Profiled(gran, 2);
}
VF_ENTRY(P38_profile_many) {
  static const uint64_t kGap[] = {2, 0x3ffe, 0x8001};
  Reset();
  uint64_t gran = VF_N(4, 1 << vf_choose("granularity", 0, 2));
  g_segs = 3;
  uint64_t at = vf_choose("zero", 0, 1) ? 0 : 0x1000;
  for (int i = 0; i < g_segs; i++) {
    if (i > 0) at += kGap[vf_choose("gap", 0, 2)];
    g_seg[i] = Seg{1, 5, 0, at, 6, 6, {0}};
    at += 6;
  }
  int kind = vf_choose("kind", 0, 2);  // one of them may hold data, or have no bytes in the file
  if (kind > 0) { Seg& s = g_seg[vf_choose("which", 0, 2)]; if (kind == 1) s.flags = 6; else s.filesz = 0; }
  Profiled(gran, VF_N(2, 3));
}
