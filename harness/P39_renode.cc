// Requests that Renode makes reach the core they name, unchanged, and their results are returned.
// SRC: util/renode/renode_mpact.cc util/renode/renode_memory_access.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// FLAGS: -I@VERIF@/shim_fs
// OPTS: steps=30000000
// BOUND: histories of 4 (quick) or 5 (thorough) constructs, connects and destructs over ids 0..2 with the creation of a core succeeding or failing; every request to one of two cores or to an unknown id with all 64 bit arguments, results and failures; step counts up to 3 times the greatest int with every number executed and every reason to halt; images of 0 to 131077 bytes with short and failing writes
// ASSUME: the simulator behind the interface and the file system are replaced by models; calls come from one thread
#include <cstring>
#include <string>
#include <fstream>
#include "absl/strings/str_cat.h"
#include "mpact/sim/util/renode/renode_mpact.h"
#include "mpact/sim/util/renode/renode_debug_interface.h"
#include "vf.h"
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::util::MemoryInterface;
using mpact::sim::util::renode::ExecutionResult;
using mpact::sim::util::renode::RenodeCpuRegister;
using mpact::sim::util::renode::RenodeDebugInterface;
namespace {
enum Call { kNoCall, kReadReg, kWriteReg, kReadMem, kWriteMem, kInfo, kInfoSize, kConfig, kIrq, kElf };
struct Core : RenodeDebugInterface {
  std::string name, type;
  MemoryInterface* memory;
  bool fail = false;
  uint64_t result = 0;
  int calls = 0;
  Call last = kNoCall;
  uint64_t a = 0, b = 0;
  const void* p = nullptr; const void* q = nullptr;
  // Stepping.
  int steps = 0, counts[4], executed[4], step_fails = -1, reason_fails = -1, reasons_asked = 0;
  uint32_t reasons[5];
  // Images.
  uint64_t next = 0, start = 0, total = 0;
  int writes = 0, bad_write = -1; long short_by = 0;
  const char* expect = nullptr;
  bool image = false, in_order = true, same = true;
  static int alive;
  Core() { alive++; }
  ~Core() override { alive--; }
  absl::Status Seen(Call c, uint64_t x = 0, uint64_t y = 0, const void* u = nullptr, const void* v = nullptr) {
    calls++; last = c; a = x; b = y; p = u; q = v;
    return fail ? absl::InternalError("failed") : absl::OkStatus();
  }
  absl::StatusOr<uint64_t> LoadExecutable(const char* f, bool s) override { auto r = Seen(kElf, s, 0, f); if (fail) return r; return result; }
  absl::StatusOr<uint64_t> ReadRegister(uint32_t id) override { auto r = Seen(kReadReg, id); if (fail) return r; return result; }
  absl::Status WriteRegister(uint32_t id, uint64_t v) override { return Seen(kWriteReg, id, v); }
  int32_t GetRenodeRegisterInfoSize() const override { const_cast<Core*>(this)->Seen(kInfoSize).IgnoreError(); return static_cast<int32_t>(result); }
  absl::Status GetRenodeRegisterInfo(int32_t i, int32_t max, char* n, RenodeCpuRegister& info) override { return Seen(kInfo, i, max, n, &info); }
  absl::Status SetConfig(const char* n[], const char* v[], int size) override { return Seen(kConfig, size, 0, n, v); }
  absl::Status SetIrqValue(int32_t i, bool v) override { return Seen(kIrq, i, v); }
  absl::StatusOr<size_t> ReadMemory(uint64_t x, void* buf, size_t n) override { auto r = Seen(kReadMem, x, n, buf); if (fail) return r; return result; }
  absl::StatusOr<size_t> WriteMemory(uint64_t x, const void* buf, size_t n) override {
    if (image) {
      int k = writes++;
      if (n == 0) return 0;
      if (x != start + total) in_order = false;
      if (memcmp(buf, expect + total, n) != 0) same = false;
      if (k == bad_write && short_by == 0) return absl::InternalError("failed");
      if (k == bad_write) return n - short_by;
      total += n;
      return n;
    }
    auto r = Seen(kWriteMem, x, n, buf);
    if (fail) return r;
    return result;
  }
  absl::StatusOr<int> Step(int n) override {
    int k = steps++;
    if (k > 3) return absl::InternalError("too many");
    counts[k] = n;
    if (k == step_fails) return absl::InternalError("failed");
    if (executed[k] > n) executed[k] = n;
    return executed[k];
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    int k = reasons_asked++;
    if (k == reason_fails || k > 4) return absl::InternalError("failed");
    return reasons[k];
  }
};
int Core::alive = 0;
bool g_create_fails;
int g_created;
Core* g_last;
char g_cpu[] = "cpu type";
int32_t ReadFcn(uint64_t, char* p, int32_t n) { for (int i = 0; i < n; i++) p[i] = 1; return n; }
int32_t ReadFcn2(uint64_t, char* p, int32_t n) { for (int i = 0; i < n; i++) p[i] = 2; return n; }
int g_wrote1, g_wrote2;
int32_t WriteFcn(uint64_t, char*, int32_t n) { g_wrote1++; return n; }
int32_t WriteFcn2(uint64_t, char*, int32_t n) { g_wrote2++; return n; }
}  // namespace
RenodeDebugInterface* CreateMpactSim(std::string name, std::string cpu_type, MemoryInterface* memory) {
  if (g_create_fails) return nullptr;
  g_last = new Core;
  g_last->name = name; g_last->type = cpu_type; g_last->memory = memory;
  g_created++;
  return g_last;
}
VF_ENTRY(P39_ren_ids) {  // ids name cores, one each, from creation to destruction
  Core* core[24] = {};
  int length[24] = {};
  int made = 0;
  for (int k = 0; k < VF_N(4, 5); k++) {
    int op = vf_choose("op", 0, 2);
    int created = g_created;
    if (op == 0) {
      g_create_fails = vf_choose("fails", 0, 1);
      int32_t id = construct(g_cpu, 10 + k);
      if (g_create_fails) {
        vf_check(id < 0, "a core that cannot be created is reported");
      } else {
        vf_check(id >= 0 && id < 24 && core[id] == nullptr, "a new core has an id of its own");
        vf_check(g_created == created + 1, "one core is created");
        core[id] = g_last; length[id] = 10 + k; made++;
        vf_check(g_last->type == g_cpu, "the core has the type asked for");
        vf_check(g_last->name == absl::StrCat("renode", id), "a core is named by its id");
      }
    } else {
      int id = vf_choose("id", 0, 2);
      if (op == 1) {
        g_create_fails = vf_choose("fails", 0, 1);
        int32_t got = connect(g_cpu, id, 10 + k);
        if (core[id] != nullptr) {
          vf_check(got == id && g_created == created, "connecting to an existing core creates no other");
        } else if (g_create_fails) {
          vf_check(got < 0, "a core that cannot be created is reported");
        } else {
          vf_check(got == id && g_created == created + 1, "connecting to an unknown id creates the core");
          vf_check(g_last->name == absl::StrCat("renode", id), "a core is named by its id");
          core[id] = g_last; length[id] = 10 + k; made++;
        }
      } else {
        if (core[id] != nullptr) made--;
        destruct(id);
        core[id] = nullptr;
      }
    }
    vf_check(Core::alive == made, "a core lives until it is destructed");
  }
  for (int id = 0; id < 8; id++) {
    int calls = core[id] ? core[id]->calls : 0;
    int32_t r = write_register(id, 7, id);
    vf_check((r == 0) == (core[id] != nullptr), "exactly the existing cores answer");
    vf_check(reset(id) == (core[id] ? 0 : -1), "exactly the existing cores can be reset");
    if (!core[id]) continue;
    vf_check(core[id]->calls == calls + 1 && core[id]->b == static_cast<uint64_t>(id), "the request reaches the core named");
    char n[32]; RenodeCpuRegister info;
    vf_check(get_reg_info(id, 3, n, &info) == 0 && core[id]->a == 3 && core[id]->b == static_cast<uint64_t>(length[id]), "names are limited to the length given for this core");
  }
  vf_reach("ids");
}
VF_ENTRY(P39_ren_requests) {  // each request to each core, with any arguments and results
  construct(g_cpu, 20);
  Core* c0 = g_last;
  connect(g_cpu, 4, 30);
  Core* c1 = g_last;
  int32_t id = vf_choose("id", 0, 2) * 4;
  Core* c = id == 0 ? c0 : id == 4 ? c1 : nullptr;
  Core* other = c == c0 ? c1 : c0;
  uint64_t x = vf_u64("argument"), y = vf_u64("value"), result = vf_u64("result");
  bool fail = vf_choose("fail", 0, 1);
  if (c) { c->fail = fail; c->result = result; }
  other->result = ~result;
  if (c == nullptr) c0->fail = c1->fail = false;
  bool ok = c != nullptr && !fail;
  char buf[8]; uint64_t v = 0x55; int32_t status = 77; RenodeCpuRegister info;
  const char* names[2] = {"a", "b"}; const char* values[2] = {"1", "2"};
  int op = vf_choose("request", 0, 10);
  Call call = kNoCall;
  uint64_t a = 0, b = 0; const void* p = nullptr; const void* q = nullptr;
  switch (op) {
    case 0: vf_check(read_register(id, x, &v) == (ok ? 0 : -1), "read_register reports its outcome");
            vf_check(v == (ok ? result : 0x55), "read_register delivers the value"); call = kReadReg; a = static_cast<uint32_t>(x); break;
    case 1: vf_check(write_register(id, x, y) == (ok ? 0 : -1), "write_register reports its outcome"); call = kWriteReg; a = static_cast<uint32_t>(x); b = y; break;
    case 2: vf_check(read_memory(id, x, buf, y) == (ok ? result : 0), "read_memory reports the bytes read"); call = kReadMem; a = x; b = y; p = buf; break;
    case 3: vf_check(write_memory(id, x, buf, y) == (ok ? result : 0), "write_memory reports the bytes written"); call = kWriteMem; a = x; b = y; p = buf; break;
    case 4: vf_check(get_reg_info(id, x, buf, &info) == (ok ? 0 : -1), "get_reg_info reports its outcome"); call = kInfo; a = static_cast<int64_t>(static_cast<int32_t>(x)); b = id == 0 ? 20 : 30; p = buf; q = &info; break;
    case 5: vf_check(get_reg_info_size(id) == (c ? static_cast<int32_t>(result) : -1), "get_reg_info_size is that of the core"); call = kInfoSize; break;
    case 6: vf_check(set_config(id, names, values, 2) == (ok ? 0 : -1), "set_config reports its outcome"); call = kConfig; a = 2; p = names; q = values; break;
    case 7: vf_check(set_irq_value(id, x, y & 1) == (ok ? 0 : -1), "set_irq_value reports its outcome"); call = kIrq; a = static_cast<int64_t>(static_cast<int32_t>(x)); b = y & 1; break;
    case 8: vf_check(load_elf(id, "file", y & 1, &status) == (ok ? result : 0), "load_elf returns the entry point");
            vf_check(status == (ok ? 0 : -1), "load_elf reports its outcome"); call = kElf; a = y & 1; break;
    case 9: vf_check(read_register(id, x, nullptr) == -1, "a register cannot be read to nowhere"); break;
    case 10: vf_check(get_reg_info(id, x, buf, nullptr) == -1, "register information cannot be delivered to nowhere"); break;
  }
  vf_check(other->calls == 0, "no other core sees the request");
  if (c == nullptr) { vf_check(c0->calls == 0 && c1->calls == 0, "a request to an unknown core reaches none"); vf_reach("unknown"); return; }
  if (call == kNoCall) { vf_check(c->calls == 0, "an impossible request is not passed on"); return; }
  vf_check(c->calls == 1 && c->last == call, "the core sees the request once");
  vf_check(c->a == a && c->b == b, "the arguments are passed on");
  if (call == kElf) vf_check(strcmp(static_cast<const char*>(c->p), "file") == 0, "the file name is passed on");
  else vf_check(c->p == p && c->q == q, "the buffers are passed on");
  vf_reach("request");
}
VF_ENTRY(P39_ren_step) {  // stepping: what was executed is reported, and the step ends when the core halts
  using HR = RenodeDebugInterface::HaltReason;
  construct(g_cpu, 20);
  Core* c = g_last;
  uint64_t n = vf_u64("count");
  vf_assume(n <= 3ull * 0x7fffffff);
  c->step_fails = vf_choose("step_fails", 0, 3) - 1;
  c->reason_fails = vf_choose("reason_fails", 0, 4) - 1;
  static const uint32_t kReasons[] = {static_cast<uint32_t>(HR::kNone), static_cast<uint32_t>(HR::kSoftwareBreakpoint), static_cast<uint32_t>(HR::kSemihostHaltRequest), static_cast<uint32_t>(HR::kProgramDone)};
  for (int i = 0; i < 5; i++) { c->reasons[i] = static_cast<uint32_t>(HR::kNone); if (i < 4) { c->executed[i] = vf_u32("executed") & 0x7fffffff; } }
  int at = vf_choose("halts_at", 0, 3);
  c->reasons[at] = kReasons[vf_choose("reason", 0, 3)];
  if (at == 0) for (int i = 1; i < 4; i++) c->reasons[i] = c->reasons[0] == kReasons[1] ? kReasons[0] : c->reasons[0];
  bool want_status = vf_choose("want_status", 0, 1);
  int32_t status = 77;
  uint64_t got = step(0, n, want_status ? &status : nullptr);
  // The model.
  int32_t expect = 0;
  uint64_t total = 0, left = n;
  int k = 0;
  const int kAborted = static_cast<int>(ExecutionResult::kAborted), kBreak = static_cast<int>(ExecutionResult::kStoppedAtBreakpoint);
  if (n == 0) {
  } else if (c->reason_fails == 0 || c->reasons[0] == kReasons[2]) {
    expect = kAborted;
  } else {
    while (left > 0) {
      int ask = left > 0x7fffffff ? 0x7fffffff : static_cast<int>(left);
      vf_check(k < c->steps && c->counts[k] == ask, "the core is asked for the instructions that are left");
      if (k == c->step_fails) { expect = kAborted; k++; break; }
      int done = c->executed[k];
      total += done;
      k++;
      if (k == c->reason_fails || c->reasons[k] == kReasons[2] || c->reasons[k] == kReasons[3]) { expect = kAborted; break; }
      if (c->reasons[k] == kReasons[1]) { expect = kBreak; break; }
      if (done < ask) break;
      left -= done;
    }
  }
  vf_check(c->steps == k, "the core is stepped no further than asked, or than it halts");
  vf_check(got == total, "the number of instructions executed is reported");
  if (want_status) vf_check(status == expect, "the status tells why the step ended");
  if (total > 0xffffffffull) vf_reach("more than 2^32 instructions");
  vf_reach("step");
}
VF_ENTRY(P39_ren_callbacks) {  // the bus accesses of a core use the functions given first
  typedef int32_t (*F)(uint64_t, char*, int32_t);
  static const F kR[] = {nullptr, ReadFcn, ReadFcn2}, kW[] = {nullptr, WriteFcn, WriteFcn2};
  int r1 = vf_choose("read1", 0, 1), w1 = vf_choose("write1", 0, 1), r2 = vf_choose("read2", 0, 1) * 2, w2 = vf_choose("write2", 0, 1) * 2;
  bool conn = vf_choose("connect", 0, 1);
  int plain = vf_choose("plain", 0, 1);
  int32_t id = conn ? connect_with_sysbus(g_cpu, 0, 5, kR[r1], kW[w1]) : construct_with_sysbus(g_cpu, 5, kR[r1], kW[w1]);
  Core* c = g_last;
  vf_check(id == 0, "the first core");
  MemoryInterface* m = c->memory;
  if (plain) vf_check(connect(g_cpu, id, 5) == id, "connected");
  vf_check(connect_with_sysbus(g_cpu, id, 9, kR[r2], kW[w2]) == id, "connected");
  vf_check(c->memory == m && g_last == c, "the core keeps its memory");
  DataBufferFactory f;
  DataBuffer* db = f.Allocate(4);
  db->Set<uint32_t>(0, 0);
  db->set_latency(0);
  int r = r1 ? r1 : r2, w = w1 ? w1 : w2;
  if (r) {
    m->Load(vf_u64("address"), db, nullptr, nullptr);
    vf_check(db->Get<uint8_t>(0) == r && db->Get<uint8_t>(3) == r, "a load uses the read function given first");
  }
  if (w) {
    m->Store(vf_u64("address"), db);
    vf_check(g_wrote1 == (w == 1) && g_wrote2 == (w == 2), "a store uses the write function given first");
  }
  vf_check(db->ref_count() == 1, "no reference is kept");
  db->DecRef();
  destruct(id);
  vf_check(Core::alive == 0, "destructed");
  vf_reach("callbacks");
}
VF_ENTRY(P39_ren_image) {  // a file is written to memory whole
  static const int kSize[] = {0, 1, 7, 65535, 65536, 65537, 131072, 131077};
  construct(g_cpu, 20);
  Core* c = g_last;
  int size = kSize[vf_choose("size", 0, 7)];
  char* data = new char[size + 1];
  for (int i = 0; i < size; i++) data[i] = static_cast<char>(i * 7 + (i >> 8));
  static const int kAt[] = {0, 1, 6, 65534, 65535, 65536, 131071, 131076};
  for (int i : kAt) if (i < size) data[i] = static_cast<char>(vf_u8("byte"));
  vf_file.name = vf_choose("exists", 0, 1) ? "image" : nullptr;
  vf_file.data = data; vf_file.size = size;
  c->image = true; c->expect = data; c->start = vf_u64("address");
  int known = vf_choose("known", 0, 1);
  c->bad_write = vf_choose("bad_write", 0, 3) - 1;
  c->short_by = vf_choose("short", 0, 1);
  int chunks = 0;
  int32_t r = load_image(known ? 0 : 3, "image", c->start);
  vf_check(c->in_order && c->same, "the image is written in order, at consecutive addresses, as it is in the file");
  if (!known || vf_file.name == nullptr) {
    vf_check(r < 0 && c->writes == 0, "an image that cannot be loaded is reported and nothing is written");
  } else if (r == 0) {
    vf_check(c->total == static_cast<uint64_t>(size), "the whole image is written");
  } else {
    vf_check(r < 0 && c->bad_write >= 0 && c->writes == c->bad_write + 1, "a failing write ends the load with an error");
  }
  (void)chunks;
  vf_check(vf_file.opened == vf_file.closed, "the file is closed");
  vf_reach("image");
}
