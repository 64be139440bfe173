// A debugger connected to the GDB server sees and changes exactly the state it names, and nothing it sends breaks the
// server.
// SRC: util/gdbserver/gdbserver.cc generic/data_buffer.cc
// FLAGS: -DVF_HEX_DIGITS -fsanitize=array-bounds -fsanitize-trap=array-bounds
// OPTS: steps=30000000
// BOUND: one or two commands per connection followed by a detach; addresses of up to 16 digits, 4 bytes of memory, three general registers of 4 bytes, an 8 byte pc, a 16 byte register, all values; payloads of up to 3 (quick) or 4 arbitrary bytes after any command letter; the connection ending or failing after every byte
// ASSUME: sockets, absl and RE2 are replaced by models; payload bytes are below 0x80; one core
#include <cstdarg>
#include <istream>
#include <string>
#include <string_view>
#include <vector>
#include <netinet/in.h>
#include <sys/socket.h>
#include "absl/types/span.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"
#include "vf_sock.h"
using mpact::sim::generic::AccessType;
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::DataBufferFactory;
using mpact::sim::generic::DebugInfo;
using mpact::sim::generic::Instruction;
using mpact::sim::util::gdbserver::GdbServer;
static int g_server_open, g_accepts = 1;
extern "C" int socket(int, int, int) { g_server_open = 1; return 6; }
extern "C" int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
extern "C" int bind(int, const sockaddr*, socklen_t) { return 0; }
extern "C" int listen(int, int) { return 0; }
extern "C" int accept(int, sockaddr*, socklen_t*) { if (!g_accepts) return -1; vf_sock.fd = 7; vf_sock.open = 1; return 7; }
extern "C" int shutdown(int, int) { return 0; }
extern "C" int fcntl(int fd, int cmd, ...) {
  if (fd == 6 && g_server_open) return 0;
  if (fd == 7 && vf_sock.open) return 0;
#ifndef VF_SYMBOLIC
  if (fd != 6 && fd != 7) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return syscall(SYS_fcntl, fd, cmd, a); }
#endif
  return -1;
}
namespace {
struct Info : DebugInfo {
  DebugRegisterMap map{{0, "r0"}, {1, "r1"}, {2, "r2"}, {4, "pc"}, {5, "v0"}};
  const DebugRegisterMap& debug_register_map() const override { return map; }
  int GetFirstGpr() const override { return 0; }
  int GetLastGpr() const override { return 3; }  // there is no register 3
  int GetPcRegister() const override { return 4; }
  int GetGprWidth() const override { return 32; }
  int GetPcWidth() const override { return 64; }
  int GetRegisterByteWidth(int) const override { return 4; }
  std::string_view GetGdbTargetXml() const override {
    return "<t>\n<!--#$*}-->\n<reg name=\"r0\" bitsize=\"32\" regnum=\"0\"/>\n<reg name=\"pc\" bitsize=\"64\" regnum=\"4\"/>\n"
           "<reg name=\"v0\" bitsize=\"128\" regnum=\"5\"/>\n</t>";
  }
  std::string_view GetLLDBHostInfo() const override { return "triple:rv;ptrsize:8;"; }
};
struct Core : CoreDebugInterface {
  uint8_t mem[4] = {};
  uint64_t base = 0;
  DataBuffer* r[3] = {};
  DataBuffer* v0 = nullptr;
  uint64_t pc = 0;
  uint32_t reason = *HaltReasonOf(HaltReason::kNone);
  bool fail = false;
  RunStatus status = RunStatus::kHalted;
  int changes = 0, writes = 0, reads = 0, runs = 0, steps = 0, waits = 0, sets = 0, clears = 0;
  uint64_t address = 0, length = 0;
  AccessType access = AccessType::kNone;
  static const uint32_t* HaltReasonOf(HaltReason h) { static uint32_t v; v = static_cast<uint32_t>(h); return &v; }
  absl::Status Result() { return fail ? absl::InternalError("failed") : absl::OkStatus(); }
  absl::Status Halt() override { changes++; return Result(); }
  absl::Status Halt(HaltReason) override { changes++; return Result(); }
  absl::Status Halt(HaltReasonValueType) override { changes++; return Result(); }
  absl::StatusOr<int> Step(int n) override { changes++; if (fail) return Result(); steps += n; return n; }
  absl::Status Run() override { changes++; if (fail) return Result(); runs++; return Result(); }
  absl::Status Wait() override { waits++; return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { return status; }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return reason; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    if (n == "pc" && !fail) return pc;
    if (n == "r0" && !fail) return r[0]->Get<uint32_t>(0);
    return absl::NotFoundError("register");
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    changes++;
    if (n != "pc" || fail) return absl::NotFoundError("register");
    pc = v;
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    if (fail) return absl::NotFoundError("register");
    if (n == "v0") return v0;
    if (n[0] == 'r') return r[n[1] - '0'];
    return absl::NotFoundError("register");
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* b, size_t n) override {
    reads++; address = a; length = n;
    if (fail) return Result();
    if (n > 4) n = 4;
    memcpy(b, mem, n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* b, size_t n) override {
    changes++; writes++; address = a; length = n;
    if (fail) return Result();
    if (n > 4) n = 4;
    memcpy(mem, b, n);
    return n;
  }
  bool HasBreakpoint(uint64_t) override { return false; }
  absl::Status SetSwBreakpoint(uint64_t a) override { changes++; sets++; address = a; return Result(); }
  absl::Status ClearSwBreakpoint(uint64_t a) override { changes++; clears++; address = a; return Result(); }
  absl::Status ClearAllSwBreakpoints() override { changes++; return Result(); }
  void GetWatchpointInfo(uint64_t& a, AccessType& t) override { a = address; t = access; }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return absl::NotFoundError(""); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return absl::NotFoundError(""); }
  std::string GetExecutableFileName() override { return "prog"; }
};
uint8_t g_in[40000], g_out[8192];
int g_n;
char Digit(unsigned d) { return static_cast<char>('0' + d + 39 * static_cast<unsigned>(d > 9)); }
void Raw(std::string_view s) { for (char c : s) g_in[g_n++] = c; }
void Packet(std::string_view s) {
  uint8_t sum = 0;
  Raw("$");
  for (char c : s) { g_in[g_n++] = c; sum += c; }
  Raw("#");
  uint8_t sym = vf_u8("checksum");
  vf_assume(sym == sum);
#ifdef VF_SYMBOLIC
  if (!vf_is_symbolic(sum)) sym = sum;
#endif
  g_in[g_n++] = Digit(sym >> 4);
  g_in[g_n++] = Digit(sym & 15);
}
void Command(std::string_view s) { Packet(s); Raw("+"); }
// An address of `digits` digits, three of which, at any place, have any value.
std::string SymHex(int digits, uint64_t* v) {
  std::string s;
  int at = digits > 3 ? vf_choose("place", 0, 2) * 6 : 0;
  if (at > digits - 3) at = digits - 3;
  *v = 0;
  for (int i = 0; i < digits; i++) {
    unsigned d = i >= at && i < at + 3 ? vf_range("digit", 0, 15) : (i * 7 + 3) & 15;
    s.push_back(Digit(d));
    *v = *v << 4 | d;
  }
  return s;
}
// Bytes, one of which, in any place, has any value.
void SymBytes(uint8_t* b, int n) {
  int at = vf_choose("place", 0, n - 1);
  for (int i = 0; i < n; i++) b[i] = i == at ? vf_u8("byte") : static_cast<uint8_t>(i * 0x1b + 0x9c);
}
std::string HexOf(const uint8_t* b, int n) {
  std::string s;
  for (int i = 0; i < n; i++) { s.push_back(Digit(b[i] >> 4)); s.push_back(Digit(b[i] & 15)); }
  return s;
}
std::string HexLe(uint64_t v, int bytes) {
  std::string s;
  for (int i = 0; i < bytes; i++, v >>= 8) { s.push_back(Digit(v >> 4 & 15)); s.push_back(Digit(v & 15)); }
  return s;
}
struct World {
  DataBufferFactory* f = new DataBufferFactory;
  Core& core = *new Core;
  Info& info = *new Info;
  long pos = 0;
  bool result = false;
  explicit World(bool sym = true) {
    vf_sock = VfSock();
    vf_sock.in = g_in; vf_sock.out = g_out; vf_sock.out_cap = sizeof(g_out);
    g_n = 0; g_server_open = 0; g_accepts = 1;
    for (auto& r : core.r) { r = f->Allocate<uint32_t>(1); r->Set<uint32_t>(0, sym ? vf_u32("reg") : 0x11223344); }
    core.v0 = f->Allocate<uint8_t>(16);
    for (int i = 0; i < 16; i++) core.v0->Set<uint8_t>(i, i * 3);
    core.pc = sym ? vf_u64("pc") : 0x1234;
    for (auto& m : core.mem) m = sym ? vf_u8("mem") : 0x5a;
    Raw("+");
  }
  void Run() {
    vf_sock.in_len = g_n;
    {
      CoreDebugInterface* cores[] = {&core};
      GdbServer server(absl::MakeSpan(cores), info);
      result = server.Connect(1234);
    }
    vf_check(!vf_sock.open && !vf_sock.bad_close, "the connection is closed exactly once");
    vf_check(!g_server_open, "the server socket is closed exactly once");
  }
  // Whether the next thing sent is `c`.
  bool Is(char c) { if (pos < vf_sock.out_len && g_out[pos] == c) { pos++; return true; } return false; }
  // The next packet.
  std::string Reply() {
    vf_check(Is('$'), "a reply");
    std::string s;
    uint8_t sum = 0;
    for (; pos < vf_sock.out_len && g_out[pos] != '#'; pos++) {
      vf_check(g_out[pos] != '$' && g_out[pos] != '*', "special characters are escaped");
      sum += g_out[pos];
      if (g_out[pos] == '}' && pos + 1 < vf_sock.out_len) { pos++; sum += g_out[pos]; s.push_back(g_out[pos] ^ 0x20); }
      else { s.push_back(g_out[pos]); }
    }
    vf_check(Is('#') && pos + 2 <= vf_sock.out_len, "a complete reply");
    vf_check(g_out[pos] == static_cast<uint8_t>(Digit(sum >> 4)) && g_out[pos + 1] == static_cast<uint8_t>(Digit(sum & 15)), "checksum of the reply");
    pos += 2;
    return s;
  }
  std::string Answer() { vf_check(Is('+'), "an acknowledgement"); return Reply(); }
  void Done() { vf_check(Answer() == "OK", "the server goes on"); vf_check(pos == vf_sock.out_len, "nothing else is sent"); vf_check(result, "detached"); }
};
bool IsError(const std::string& s) { return s.size() >= 2 && s[0] == 'E'; }
bool Same(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  unsigned d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= static_cast<unsigned char>(a[i] ^ b[i]);
  return d == 0;
}
}  // namespace
extern "C" int vf_close_server(int fd) { if (fd == 6 && g_server_open) { g_server_open = 0; return 1; } return 0; }
VF_ENTRY(P36_read_memory) {
  World w;
  uint64_t a, n = vf_choose("length", 0, 5);
  std::string s = "m" + SymHex(vf_choose("digits", 0, 1) ? 16 : 3, &a) + ",";
  s.push_back(Digit(n));
  w.core.fail = vf_bool("fails");
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  vf_check(w.core.reads == 1 && w.core.address == a && w.core.length == n, "the memory named is read");
  if (w.core.fail) vf_check(IsError(r), "a failed read is reported");
  else vf_check(Same(r, HexOf(w.core.mem, n > 4 ? 4 : n)), "the bytes read are sent");
  vf_check(w.core.changes == 0, "nothing changes");
  w.Done();
}
VF_ENTRY(P36_write_memory) {
  World w;
  uint64_t a, n = vf_choose("length", 0, 2), k;
  n = n == 2 ? 6 : n == 1 ? VF_N(3, 4) : 1;  // the core has 4 bytes of memory
  k = n + vf_choose("more", 0, 2) - 1;
  uint8_t b[7] = {1, 2, 3, 4, 5, 6, 7};
  bool whole = k == n && n <= 4;
  if (whole) SymBytes(b, n);
  std::string s = "M" + SymHex(whole ? VF_N(8, 16) : 1, &a) + ",";
  s.push_back(Digit(n));
  s += ":" + HexOf(b, k);
  w.core.fail = vf_bool("fails");
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (k != n) { vf_check(IsError(r) && w.core.changes == 0, "a length that does not match the data is refused"); }
  else {
    vf_check(w.core.writes == 1 && w.core.changes == 1 && w.core.address == a && w.core.length == n, "the memory named is written");
    if (w.core.fail || n > 4) vf_check(IsError(r), "a failed or incomplete write is reported");
    else {
      vf_check(r == "OK", "a write is confirmed");
      for (unsigned i = 0; i < n; i++) vf_check(w.core.mem[i] == b[i], "the bytes sent are written");
    }
  }
  w.Done();
}
VF_ENTRY(P36_write_memory_digits) {  // data that is not hexadecimal
  World w;
  std::string s = "M10,2:";
  bool ok = true;
  for (int i = 0; i < 4; i++) {
    char c = vf_u8("c");
    vf_assume(c > 0 && c < 0x7d && c != '#' && c != '$' && c != '*');
    ok &= (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    s.push_back(c);
  }
  if (ok) vf_prune();
  Command(s); Command("D");
  w.Run();
  vf_check(IsError(w.Answer()) && w.core.changes == 0, "data that is not hexadecimal is refused");
  w.Done();
}
VF_ENTRY(P36_read_registers) {
  World w;
  w.core.fail = vf_bool("fails");
  Command("g"); Command("D");
  w.Run();
  std::string r = w.Answer(), e;
  for (auto* b : w.core.r) e += HexLe(b->Get<uint32_t>(0), 4);
  if (w.core.fail) vf_check(IsError(r), "a failed read is reported");
  else vf_check(Same(r, e), "the registers in order");
  vf_check(w.core.changes == 0, "nothing changes");
  w.Done();
}
VF_ENTRY(P36_write_registers) {
  World w;
  uint32_t v[3], old[3];
  uint8_t b[12];
  int cut = vf_choose("cut", 0, 24);
  if (cut) { for (int i = 0; i < 12; i++) b[i] = 0x91 + i; } else { SymBytes(b, 12); }
  std::string s = "G" + HexOf(b, 12);
  memcpy(v, b, 12);
  for (int i = 0; i < 3; i++) { old[i] = w.core.r[i]->Get<uint32_t>(0); }
  s.resize(s.size() - cut);
  w.core.fail = vf_bool("fails");
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (w.core.fail || cut) vf_check(IsError(r), "a failed write is reported");
  else vf_check(r == "OK", "a write is confirmed");
  for (int i = 0; i < 3; i++) {
    if (w.core.fail || cut) vf_check(w.core.r[i]->Get<uint32_t>(0) == old[i], "registers are unchanged");
    else vf_check(w.core.r[i]->Get<uint32_t>(0) == v[i], "the registers have the values sent");
  }
  w.Done();
}
VF_ENTRY(P36_register) {
  World w;
  bool write = vf_bool("write");
  int n = vf_choose("register", 0, 6);
  w.core.fail = vf_bool("fails");
  bool known = n <= 2 || n == 5, readable = known || n == 4;
  uint32_t v, old[3];
  SymBytes(reinterpret_cast<uint8_t*>(&v), 4);
  for (int i = 0; i < 3; i++) old[i] = w.core.r[i]->Get<uint32_t>(0);
  std::string s(write ? "P" : "p");
  s.push_back(Digit(n));
  if (write) s += "=" + HexLe(v, 4);
  if (write && n == 4) vf_prune();
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (w.core.fail || !(write ? known : readable)) vf_check(IsError(r), "a failed access is reported");
  else if (write) vf_check(r == "OK", "a write is confirmed");
  else if (n <= 2) vf_check(Same(r, HexLe(old[n], 4)), "the value of the register");
  else if (n == 4) vf_check(Same(r, HexLe(w.core.pc, 8)), "the value of the pc");
  else { uint8_t b[16]; for (int i = 0; i < 16; i++) b[i] = i * 3; vf_check(Same(r, HexOf(b, 16)), "the value of the wide register"); }
  for (int i = 0; i < 3; i++) vf_check(w.core.r[i]->Get<uint32_t>(0) == (write && n == i && !w.core.fail ? v : old[i]), "exactly the register named changes");
  w.Done();
}
VF_ENTRY(P36_breakpoint) {
  World w;
  bool set = vf_bool("set");
  uint64_t a;
  std::string s = (set ? "Z0," : "z0,") + SymHex(vf_choose("digits", 0, 1) ? 16 : 2, &a) + ",4";
  w.core.fail = vf_bool("fails");
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  vf_check(w.core.sets == set && w.core.clears == !set && w.core.changes == 1 && w.core.address == a, "the breakpoint named is set or removed");
  if (w.core.fail) vf_check(IsError(r), "a failure is reported");
  else vf_check(r == "OK", "a breakpoint is confirmed");
  w.Done();
}
static const uint32_t kReasons[] = {0, 1, 2, 3, 4, 5, 6, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xffffffff};
static bool Exited(uint32_t r) { return r == 3 || r == 6; }
VF_ENTRY(P36_run) {  // every way to continue or step
  static const char* const kCmd[] = {"c", "vCont;c", "vCont;c:1", "vCont;c:-1", "vCont;s", "vCont;s:1", "vCont;s:-1", "vCont;s:1;c", "vCont;c:1;s", "s"};
  World w;
  int k = vf_choose("command", 0, 9);
  w.core.reason = kReasons[vf_choose("reason", 0, 10)];
  w.core.access = static_cast<AccessType>(vf_choose("access", 0, 3));
  w.core.address = 0x1020;
  bool step = k == 9 || (k >= 4 && k <= 7);
  // The core may have been set running by something else.
  bool running = k != 9 && vf_choose("running", 0, 1);
  if (running) w.core.status = vf_choose("status", 0, 1) ? CoreDebugInterface::RunStatus::kRunning : CoreDebugInterface::RunStatus::kSingleStep;
  Command(kCmd[k]); Command("D");
  w.Run();
  std::string r = w.Answer();
  vf_check(w.core.runs == (!running && !step) && w.core.steps == (!running && step), "the core runs, or makes one step, once");
  vf_check(w.core.changes == !running, "nothing else is done to the core");
  if (!step) vf_check(w.core.waits >= 1, "the server waits for the core to stop");
  if (k == 9) vf_check(r[0] == 'T', "a stop is reported");
  else if (Exited(w.core.reason)) vf_check(r == "W00", "the end of the program is reported");
  else {
    vf_check(r.substr(0, 1) == "T" && r.find("thread:1;") != std::string::npos, "a stop is reported");
    if (k >= 1 && w.core.reason == 4 && w.core.access != AccessType::kNone) {
      static const char* const kWatch[] = {"", ";rwatch:1020;", ";watch:1020;", ";awatch:1020;"};
      vf_check(r.find(kWatch[static_cast<int>(w.core.access)]) != std::string::npos, "with the address of the access");
    }
    if (k == 0) vf_check(Same(r.substr(12), "4:" + HexLe(w.core.pc, 8) + ";"), "with the pc");
  }
  w.Done();
}
VF_ENTRY(P36_after_exit) {  // a program that has finished does not run again
  static const char* const kFirst[] = {"?", "c", "vCont;c", "vCont;s:1", "c10"};
  static const char* const kNext[] = {"c", "vCont;c", "vCont;s", "c20", "vCont;c:1;s"};
  World w(false);
  bool done = vf_choose("done", 0, 1);
  w.core.reason = static_cast<uint32_t>(done ? CoreDebugInterface::HaltReason::kProgramDone : CoreDebugInterface::HaltReason::kUserRequest);
  int first = vf_choose("first", 0, 4), next = vf_choose("next", 0, 4);
  Command(kFirst[first]); Command(kNext[next]); Command(kNext[vf_choose("third", 0, 1)]); Command("D");
  w.Run();
  for (int i = 0; i < 3; i++) {
    std::string r = w.Answer();
    if (done) vf_check(r == "W00", "the end of the program is reported"); else vf_check(r[0] == 'T', "a stop is reported");
  }
  vf_check(w.core.runs + w.core.steps == (done ? first != 0 : 2 + (first != 0)), "the core runs once for each command until the program is done");
  w.Done();
}
VF_ENTRY(P36_wide_register) {  // registers whose buffer is smaller than the target description says
  World w(false);
  int n = vf_choose("bytes", 1, 16);
  w.core.v0 = w.f->Allocate<uint8_t>(n);
  uint8_t b[16] = {};
  for (int i = 0; i < n; i++) { b[i] = i == n - 1 ? vf_u8("v") : i * 7; w.core.v0->Set<uint8_t>(i, b[i]); }
  Command("p5"); Command("D");
  w.Run();
  vf_check(Same(w.Answer(), HexOf(b, 16)), "the value, with zeros for the bytes the core does not have");
  w.Done();
}
VF_ENTRY(P36_continue_at) {
  World w;
  uint64_t a;
  std::string s = "c" + SymHex(vf_choose("digits", 0, 1) ? 16 : 2, &a);
  w.core.reason = 0;
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  vf_check(w.core.pc == a && w.core.runs == 1, "the core continues at the address");
  vf_check(Same(r, "T02thread:1;4:" + HexLe(a, 8) + ";"), "the stop is reported with the pc");
  w.Done();
}
VF_ENTRY(P36_halt_reason) {
  World w;
  w.core.reason = kReasons[vf_choose("reason", 0, 10)];
  w.core.fail = vf_bool("fails");
  Command("?"); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (w.core.fail) vf_check(IsError(r), "a failure is reported");
  else if (Exited(w.core.reason)) vf_check(r == "W00", "the end of the program is reported");
  else vf_check(r.substr(0, 2) == "T0" && r.find("thread:1;") != std::string::npos, "a stop is reported");
  vf_check(w.core.changes == 0, "nothing changes");
  w.Done();
}
VF_ENTRY(P36_threads) {  // threads that do not exist
  World w;
  static const char* const kSel[] = {"Hg0", "Hg1", "Hg-1", "Hc1", "Hg2", "Hg7fffffff", "Hg-2", "Hc5", "H", "Hg", "Hc-80000000"};
  static const char* const kCmd[] = {"g", "p0", "P0=01020304", "G0102030401020304", "c", "s", "vCont;c:0", "vCont;c:2", "vCont;s:-2", "vCont;c:7fffffff", "vCont", "vCont;", "vCont;c:"};
  int k = vf_choose("select", 0, 10), c = vf_choose("command", 0, 12);
  Command(kSel[k]); Command(kCmd[c]); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (k <= 3) vf_check(r == "OK", "the thread is selected");
  else vf_check(IsError(r), "a thread that does not exist is refused");
  r = w.Answer();
  if (c >= 6) vf_check(IsError(r) && w.core.changes == 0, "an action on a thread that does not exist is refused");
  w.Done();
}
VF_ENTRY(P36_suffix) {  // the thread given with each command
  World w(false);
  static const char* const kCmd[] = {"g;thread:1;", "g;thread:2;", "g;thread:0;", "p0;thread:1;", "p0;thread:9999999999;", "P0=01020304;thread:3;", "P0=01020304;thread:1;", "c;thread:1;", "c;thread:4;", "G00;thread:1", "G010203040102030401020304;thread:7;", "s;thread:1;", "s;thread:2;", "g;thread:x;"};
  static const int kGood[] = {1, 0, 0, 1, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0};
  int c = vf_choose("command", 0, 13);
  Command("QThreadSuffixSupported"); Command(kCmd[c]); Command("D");
  w.Run();
  vf_check(w.Answer() == "OK", "thread suffixes are accepted");
  std::string r = w.Answer();
  if (!kGood[c]) vf_check(c == 13 || c == 4 || IsError(r), "a thread that does not exist is refused");
  else vf_check(!IsError(r), "the command is carried out");
  w.Done();
}
VF_ENTRY(P36_escape) {  // escaped bytes arrive as the bytes they stand for
  World w(false);
  char c = vf_u8("c");
  vf_assume(c > 0);
  // The escaped form of a digit of an address.
  unsigned d = vf_range("digit", 0, 15);
  std::string s = "m";
  s.push_back('}'); s.push_back(Digit(d) ^ 0x20);
  s += "0,2";
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  vf_check(w.core.reads == 1 && w.core.address == d * 16 && w.core.length == 2, "an escaped byte stands for one byte");
  w.Done();
}
VF_ENTRY(P36_escape_at_end) {
  World w(false);
  Command("m10,1}"); Command("D");
  w.Run();
  w.Answer();
  w.Done();
}
VF_ENTRY(P36_checksum) {
  World w(false);
  unsigned d1 = vf_range("d1", 0, 15), d2 = vf_range("d2", 0, 15);
  if ((d1 << 4 | d2) == (('M' + '1' + ',' + '1' + ':' + 'f' + 'f') & 0xff)) vf_prune();
  Raw("$M1,1:ff#"); g_in[g_n++] = Digit(d1); g_in[g_n++] = Digit(d2);
  Command("D");
  w.Run();
  vf_check(w.Is('-'), "a wrong checksum is refused");
  vf_check(w.core.changes == 0, "and has no effect");
  w.Done();
}
VF_ENTRY(P36_no_ack) {
  World w;
  Command("QStartNoAckMode");
  Packet("m10,2");
  bool bad = vf_bool("bad");
  if (bad) Raw("$g#00");
  int other = vf_choose("other", 0, 3);
  if (other) { Packet(other == 1 ? "!" : other == 2 ? "QX" : "Hg9"); Packet("m10,2"); Packet("qC"); }
  Packet("D");
  w.Run();
  vf_check(w.Answer() == "OK", "acknowledgements are switched off");
  vf_check(Same(w.Reply(), HexOf(w.core.mem, 2)), "the reply comes without an acknowledgement");
  if (bad) vf_check(IsError(w.Reply()), "a wrong checksum is reported");
  if (other) {
    std::string r = w.Reply();
    if (other == 3) vf_check(IsError(r), "an error"); else vf_check(r.empty(), "an empty reply");
    vf_check(Same(w.Reply(), HexOf(w.core.mem, 2)), "replies still come without an acknowledgement");
    vf_check(w.Reply() == "QC1", "replies still come without an acknowledgement");
  }
  vf_check(w.Reply() == "OK" && w.pos == vf_sock.out_len && w.result, "the server goes on");
}
VF_ENTRY(P36_resend) {  // replies that are refused are sent again
  World w;
  Packet("m10,1");
  int n = vf_choose("refused", 0, 6);
  for (int i = 0; i < n; i++) Raw("-");
  Raw("+");
  Command("D");
  w.Run();
  std::string e = HexOf(w.core.mem, 1);
  vf_check(w.Is('+'), "an acknowledgement");
  for (int i = 0; i <= n && i < 5; i++) vf_check(Same(w.Reply(), e), "the reply is sent again");
  vf_check(w.core.reads == 1, "the command is carried out once");
  if (n < 5) w.Done();
}
VF_ENTRY(P36_queries) {
  World w(false);
  static const char* const kQ[][2] = {{"qAttached", "0"}, {"qC", "QC1"}, {"qfThreadInfo", "m1"}, {"qsThreadInfo", "l"}, {"qExecAndArgs", "prog"}, {"qHostInfo", "triple:7276;ptrsize:8;"}, {"qSearch:x", ""}, {"qSymbol::", ""}, {"q", ""}, {"Q", ""}, {"QX", ""}, {"vMustReplyEmpty", ""}, {"vCont?", "vCont;c;s;"}, {"", ""}, {"!", ""}, {"Z1,10,4", ""}, {"Z9,10,4", ""}, {"Z0,,4", ""}, {"Z", ""}, {"QEnableErrorStrings", "OK"}, {"QListThreadsInStopReply", "OK"}};
  int k = vf_choose("query", 0, 20);
  Command(kQ[k][0]); Command("D");
  w.Run();
  vf_check(w.Answer() == kQ[k][1], "the answer");
  vf_check(w.core.changes == 0, "nothing changes");
  w.Done();
}
VF_ENTRY(P36_supported) {
  World w(false);
  static const char* const kQ[] = {"qSupported", "qSupported:", "qSupported:error-message+", "qSupported:a+;error-message+;b-", "qSupported:error-message-", "qSupported:no-error-message+;error"};
  int k = vf_choose("query", 0, 5);
  Command(kQ[k]); Command("m,1"); Command("D");
  w.Run();
  vf_check(w.Answer().substr(0, 15) == "PacketSize=2000", "the features");
  std::string r = w.Answer();
  vf_check(IsError(r) && (r[1] == '.') == (k == 2 || k == 3), "errors have text if the debugger supports it");
  w.Done();
}
VF_ENTRY(P36_xml) {  // the target description in pieces
  World w(false);
  std::string x(w.info.GetGdbTargetXml());
  int size = x.size();
  uint64_t off = vf_choose("offset", 0, 160), len = vf_choose("length", 0, 2) == 0 ? 1 : vf_bool("all") ? 0xffffffffffffffff : 50;
  if (static_cast<int>(off) > size + 2) vf_prune();
  std::string s = "qXfer:features:read:target.xml:" + HexOf(reinterpret_cast<uint8_t*>(&off), 1) + ",";
  if (len == 50) s += "32"; else if (len == 1) s += "1"; else s += "ffffffffffffffff";
  Command(s); Command("D");
  w.Run();
  std::string r = w.Answer();
  if (static_cast<int>(off) >= size) vf_check(r == "l", "nothing is left");
  else {
    vf_check(r.substr(1) == x.substr(off, len), "the piece named");
    bool last = len == 0xffffffffffffffff || off + len >= x.size();
    vf_check(r[0] == 'l' ? last : r[0] == 'm', "whether more is left");
  }
  w.Done();
}
VF_ENTRY(P36_any) {  // any payload
  static const char kLetters[] = "?cDgGHkmMpPqQsvzZ!";
  World w(false);
  int n = vf_choose("n", 0, VF_N(3, 4));
  std::string s;
  s.push_back(kLetters[vf_choose("letter", 0, sizeof(kLetters) - 2)]);
  for (int i = 0; i < n; i++) {
    char c = vf_u8("c");
    vf_assume(c >= 0 && c != '#');
    s.push_back(c);
  }
  Command(s); Command("D");
  w.Run();
  if (s[0] == 'k') return;
  std::string r = w.Answer();
  if (s[0] == 'D') return;
  w.Done();
}
VF_ENTRY(P36_any_list) {  // any payload after longer prefixes
  static const char* const kPrefix[] = {"vCont;", "vCont;c:", "Z0,", "z0,1,", "M1,", "M1,1:", "P1=", "m1,", "qXfer:features:read:target.xml:", "Hg", "qSupported"};
  World w(false);
  int n = vf_choose("n", 0, VF_N(2, 3));
  std::string s = kPrefix[vf_choose("prefix", 0, 10)];
  for (int i = 0; i < n; i++) {
    char c = vf_u8("c");
    vf_assume(c >= 0 && c != '#');
    s.push_back(c);
  }
  Command(s); Command("D");
  w.Run();
  w.Answer();
  w.Done();
}
VF_ENTRY(P36_raw) {  // any bytes instead of packets
  World w(false);
  g_n = 0;
  int n = vf_choose("n", 0, VF_N(4, 5));
  for (int i = 0; i < n; i++) { g_in[g_n++] = vf_u8("c"); if (i > 0) vf_assume(g_in[g_n - 1] < 0x80); }
  vf_sock.read_error = vf_bool("error");
  w.Run();
  vf_check(w.core.changes == 0, "nothing changes");
}
VF_ENTRY(P36_broken) {  // the connection ends or fails after any byte
  World w(false);
  Command("M10,2:0102"); Command("g"); Command("vCont;c:1"); Command("D");
  g_n = vf_choose("received", 0, g_n);
  vf_sock.read_error = vf_bool("error");
  vf_sock.eintr = vf_choose("interrupted", 0, 1);
  w.Run();
  vf_check(w.core.writes == (g_n >= 15), "a command is carried out when it is complete");
}
VF_ENTRY(P36_deaf) {  // the debugger does not take what is sent
  World w(false);
  Command("g"); Command("D");
  vf_sock.write_limit = vf_choose("limit", 0, 40);
  w.Run();
}
VF_ENTRY(P36_long) {  // packets longer than the buffer
  World w(false);
  static const int kLen[] = {1000, 16379, 16380, 16381, 16382, 16384, 17000, 33000};
  int n = kLen[vf_choose("length", 0, 7)];
  Raw("$m");
  for (int i = 0; i < n; i++) g_in[g_n++] = '0';
  Raw("#00");
  w.Run();
  vf_check(w.core.changes == 0, "nothing changes");
}
VF_ENTRY(P36_no_client) {
  World w(false);
  g_accepts = 0;
  CoreDebugInterface* cores[] = {&w.core};
  {
    GdbServer server(absl::MakeSpan(cores), w.info);
    vf_check(!server.Connect(0), "no port");
    vf_check(!server.Connect(1234), "no client");
  }
  vf_check(!g_server_open && !vf_sock.bad_close, "the server socket is closed exactly once");
}
