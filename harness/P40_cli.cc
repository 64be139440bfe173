// Renode and the command line interface share one core: two threads, all interleavings.
// SRC: util/renode/renode_cli_top.cc util/renode/cli_forwarder.cc generic/data_buffer.cc
// FLAGS: -DVF_THREADS
// OPTS: steps=3000000
// BOUND: two renode steps of 1 to 7 instructions, all interleavings with up to 3 (two steps: 2; with at most 3 instructions each; thorough: one more) preemptions, together with a connection of the command line interface that gives 2 (quick) or 3 (thorough) commands out of step (1 to 7 instructions), run, halt and register access and then disconnects; a program of 1 to 7 instructions with a breakpoint anywhere or nowhere; every interleaving of the operations on the mutex and of the calls to the core
// ASSUME: the threads are coroutines that switch when they lock, unlock or wait and inside calls to the core; accesses to shared variables outside of the mutex are seen at these points only; renode does not step again after a step that failed
#include <string>
#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
#include "vf.h"
using mpact::sim::generic::CoreDebugInterface;
using mpact::sim::generic::DataBuffer;
using mpact::sim::generic::Instruction;
using mpact::sim::util::renode::CLIForwarder;
using mpact::sim::util::renode::RenodeCLITop;
namespace {
uint64_t kMost = 7;
constexpr int kRenode = 1, kCli = 2;
struct Core : CoreDebugInterface {
  uint32_t pos = 0, length = 0, breakpoint = 0, by[3] = {};
  int busy = 0, ended_by = 0, steps_begun = 0, step_of = 0;  // the thread inside a call, the last that executed
  bool halt_requested = false, fail = false, stopped = false;
  uint32_t reason = static_cast<uint32_t>(HaltReason::kNone);
  // What the threads are entitled to.
  bool renode_stepping = false, cli_holds = false, connected = false, unattended = false;
  struct In {
    Core* c;
    explicit In(Core* core) : c(core) {
      vf_check(c->busy == 0, "renode and the command line interface never use the core at the same time");
      c->busy = vf_thread_now ? vf_thread_now : 3;
      vf_thread_yield();
    }
    ~In() { c->busy = 0; }
  };
  int calls = 0, last = 0;
  uint64_t a = 0, b = 0, result = 0;
  const void* p = nullptr;
  std::string name;
  bool fail_next = false;
  int failing = 0, failed = 0;  // the thread whose step fails, or has failed
  absl::Status Seen(int c, uint64_t x = 0, uint64_t y = 0, const void* q = nullptr, const std::string& n = "") {
    if (vf_thread_now == kCli) vf_check(renode_stepping || done(), "the command line interface uses the core during renode's steps, or when the program is done");
    calls++; last = c; a = x; b = y; p = q; name = n;
    return fail_next ? absl::InternalError("failed") : absl::OkStatus();
  }
  bool done() const { return vf_concretize(pos >= length); }
  absl::StatusOr<int> Step(int n) override {
    int me = vf_thread_now;
    vf_check(n > 0, "the core is stepped by at least one instruction");
    vf_check(renode_stepping, "the core executes only while renode steps");
    if (me == kRenode) vf_check(!cli_holds || done(), "renode does not step while the command line interface is in control");
    halt_requested = false;
    In in(this);
    if (failing == me) { failing = 0; failed = me; return absl::InternalError("failed"); }
    reason = static_cast<uint32_t>(HaltReason::kNone);
    uint32_t k = n;
    if (vf_concretize(k > length - pos)) k = length - pos;
    bool stop = false;
    if (vf_concretize(!done() && breakpoint - pos < k && !(stopped && breakpoint == pos))) { k = breakpoint - pos; stop = true; }  // breakpoints behind are far ahead
    stopped = stop;
    pos += k;
    if (done()) reason = static_cast<uint32_t>(HaltReason::kProgramDone);
    else if (stop) { reason = static_cast<uint32_t>(HaltReason::kSoftwareBreakpoint); cli_holds = true; }
    if ((stop || done()) && !connected) unattended = true;  // halted with nobody to go on
    by[me] += k;
    if (k > 0) { ended_by = me; step_of = steps_begun; }
    return k;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override { return reason; }
  absl::Status Halt() override { halt_requested = true; return absl::OkStatus(); }
  absl::Status Halt(HaltReason) override { halt_requested = true; return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { halt_requested = true; return absl::OkStatus(); }
  absl::Status Run() override { vf_check(false, "the core is stepped, not run"); return absl::OkStatus(); }
  absl::Status Wait() override { return absl::OkStatus(); }
  absl::StatusOr<RunStatus> GetRunStatus() override { In in(this); auto s = Seen(1); if (!s.ok()) return s; return RunStatus::kSingleStep; }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override { In in(this); auto s = Seen(2, 0, 0, nullptr, n); if (!s.ok()) return s; return result; }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override { In in(this); return Seen(3, v, 0, nullptr, n); }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override { In in(this); auto s = Seen(4, 0, 0, nullptr, n); if (!s.ok()) return s; return reinterpret_cast<DataBuffer*>(this); }
  absl::StatusOr<size_t> ReadMemory(uint64_t x, void* q, size_t n) override { In in(this); auto s = Seen(5, x, n, q); if (!s.ok()) return s; return result; }
  absl::StatusOr<size_t> WriteMemory(uint64_t x, const void* q, size_t n) override { In in(this); auto s = Seen(6, x, n, q); if (!s.ok()) return s; return result; }
  bool HasBreakpoint(uint64_t x) override { In in(this); return Seen(7, x).ok(); }
  absl::Status SetSwBreakpoint(uint64_t x) override { In in(this); return Seen(8, x); }
  absl::Status ClearSwBreakpoint(uint64_t x) override { In in(this); return Seen(9, x); }
  absl::Status ClearAllSwBreakpoints() override { In in(this); return Seen(10); }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t x) override { In in(this); auto s = Seen(11, x); if (!s.ok()) return s; return reinterpret_cast<Instruction*>(this); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t x) override { In in(this); auto s = Seen(12, x); if (!s.ok()) return s; return std::string("nop"); }
};
struct Forwarder : CLIForwarder {
  using CLIForwarder::CLIForwarder;
  using CLIForwarder::Halt;
  absl::Status Halt(HaltReason) override { return absl::OkStatus(); }
  absl::Status Halt(HaltReasonValueType) override { return absl::OkStatus(); }
};
Core* core;
RenodeCLITop* top;
CLIForwarder* cli;
int g_asked[2], g_commands, g_first = -1, g_second = -1;
uint32_t g_renode_total, g_steps;
bool g_done[3], g_failed;
void Renode() {
  for (int i = 0; i < 2; i++) {
    uint32_t before = core->pos;
    core->steps_begun++;
    core->renode_stepping = true;
    auto r = top->RenodeStep(g_asked[i]);
    core->renode_stepping = core->failed == kRenode;
    vf_check(r.ok() == (core->failed != kRenode), "a step that fails is reported, and no other");
    if (!r.ok()) { core->failed = 0; vf_reach("renode step fails"); g_failed = g_done[kRenode] = true; return; }
    vf_check(static_cast<uint32_t>(*r) == core->pos - before, "renode is told exactly how many instructions were executed during its step");
    vf_check(*r == g_asked[i] || core->done(), "renode's step is complete unless the program is done");
    g_renode_total += *r;
    g_steps++;
  }
  g_done[kRenode] = true;
}
void Cli() {
  top->SetConnected(true);
  core->cli_holds = core->connected = true;
  core->unattended = false;
  for (int i = 0; i < g_commands; i++) {
    int cmd = i == 0 && g_first >= 0 ? g_first : i == 1 && g_second >= 0 ? g_second : vf_choose("command", 0, 3);
    if (cmd == 0) {  // step
      int n = vf_range("count", 1, kMost);
      uint32_t before = core->by[kCli];
      auto r = cli->Step(n);
      if (r.ok()) {
        vf_check(static_cast<uint32_t>(*r) == core->by[kCli] - before, "the command line interface is told how many instructions it executed");
        vf_check(*r == n || core->done() || core->reason == static_cast<uint32_t>(CoreDebugInterface::HaltReason::kSoftwareBreakpoint), "a step is complete unless it is stopped");
        core->cli_holds = !core->done();
      } else if (core->failed == kCli) {
        core->failed = 0;
        vf_reach("cli step fails");
      } else {
        vf_check(core->done(), "a step is refused only when the program is done");
      }
      vf_reach("cli step");
    } else if (cmd == 1) {
      core->cli_holds = false;
      auto s = cli->Run();
      vf_check(s.ok() || core->done(), "running is refused only when the program is done");
      if (s.ok()) vf_check(core->cli_holds || core->done(), "a run ends when the core halts");
      vf_reach("cli run");
    } else if (cmd == 2) {
      vf_check(cli->Halt().ok(), "halted");
      core->cli_holds = true;
      vf_reach("cli halt");
    } else {
      auto r = cli->ReadRegister("pc");
      vf_check(r.ok() && *r == core->result, "a register is read");
      vf_reach("cli read");
    }
  }
  core->cli_holds = core->connected = core->unattended = false;
  top->SetConnected(false);
  g_done[kCli] = true;
}
void World(bool wait) {
  core = new Core;
  core->length = vf_range("length", 1, kMost);
  core->breakpoint = vf_range("breakpoint", 0, kMost);  // none, if it is behind the end
  top = new RenodeCLITop(core, wait);
  cli = new Forwarder(top);
  g_asked[0] = vf_range("step1", 1, kMost);
  g_asked[1] = vf_range("step2", 1, kMost);
}
}  // namespace
static void Share(int first, int second = -1, bool failing = false) {
  World(false);
  g_first = first; g_second = second;
  g_commands = failing ? 1 : VF_N(2, 3);
  if (failing) core->failing = vf_choose("failing", kRenode, kCli);
  vf_thread_start(Renode);
  vf_thread_start(Cli);
  vf_threads_run(first == 0 && second == 0 ? VF_N(2, 3) : VF_N(3, 4));
  vf_check(g_done[kRenode] || g_done[kCli], "renode and the command line interface do not wait for each other");
  vf_check(g_done[kRenode] || core->unattended, "renode is not kept waiting by a command line interface that is gone");
  if (g_done[kRenode] && !g_failed) vf_check(core->by[kRenode] + core->by[kCli] == g_renode_total, "every instruction executed is part of a step of renode");
  if (g_done[kCli]) vf_reach("both done"); else vf_reach("cli waits for renode");
}
VF_ENTRY(P40_cli_step_step) { kMost = 3; Share(0, 0); }
VF_ENTRY(P40_cli_step_run) { Share(0, 1); }
VF_ENTRY(P40_cli_step_halt) { Share(0, 2); }
VF_ENTRY(P40_cli_step) { Share(0, 3); }  // the first command of the command line interface is a step,
VF_ENTRY(P40_cli_run) { Share(1); }   // a run,
VF_ENTRY(P40_cli_halt) { Share(2); }  // a halt,
VF_ENTRY(P40_cli_read) { Share(3); }  // or a request to the core
VF_ENTRY(P40_cli_error) { Share(0, -1, true); }  // a step of the core fails
// With nothing executed before the command line interface connects.
static void Early() {
  vf_thread_yield();
  Renode();
}
VF_ENTRY(P40_cli_wait) {
  World(true);
  g_first = vf_choose("first", 0, 1);
  g_commands = 1;
  core->cli_holds = true;
  vf_thread_start(Early);
  vf_thread_start(Cli);
  vf_threads_run(2);
  vf_check(g_done[kRenode] || g_done[kCli], "renode and the command line interface do not wait for each other");
  vf_check(g_done[kRenode] || core->unattended, "renode is not kept waiting by a command line interface that is gone");
  vf_reach("wait");
}
// Every other request reaches the core once, with its arguments, and returns what the core does.
static void Requests() {
  top->SetConnected(true);
  core->cli_holds = core->connected = true;
  uint64_t x = vf_u64("x"), y = vf_u64("y");
  core->result = vf_u64("result");
  core->fail_next = vf_choose("fail", 0, 1);
  bool ok = !core->fail_next;
  int rq = vf_choose("request", 1, 12);
  char buf[4];
  uint64_t a = 0, b = 0; const void* p = nullptr; std::string name;
  switch (rq) {
    case 1: { auto r = cli->GetRunStatus(); vf_check(r.ok() == ok && (!ok || *r == CoreDebugInterface::RunStatus::kSingleStep), "the run status"); break; }
    case 2: { auto r = cli->ReadRegister("pc"); vf_check(r.ok() == ok && (!ok || *r == core->result), "the register"); name = "pc"; break; }
    case 3: { auto r = cli->WriteRegister("x7", x); vf_check(r.ok() == ok, "the register is written"); name = "x7"; a = x; break; }
    case 4: { auto r = cli->GetRegisterDataBuffer("v1"); vf_check(r.ok() == ok && (!ok || *r == reinterpret_cast<DataBuffer*>(core)), "the data buffer"); name = "v1"; break; }
    case 5: { auto r = cli->ReadMemory(x, buf, y); vf_check(r.ok() == ok && (!ok || *r == core->result), "the bytes read"); a = x; b = y; p = buf; break; }
    case 6: { auto r = cli->WriteMemory(x, buf, y); vf_check(r.ok() == ok && (!ok || *r == core->result), "the bytes written"); a = x; b = y; p = buf; break; }
    case 7: { vf_check(cli->HasBreakpoint(x) == ok, "the breakpoint"); a = x; break; }
    case 8: { vf_check(cli->SetSwBreakpoint(x).ok() == ok, "the breakpoint is set"); a = x; break; }
    case 9: { vf_check(cli->ClearSwBreakpoint(x).ok() == ok, "the breakpoint is cleared"); a = x; break; }
    case 10: { vf_check(cli->ClearAllSwBreakpoints().ok() == ok, "the breakpoints are cleared"); break; }
    case 11: { auto r = cli->GetInstruction(x); vf_check(r.ok() == ok && (!ok || *r == reinterpret_cast<Instruction*>(core)), "the instruction"); a = x; break; }
    case 12: { auto r = cli->GetDisassembly(x); vf_check(r.ok() == ok && (!ok || *r == "nop"), "the disassembly"); a = x; break; }
  }
  vf_check(core->calls == 1 && core->last == rq, "the core sees the request once");
  vf_check(core->a == a && core->b == b && core->p == p && core->name == name, "the arguments are passed on");
  auto h = cli->GetLastHaltReason();
  vf_check(h.ok() && *h == core->reason, "the halt reason is that of the core");
  core->fail_next = false;
  core->cli_holds = core->connected = core->unattended = false;
  top->SetConnected(false);
  g_done[kCli] = true;
}
static void Concurrent() {  // a request at any time
  if (vf_choose("connect", 0, 1)) {
    top->SetConnected(true);
    core->cli_holds = core->connected = true;
    core->unattended = false;
  }
  uint64_t x = vf_u64("x");
  switch (vf_choose("request", 0, 5)) {
    case 0: (void)cli->ReadRegister("pc"); break;
    case 1: (void)cli->WriteRegister("pc", x); break;
    case 2: (void)cli->ReadMemory(x, &x, 8); break;
    case 3: (void)cli->WriteMemory(x, &x, 8); break;
    case 4: (void)cli->SetSwBreakpoint(x); break;
    case 5: (void)cli->GetRegisterDataBuffer("pc"); break;
  }
  vf_check(core->calls == 1, "the core sees the request once");
  core->cli_holds = core->connected = core->unattended = false;
  top->SetConnected(false);
  g_done[kCli] = true;
}
VF_ENTRY(P40_cli_any_time) {
  kMost = 3;
  World(false);
  vf_thread_start(Renode);
  vf_thread_start(Concurrent);
  vf_threads_run(VF_N(2, 3));
  vf_check(g_done[kRenode] || g_done[kCli] || core->unattended, "renode and the command line interface do not wait for each other");
  if (g_done[kCli]) vf_reach("served"); else vf_reach("not served");
}
// The core is halted, whether or not the command line interface has connected, and renode steps no more until it runs.
static void Halted() {
  if (vf_choose("connect", 0, 1)) {
    top->SetConnected(true);
    core->connected = true;
  }
  vf_check(cli->Halt().ok(), "halted");
  core->cli_holds = true;
  core->unattended = false;
  int n = vf_range("count", 0, kMost);
  if (n > 0) {
    auto r = cli->Step(n);
    if (r.ok()) core->cli_holds = !core->done();
    else vf_check(core->done(), "a step is refused only when the program is done");
  } else {
    vf_thread_yield();
  }
  core->cli_holds = false;
  g_done[kCli] = true;  // a run is open ended
  (void)cli->Run();
}
VF_ENTRY(P40_cli_halt_running) {
  kMost = 3;
  World(false);
  vf_thread_start(Renode);
  vf_thread_start(Halted);
  vf_threads_run(VF_N(2, 3));
  vf_check(g_done[kRenode] || g_done[kCli], "renode and the command line interface do not wait for each other");
  vf_check(g_done[kRenode] || core->done() || core->cli_holds || core->unattended, "renode steps on once the command line interface runs");
  vf_reach("halted");
}
// The command line interface stays connected.
static void Stays() {
  top->SetConnected(true);
  core->cli_holds = core->connected = true;
  int n = vf_range("count", 1, kMost);
  auto r = cli->Step(n);
  if (r.ok()) core->cli_holds = !core->done();
  g_done[kCli] = true;
}
VF_ENTRY(P40_cli_stays) {
  kMost = 3;
  World(false);
  vf_thread_start(Renode);
  vf_thread_start(Stays);
  vf_threads_run(VF_N(2, 3));
  vf_check(g_done[kRenode] || g_done[kCli], "renode and the command line interface do not wait for each other");
  if (core->done() && core->ended_by == kCli) {
    vf_check(g_steps >= static_cast<uint32_t>(core->step_of), "renode's step ends when the command line interface finishes the program");
    vf_reach("ended by the command line interface");
  }
  vf_reach("stays");
}
VF_ENTRY(P40_cli_requests) {
  World(false);
  vf_thread_start(Renode);
  vf_thread_start(Requests);
  vf_threads_run(0);
  vf_check(g_done[kRenode] || g_done[kCli], "renode and the command line interface do not wait for each other");
  if (g_done[kCli]) vf_reach("requests");
}
VF_ENTRY(P40_cli_renode_requests) {  // those of renode
  World(false);
  uint64_t x = vf_u64("x"), y = vf_u64("y");
  core->result = vf_u64("result");
  core->fail_next = vf_choose("fail", 0, 1);
  bool ok = !core->fail_next;
  char buf[4];
  int rq = vf_choose("request", 0, 3);
  uint64_t a = 0, b = 0; const void* p = nullptr; std::string name;
  static const int kCall[] = {2, 3, 5, 6};
  switch (rq) {
    case 0: { auto r = top->RenodeReadRegister("pc"); vf_check(r.ok() == ok && (!ok || *r == core->result), "the register"); name = "pc"; break; }
    case 1: { auto r = top->RenodeWriteRegister("x7", x); vf_check(r.ok() == ok, "the register is written"); name = "x7"; a = x; break; }
    case 2: { auto r = top->RenodeReadMemory(x, buf, y); vf_check(r.ok() == ok && (!ok || *r == core->result), "the bytes read"); a = x; b = y; p = buf; break; }
    case 3: { auto r = top->RenodeWriteMemory(x, buf, y); vf_check(r.ok() == ok && (!ok || *r == core->result), "the bytes written"); a = x; b = y; p = buf; break; }
  }
  vf_check(core->calls == 1 && core->last == kCall[rq], "the core sees the request once");
  vf_check(core->a == a && core->b == b && core->p == p && core->name == name, "the arguments are passed on");
  vf_reach("requests");
}
