// Native replay of a harness entry with concrete inputs.
//   replay ENTRY INPUTFILE      (lines: name value)
// exit 0: all checks passed; 42: a vf_check failed (message on stdout);
// 43: inputs violate an assumption; anything else: crash / sanitizer report.
#include <dlfcn.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include "vf.h"

static std::vector<std::pair<std::string, uint64_t>> inputs;
static size_t next_input = 0;
static long live = 0;
static int fill = 0xa5;

void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  memset(p, fill, n);
  live++;
  return p;
}
void* operator new[](size_t n) {
  // Distinguish array allocations so that a mismatched delete is detected.
  char* p = (char*)malloc(n + 16);
  memset(p, fill, n + 16);
  live++;
  return p + 16;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new[](n); }
void operator delete(void* p) noexcept { if (p) { live--; free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { if (p) { live--; free((char*)p - 16); } }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }

extern "C" {
uint64_t vf_sym(const char* name, unsigned bits) {
  uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
  if (next_input >= inputs.size()) return 0;
  if (inputs[next_input].first != name) {
    printf("VF_DIVERGED expected input %s, harness asked for %s\n", inputs[next_input].first.c_str(), name);
    fflush(stdout);
    _exit(44);
  }
  return inputs[next_input++].second & m;
}
void vf_assume(int c) { if (!c) { printf("VF_ASSUME\n"); fflush(stdout); _exit(43); } }
void vf_check(int c, const char* label) { if (!c) { printf("VF_FAIL %s\n", label); fflush(stdout); _exit(42); } }
void vf_reach(const char*) {}
void vf_observe(const char* label, uint64_t v) { printf("OBS "); for (const char* c = label; *c; c++) putchar(*c == 0x20 ? 0x5f : *c); printf(" %llu\n", (unsigned long long)v); }
uint64_t vf_concretize(uint64_t v) { return v; }
int vf_is_symbolic(uint64_t) { return 0; }
long vf_heap_live(void) { return live; }
void vf_print(const char* label, uint64_t v) { printf("PRINT %s 0x%llx\n", label, (unsigned long long)v); }
static ucontext_t co[8];
static int co_count = 1, co_current = 0;
int vf_co_create(void (*fn)(void*), void* arg) {
  ucontext_t& c = co[co_count];
  getcontext(&c);
  c.uc_stack.ss_size = 1 << 20;
  c.uc_stack.ss_sp = mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  c.uc_link = nullptr;
  makecontext(&c, reinterpret_cast<void (*)()>(fn), 1, arg);
  return co_count++;
}
void vf_co_switch(int id) { int from = co_current; co_current = id; swapcontext(&co[from], &co[id]); }
void vf_prune(void) { printf("VF_ASSUME\n"); fflush(stdout); _exit(43); }
}

int main(int argc, char** argv) {
  if (getenv("VF_FILL")) fill = atoi(getenv("VF_FILL"));
  {
    std::ifstream f(argv[2]);
    std::string n; uint64_t v;
    while (f >> n >> v) inputs.push_back({n, v});
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("VF_NOENTRY\n"); return 45; }
  live = 0;
  fn();
  printf("VF_OK\n");
  return 0;
}
