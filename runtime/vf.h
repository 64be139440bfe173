// Harness interface.  In the symbolic build these are intrinsics of the engine;
// in the native build runtime/native.cc replays concrete values.
#ifndef VF_H_
#define VF_H_
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_sym(const char* name, unsigned bits);
void vf_assume(int c);
void vf_check(int c, const char* label);
void vf_reach(const char* label);
void vf_observe(const char* label, uint64_t v);
uint64_t vf_concretize(uint64_t v);
int vf_is_symbolic(uint64_t v);
long vf_heap_live(void);
void vf_print(const char* label, uint64_t v);
void vf_prune(void);
// Coroutines: 0 is the entry; a coroutine never returns, its last act is to switch away.
int vf_co_create(void (*fn)(void*), void* arg);
void vf_co_switch(int id);
}
static inline uint64_t vf_u64(const char* n) { return vf_sym(n, 64); }
static inline uint32_t vf_u32(const char* n) { return (uint32_t)vf_sym(n, 32); }
static inline uint16_t vf_u16(const char* n) { return (uint16_t)vf_sym(n, 16); }
static inline uint8_t vf_u8(const char* n) { return (uint8_t)vf_sym(n, 8); }
static inline bool vf_bool(const char* n) { return vf_sym(n, 1) != 0; }
// Symbolic value in [lo, hi].
static inline uint64_t vf_range(const char* n, uint64_t lo, uint64_t hi) {
  unsigned bits = 1;
  while (bits < 64 && (hi >> bits) != 0) bits++;
  uint64_t v = vf_sym(n, bits);
  vf_assume((v >= lo) & (v <= hi));
  return v;
}
// Like vf_range, but every feasible value is explored on its own path (used
// for shapes: operation kinds, sizes, counts).
static inline uint64_t vf_choose(const char* n, uint64_t lo, uint64_t hi) {
  return vf_concretize(vf_range(n, lo, hi));
}
#define VF_ENTRY(name) extern "C" void name()
// Explored in the thorough tier only.
#define VF_ENTRY_T(name) extern "C" void name()
// A bound that depends on the tier.
#ifdef VF_THOROUGH
#define VF_N(quick, thorough) (thorough)
#else
#define VF_N(quick, thorough) (quick)
#endif
#endif
