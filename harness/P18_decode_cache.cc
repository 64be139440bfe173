// Decode cache: a fetch delivers the instruction at its address, decoded after the last invalidation.
// SRC: generic/decode_cache.cc generic/instruction.cc generic/fifo.cc generic/register.cc generic/arch_state.cc generic/component.cc generic/state_item_base.cc generic/data_buffer.cc generic/program_error.cc generic/simple_resource.cc generic/resource_bitset.cc
// OPTS: steps=300000
// BOUND: caches of 2 and 4 entries (requested 1..4), minimum pc increments 1, 2 and 4; histories of 3 (quick) or 4 (thorough) fetch/invalidate/hold operations over any two symbolic 64 bit regions with 4 conflicting instruction slots each; invalidated ranges with bounds in the same or in other symbolic regions, from the start and to the end of memory; increments 1..9 and 2^20 and sizes 0..5 and 4096 for creation
// ASSUME: instruction addresses are multiples of the minimum pc increment
#include "mpact/sim/generic/decode_cache.h"
#include "mpact/sim/generic/instruction.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
struct Decoder : DecoderInterface {
  int count = 0; uint64_t last = 0; Instruction* made[16]; bool fail = false;
  Instruction* DecodeInstruction(uint64_t address) override {
    last = address;
    if (fail) return nullptr;
    Instruction* i = new Instruction(address, nullptr);
    i->set_opcode(count);
    i->IncRef();   // the harness keeps a reference to watch the count
    made[count++] = i;
    return i;
  }
  int GetNumOpcodes() const override { return 1; }
  const char* GetOpcodeName(int) const override { return ""; }
};
uint64_t Addr(uint64_t hi[2], int shift) {
  uint64_t h = hi[vf_choose("region", 0, 1)];
  return (h << (shift + 2)) | (vf_choose("slot", 0, 3) << shift);
}
void History(int ops, uint32_t entries, int shift, bool ranges) {
  Decoder d;
  DecodeCacheProperties p{entries, 1u << shift};
  DecodeCache* c = DecodeCache::Create(p, &d);
  vf_check(c != nullptr && c->num_entries() >= (int)entries && c->address_inc() == (1 << shift), "the cache has the requested properties");
  uint64_t hi[2] = {vf_u64("region0") >> (shift + 2), vf_u64("region1") >> (shift + 2)};
  // Instructions that may legally be delivered: decoded and not invalidated since.
  bool stale[16] = {}; int held = -1;
  for (int k = 0; k < ops; k++) {
    switch (vf_choose("op", 0, ranges ? 4 : 3)) {
      case 0: {
        uint64_t a = Addr(hi, shift);
        d.fail = k > 0 && vf_choose("fails", 0, 1);
        int before = d.count;
        Instruction* i = c->GetDecodedInstruction(a);
        if (i == nullptr) { vf_check(d.fail && d.last == a, "a fetch fails only if decoding fails"); break; }
        vf_check(i->address() == a, "a fetch delivers the instruction at the address");
        int at = i->opcode();
        vf_check(at >= 0 && at < d.count && d.made[at] == i && !stale[at], "a fetch never delivers an invalidated instruction");
        vf_check(d.count - before <= 1 && (d.count == before || d.last == a), "at most the fetched instruction is decoded");
        vf_check(i->ref_count() >= 2, "a delivered instruction is held by the cache");
        int n = d.count;
        Instruction* again = c->GetDecodedInstruction(a);
        vf_check(again == i && d.count == n, "a repeated fetch needs no decoding");
        break;
      }
      case 1: {
        uint64_t a = Addr(hi, shift);
        c->Invalidate(a);
        for (int i = 0; i < d.count; i++) stale[i] |= d.made[i]->address() == a;
        break;
      }
      case 2:
        c->InvalidateAll();
        for (int i = 0; i < d.count; i++) stale[i] = true;
        break;
      case 3:
        if (held >= 0 || d.count == 0) vf_prune();
        held = d.count - 1;
        d.made[held]->IncRef();
        break;
      default: {
        uint64_t s = (hi[0] << (shift + 2)) + vf_choose("off", 0, 3), e = Addr(hi, shift) + 1;
        c->InvalidateRange(s, e);
        for (int i = 0; i < d.count; i++) stale[i] |= (d.made[i]->address() >= s) & (d.made[i]->address() < e);
        break;
      }
    }
    for (int i = 0; i < d.count; i++) {
      int r = d.made[i]->ref_count() - 1 - (held == i);
      vf_check(r == 0 || (r == 1 && !stale[i]), "the cache holds one reference to a cached instruction and none after invalidation");
    }
  }
  delete c;
  for (int i = 0; i < d.count; i++) vf_check(d.made[i]->ref_count() == 1 + (held == i), "the cache releases everything when destroyed");
  vf_reach("history");
}
}  // namespace
VF_ENTRY(dc_two) { History(VF_N(3, 4), 2, 2, false); }
VF_ENTRY(dc_four) { History(VF_N(2, 3), vf_choose("entries", 3, 4), 1, false); }
VF_ENTRY(dc_range) { History(VF_N(2, 3), 2, 2, true); }
// Ranges: exactly the instructions in it are dropped.
VF_ENTRY(dc_range_exact) {
  Decoder d;
  int shift = vf_choose("shift", 0, 2);
  DecodeCacheProperties p{4, 1u << shift};
  DecodeCache* c = DecodeCache::Create(p, &d);
  uint64_t hi = vf_u64("region") >> 5 << 5;
  uint64_t base = hi | 8;
  int n = vf_choose("instructions", VF_N(3, 1), 4);
  for (int i = 0; i < n; i++) c->GetDecodedInstruction(base + ((uint64_t)i << shift));
  int far = vf_choose("far", 0, 3);
  static const int some[] = {0, 9, 12, 27};
  uint64_t s = hi | (far ? some[vf_choose("start", 0, 3)] : vf_choose("start", 5, VF_N(14, 26)));
  uint64_t e = hi | (far ? some[vf_choose("end", 0, 3)] : vf_choose("end", 5, VF_N(18, 31)));
  switch (far) {
    case 0: break;
    case 1: s &= 31; break;                       // from the start of memory
    case 2: e = ~(uint64_t)0 - (31 - (e & 31)); break;  // to the end of memory
    default: s = (vf_u64("other") >> 5 << 5) | (s & 31); break;
  }
  c->InvalidateRange(s, e);
  for (int i = 0; i < n; i++) {
    uint64_t a = base + ((uint64_t)i << shift);
    bool in = (a >= s) & (a < e);
    vf_check(d.made[i]->ref_count() == 2 - in, "exactly the instructions in the range are dropped");
  }
  vf_reach("range");
}
VF_ENTRY(dc_create) {
  long base = vf_heap_live();
  {
    Decoder d;
    static const uint32_t incs[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 1u << 20};
    uint32_t inc = incs[vf_choose("inc", 0, 9)];
    uint32_t entries = vf_choose("large", 0, 1) ? 4096 : vf_choose("entries", 0, 5);
    DecodeCacheProperties p{entries, inc};
    if (entries == 4096 && inc != 1u << 20) vf_prune();
    DecodeCache* c = DecodeCache::Create(p, &d);
    bool ok = (inc & (inc - 1)) == 0;
    vf_check((c != nullptr) == ok, "a cache is made exactly for increments that are a power of two");
    if (c) {
      vf_check(c->num_entries() >= (int)entries && (c->num_entries() & (c->num_entries() - 1)) == 0, "the size is a power of two, at least as large as requested");
      uint64_t a = vf_u64("region") & ~(uint64_t)(inc - 1);
      if (entries == 4096) a &= ~(((uint64_t)4095 << 20)) , a |= (uint64_t)vf_choose("index", 0, 1) * ((uint64_t)4095 << 20);
      Instruction* i = c->GetDecodedInstruction(a);
      vf_check(i != nullptr && i->address() == a, "a fetch delivers the instruction at the address");
      i->DecRef();
      if (entries == 4096) return;
      delete c;
    }
  }
  vf_check(vf_heap_live() == base, "nothing is leaked");
}
