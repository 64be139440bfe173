// Generated decoders: every instruction word is decoded to the instruction whose constraints it satisfies.
// SRC: decoder/extract.cc
// GEN: gen/decoder.sh
// OPTS: steps=3000000
// BOUND: the decoders emitted by the generator of /repo for a battery of 44 instruction groups (8 to 64-bit words; tables, nested groups, disjoint groups, other constraints, field-to-field comparisons, extracted overlays, signed values, specializations) and for the RISC-V 32G and 32C descriptions; every instruction word
// ASSUME: discriminators up to 12 bits (the generator builds tables of 2^n entries); for overlapping encodings any matching one is accepted
#include "dec_cases.h"
#include "vf.h"
VF_ENTRY(P31_battery) { vfd::k_battery[vf_choose("case", 0, vfd::n_battery - 1)](); }
VF_ENTRY(P31_cons) { vfd::k_cons[0](); }
VF_ENTRY(P31_riscv32c) { vfd::k_riscv32c[0](); }
VF_ENTRY(P31_riscv32g) { vfd::k_riscv32g[0](); }
