// Binary format descriptions are understood as written: what the generator emits decodes, extracts and encodes as the
// plain form of the description.
// SRC: decoder/extract.cc
// GEN: gen/bin.sh
// FLAGS: -I@VERIF@/shim_antlr -I@GEN@/bin
// OPTS: steps=3000000
// BOUND: the decoders, extractors and encoding tables emitted by the generator of /repo for nine descriptions (numbers in every notation, merged and nested groups, specializations, generated instructions, includes and several files, inheritance, format references, and the descriptions of P31); every instruction word
// ASSUME: ANTLR is replaced by a parser made from the same grammar; descriptions of the battery only
#include "bin_expect.h"
#include "vf.h"
#include "bin_bad.h"
using namespace vfe;
VF_ENTRY(P34_num) { k_num[vf_choose("group", 0, n_num - 1)](); }
VF_ENTRY(P34_num_fields) { e_num[vf_choose("format", 0, ne_num - 1)](); }
VF_ENTRY(P34_num_encodings) { enc_num(); }
VF_ENTRY(P34_grp) { k_grp[vf_choose("group", 0, n_grp - 1)](); }
VF_ENTRY(P34_grp_fields) { e_grp[vf_choose("format", 0, ne_grp - 1)](); }
VF_ENTRY(P34_grp_encodings) { enc_grp(); }
VF_ENTRY(P34_spec) { k_spec[vf_choose("group", 0, n_spec - 1)](); }
VF_ENTRY(P34_spec_fields) { e_spec[vf_choose("format", 0, ne_spec - 1)](); }
VF_ENTRY(P34_spec_encodings) { enc_spec(); }
VF_ENTRY(P34_gen) { k_gen[vf_choose("group", 0, n_gen - 1)](); }
VF_ENTRY(P34_gen_fields) { e_gen[vf_choose("format", 0, ne_gen - 1)](); }
VF_ENTRY(P34_gen_encodings) { enc_gen(); }
VF_ENTRY(P34_inc) { k_inc[vf_choose("group", 0, n_inc - 1)](); }
VF_ENTRY(P34_inc_fields) { e_inc[vf_choose("format", 0, ne_inc - 1)](); }
VF_ENTRY(P34_inc_encodings) { enc_inc(); }
VF_ENTRY(P34_cons) { k_cons[vf_choose("group", 0, n_cons - 1)](); }
VF_ENTRY(P34_cons_fields) { e_cons[vf_choose("format", 0, ne_cons - 1)](); }
VF_ENTRY(P34_cons_encodings) { enc_cons(); }
VF_ENTRY(P34_riscv32c) { k_riscv32c[vf_choose("group", 0, n_riscv32c - 1)](); }
VF_ENTRY(P34_riscv32c_fields) { e_riscv32c[vf_choose("format", 0, ne_riscv32c - 1)](); }
VF_ENTRY(P34_riscv32c_encodings) { enc_riscv32c(); }
VF_ENTRY(P34_riscv32g) { k_riscv32g[vf_choose("group", 0, n_riscv32g - 1)](); }
VF_ENTRY(P34_riscv32g_fields) { e_riscv32g[vf_choose("format", 0, ne_riscv32g - 1)](); }
VF_ENTRY(P34_riscv32g_encodings) { enc_riscv32g(); }
VF_ENTRY(P34_battery) { k_battery[vf_choose("group", 0, n_battery - 1)](); }
VF_ENTRY(P34_battery_fields) { e_battery[vf_choose("format", 0, ne_battery - 1)](); }
VF_ENTRY(P34_battery_encodings) { enc_battery(); }
VF_ENTRY(P34_refused) { k_bad[vf_choose("case", 0, n_bad - 1)](); }
