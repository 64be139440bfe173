// Generated inserters: exactly the bits of the field are replaced, for every word and value.
// SRC: decoder/extract.cc
// GEN: gen/format.sh
// OPTS: steps=3000000
// BOUND: the code emitted by the generator of /repo for a battery of about 90 formats (as for P29); every instruction word and every value
// ASSUME: overlays only in formats up to 64 bits, no bit used twice; packed-struct fields up to 64 bits
#include "bin_cases.h"
#include "vf.h"
VF_ENTRY(P30_narrow) { vfc::k_ins_narrow[vf_choose("case", 0, vfc::n_ins_narrow - 1)](); }
VF_ENTRY(P30_mid) { vfc::k_ins_mid[vf_choose("case", 0, vfc::n_ins_mid - 1)](); }
VF_ENTRY(P30_wide) { vfc::k_ins_wide[vf_choose("case", 0, vfc::n_ins_wide - 1)](); }
VF_ENTRY(P30_overlay) { vfc::k_ins_overlay[vf_choose("case", 0, vfc::n_ins_overlay - 1)](); }
VF_ENTRY(P30_packed) { vfc::k_ins_packed[vf_choose("case", 0, vfc::n_ins_packed - 1)](); }
