// Generated extractors: the value extracted is the bits of the field, for every instruction word.
// SRC: decoder/extract.cc
// GEN: gen/format.sh
// OPTS: steps=3000000
// BOUND: the code emitted by the generator of /repo for a battery of about 90 formats (widths 1..128, every field width at positions around the byte, 32-bit and 64-bit boundaries, signed and unsigned, format references, replicated references, overlays with constants and ranges, packed-struct layouts, inheritance); every instruction word
// ASSUME: overlays only in formats up to 64 bits; packed-struct fields up to 64 bits
#include "bin_cases.h"
#include "vf.h"
VF_ENTRY(P29_narrow) { vfc::k_ext_narrow[vf_choose("case", 0, vfc::n_ext_narrow - 1)](); }
VF_ENTRY(P29_mid) { vfc::k_ext_mid[vf_choose("case", 0, vfc::n_ext_mid - 1)](); }
VF_ENTRY(P29_wide) { vfc::k_ext_wide[vf_choose("case", 0, vfc::n_ext_wide - 1)](); }
VF_ENTRY(P29_bytes) { vfc::k_ext_bytes[vf_choose("case", 0, vfc::n_ext_bytes - 1)](); }
VF_ENTRY(P29_overlay) { vfc::k_ext_overlay[vf_choose("case", 0, vfc::n_ext_overlay - 1)](); }
VF_ENTRY(P29_packed) { vfc::k_ext_packed[vf_choose("case", 0, vfc::n_ext_packed - 1)](); }
VF_ENTRY(P29_inherit) { vfc::k_inherit[vf_choose("case", 0, vfc::n_inherit - 1)](); }
