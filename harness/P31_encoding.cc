// Instruction encodings: masks, values and legal constraint values; overlays evaluated on words.
// SRC: decoder/format.cc decoder/overlay.cc decoder/instruction_encoding.cc decoder/encoding_group.cc decoder/instruction_group.cc decoder/bin_encoding_info.cc decoder/bin_decoder.cc decoder/decoder_error_listener.cc decoder/format_name.cc decoder/extract.cc
// FLAGS: -I/verif/shim_dec
// OPTS: steps=6000000
// BOUND: constraints on fields and overlays of 1 to 40 bits, signed and unsigned, with every 64-bit value; every input word for overlays with constants, permuted and repeated ranges
#include <memory>
#include "mpact/sim/decoder/bin_encoding_info.h"
#include "mpact/sim/decoder/bin_format_visitor.h"
#include "mpact/sim/decoder/decoder_error_listener.h"
#include "mpact/sim/decoder/format.h"
#include "mpact/sim/decoder/instruction_encoding.h"
#include "mpact/sim/decoder/overlay.h"
#include "vf.h"
using namespace mpact::sim::decoder::bin_format;
using mpact::sim::decoder::DecoderErrorListener;
namespace {
struct F { const char* name; bool sgn; int width; int low; };
// low is the position the documentation gives: left to right from the msb.
const F kFields[] = {{"hi", false, 20, 44}, {"s33", true, 33, 11}, {"s1", true, 1, 10}, {"u1", false, 1, 9}, {"s4", true, 4, 5}, {"u5", false, 5, 0}};
struct Setup {
  DecoderErrorListener el;
  BinEncodingInfo info{"Op", &el};
  Format* f;
  Setup() {
    f = info.AddFormat("fmt", 64).value();
    for (auto& x : kFields) f->AddField(x.name, x.sgn, x.width).IgnoreError();
    auto* o = f->AddFieldOverlay("perm", false, 13).value();   // u5[0], hi[19..12], s4
    o->AddFieldReference("u5", {BitRange{0, 0}}).IgnoreError();
    o->AddFieldReference("hi", {BitRange{19, 12}}).IgnoreError();
    o->AddFieldReference("s4").IgnoreError();
    o = f->AddFieldOverlay("wide", true, 40).value();  // [39..8], [63..56]
    o->AddFormatReference({BitRange{39, 8}, BitRange{63, 56}}).IgnoreError();
    o = f->AddFieldOverlay("konst", false, 12).value();  // 0b10, u5, 0b101, [10..9]
    o->AddBitConstant(BinaryNum{2, 2});
    o->AddFieldReference("u5").IgnoreError();
    o->AddBitConstant(BinaryNum{5, 3});
    o->AddFormatReference({BitRange{10, 9}}).IgnoreError();
    o = f->AddFieldOverlay("kwide", false, 36).value();  // 0b1, s33, 0b00
    o->AddBitConstant(BinaryNum{1, 1});
    o->AddFieldReference("s33").IgnoreError();
    o->AddBitConstant(BinaryNum{0, 2});
    vf_check(f->ComputeAndCheckFormatWidth().ok(), "format accepted");
  }
};
uint64_t B(uint64_t w, int low, int width) { return (w >> low) & ((1ull << width) - 1); }
uint64_t Perm(uint64_t w) { return B(w, 0, 1) << 12 | B(w, 56, 8) << 4 | B(w, 5, 4); }
uint64_t Wide(uint64_t w) { return B(w, 8, 32) << 8 | B(w, 56, 8); }
uint64_t Konst(uint64_t w) { return 2 << 10 | B(w, 0, 5) << 5 | 5 << 2 | B(w, 9, 2); }
uint64_t KWide(uint64_t w) { return 1ull << 35 | B(w, 11, 33) << 2; }
bool Legal(int64_t v, int width, bool sgn) {
  return sgn ? v >= -(1ll << (width - 1)) && v < (1ll << (width - 1)) : v >= 0 && v < (1ll << width);
}
}  // namespace

VF_ENTRY(P31_field_constraints) {
  auto* s = new Setup;
  auto& x = kFields[vf_choose("field", 0, 5)];
  int64_t v = vf_u64("value");
  auto* e = new InstructionEncoding("e", s->f, false);
  bool ok = e->AddEqualConstraint(x.name, v).ok();
  vf_check(ok == Legal(v, x.width, x.sgn), "an equal constraint is accepted iff the field can hold the value");
  uint64_t m = ((1ull << x.width) - 1) << x.low;
  vf_check(e->GetMask() == (ok ? m : 0), "mask of the field");
  vf_check(e->GetValue() == (ok ? ((uint64_t)v << x.low) & m : 0), "value of the field");
  vf_check(e->GetCombinedMask() == (ok ? m : 0), "combined mask");
}
VF_ENTRY(P31_overlay_constraints) {
  auto* s = new Setup;
  int k = vf_choose("overlay", 0, 3);
  static const char* n[] = {"perm", "wide", "konst", "kwide"};
  static const int width[] = {13, 40, 12, 36};
  int64_t v = vf_u64("value");
  auto* e = new InstructionEncoding("e", s->f, false);
  bool ok = e->AddEqualConstraint(n[k], v).ok();
  vf_check(ok == Legal(v, width[k], k == 1), "an equal constraint is accepted iff the overlay can hold the value");
  if (!ok) return;
  if (k >= 2) {
    // Constant bits: not part of the mask, compared after extraction.
    vf_check(e->GetMask() == 0 && e->GetValue() == 0, "extracted overlay is not in the mask");
    vf_check(e->equal_extracted_constraints().size() == 1 && e->equal_extracted_constraints()[0]->value == (uint64_t)v, "extracted constraint");
    return;
  }
  // A word matches mask and value exactly when the overlay has the value.
  uint64_t w = vf_u64("w");
  uint64_t have = k == 0 ? Perm(w) : Wide(w);
  vf_check(((w & e->GetMask()) == e->GetValue()) == (have == ((uint64_t)v & ((1ull << width[k]) - 1))), "mask and value of the overlay");
}
VF_ENTRY(P31_overlay_value) {
  auto* s = new Setup;
  uint64_t w = vf_u64("w");
  int k = vf_choose("overlay", 0, 3);
  static const char* n[] = {"perm", "wide", "konst", "kwide"};
  auto* o = s->f->GetOverlay(n[k]);
  auto r = o->GetValue(w);
  uint64_t want = k == 0 ? Perm(w) : k == 1 ? Wide(w) : k == 2 ? Konst(w) : KWide(w);
  vf_check(r.ok() && r.value() == want, "overlay value of a word");
  // Putting the value back reproduces the bits of the overlay.
  auto b = o->GetBitField(want);
  auto all = o->GetBitField(~0ull);
  vf_check(b.ok() && all.ok() && b.value() == (w & all.value()), "bit field of an overlay value");
  vf_check(all.value() == o->mask(), "mask of the overlay");
}
// Several constraints, queried in between.
VF_ENTRY(P31_several) {
  auto* s = new Setup;
  auto* e = new InstructionEncoding("e", s->f, false);
  uint64_t mask = 0, value = 0, comb = 0;
  int n = VF_N(2, 3);
  unsigned used = 0;
  for (int i = 0; i < n; i++) {
    int k = vf_choose("field", 0, 3);
    static const int which[] = {0, 3, 4, 5};
    auto& x = kFields[which[k]];
    int64_t v = vf_u64("value");
    vf_assume(Legal(v, x.width, x.sgn));
    uint64_t m = ((1ull << x.width) - 1) << x.low;
    int kind = vf_choose("kind", 0, 2);
    if (kind == 0) {
      if (used & 1u << k) vf_prune();  // one equal constraint per field
      used |= 1u << k;
      vf_check(e->AddEqualConstraint(x.name, v).ok(), "equal");
      mask |= m;
      value |= ((uint64_t)v << x.low) & m;
    } else if (kind == 1) {
      vf_check(e->AddOtherConstraint(ConstraintType::kNe, x.name, v).ok(), "not equal");
      comb |= m;
    } else {
      int j = vf_choose("rhs", 0, 3);
      auto& y = kFields[which[j]];
      vf_check(e->AddOtherConstraint(ConstraintType::kNe, x.name, y.name).ok(), "fields differ");
      comb |= m | (((1ull << y.width) - 1) << y.low);
    }
    vf_check(e->GetMask() == mask, "mask");
    vf_check(e->GetValue() == value, "value");
    vf_check(e->GetCombinedMask() == (mask | comb), "combined mask");
  }
  // A copy agrees.
  auto* c = new InstructionEncoding(*e);
  vf_check(c->GetMask() == mask && c->GetValue() == value && c->GetCombinedMask() == (mask | comb), "copy");
  vf_check(c->other_constraints().size() == e->other_constraints().size() && c->name() == "e" && c->format() == s->f, "copied constraints");
}
