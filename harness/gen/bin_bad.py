#!/usr/bin/env python3
"""bin_bad.py GENERATOR OUTDIR HEADER: runs the generator on descriptions with one mistake each, which it has to refuse
(and not crash on), and writes what it answered into HEADER."""
import os, subprocess, sys
T = """@TOP@
decoder T { @NS@ opcode_enum = "OpcodeEnum"; @GROUPS@ };
@FMT@
format B[32] @BBASE@ { fields: unsigned hi[25]; unsigned op[7]; };
format R @RBASE@ { @LAYOUT@ fields: @RF@ unsigned rs2[5]; unsigned rs1[5]; unsigned f3[3]; unsigned rd[5]; unsigned op[7];
  overlays: unsigned w[32] = f7, rs2, rs1, f3, rd, op; unsigned s[3] = [14..12]; signed t[4] = rs1[2..0], 0b1; @OVL@ };
instruction group g1[@GW@] : @GF@ { a : R : op == 1, f3 == 0; @INS@ };
instruction group g2[32] : B { b : R : op == 2, f3 != 0; };
instruction group g3[16] : H { c : H : h == 2; };
format H[16] { fields: unsigned h[16]; };
"""
D = {"TOP": "", "NS": "namespace a::b;", "GROUPS": "g1;", "FMT": "", "BBASE": "", "RBASE": ": B", "RF": "unsigned f7[7];", "LAYOUT": "", "OVL": "", "GW": "32", "GF": "B", "INS": ""}
BAD = [
    ("no_groups", dict(GROUPS="")),
    ("unknown_group", dict(GROUPS="g1; nosuch;")),
    ("unknown_child", dict(GROUPS="m = { g1, nosuch };")),
    ("group_twice", dict(GROUPS="g1; g1;")),
    ("merged_group_twice", dict(GROUPS="m = { g1, g1 };")),
    ("groups_of_two_formats", dict(GROUPS="m = { g1, g3 };")),
    ("two_namespaces", dict(NS="namespace a; namespace b;")),
    ("two_enums", dict(NS='opcode_enum = "X";')),
    ("two_decoders", dict(TOP='decoder T { opcode_enum = "X"; g2; };')),
    ("format_twice", dict(FMT="format R[32] { fields: unsigned a[32]; };")),
    ("group_declared_twice", dict(FMT="instruction group g1[32] : B { z : B : op == 3; };")),
    ("group_named_like_a_format", dict(FMT="instruction group B = { g2 };", GROUPS="B;")),
    ("format_too_narrow", dict(RF="unsigned f7[6];")),
    ("format_too_wide", dict(RF="unsigned f7[8];")),
    ("width_of_the_parent", dict(RBASE="[16] : B")),
    ("unknown_parent", dict(RBASE=": Nosuch")),
    ("circular_parents", dict(BBASE=": R")),
    ("own_parent", dict(RBASE="[32] : R")),
    ("no_width", dict(RBASE="", GF="R")),
    ("field_twice", dict(RF="unsigned rd[7];")),
    ("unknown_format_of_field", dict(RF="format Nosuch f7;")),
    ("circular_fields", dict(FMT="format Q[7] { fields: format R r; };", RF="format Q f7;")),
    ("overlay_named_like_a_field", dict(OVL="unsigned rd[2] = [1..0];")),
    ("overlay_twice", dict(OVL="unsigned s[2] = [1..0];")),
    ("overlay_width", dict(OVL="unsigned v[4] = [1..0];")),
    ("overlay_unknown_field", dict(OVL="unsigned v[4] = nosuch;")),
    ("overlay_field_range", dict(OVL="unsigned v[2] = rd[5..4];")),
    ("overlay_format_range", dict(OVL="unsigned v[2] = [32..31];")),
    ("overlay_reversed", dict(OVL="unsigned v[2] = [3..4];")),
    ("overlay_field_reversed", dict(OVL="unsigned v[2] = rd[3..4];")),
    ("overlay_too_wide", dict(OVL="unsigned v[65] = w, w, 0b1;")),
    ("packed_wide", dict(FMT="format P[80] { layout: packed_struct; fields: unsigned x[80]; };\nformat P2[80] { fields: format P p; };", GROUPS="g1; g4;", INS="} instruction group g4[32] : P3 { z : P3 : y == 1; }; format P3[32] { fields: format P2 q; unsigned y[32]; ")),
    ("packed_wide_format", dict(LAYOUT="layout: packed_struct;", FMT="format P[70] { fields: unsigned x[70]; };", RF="format P f7;")),
    ("packed_replicated", dict(LAYOUT="layout: packed_struct;", FMT="format P[3] { fields: unsigned x[3]; };", RF="format P p[2]; unsigned f7[1];")),
    ("group_width", dict(GW="16")),
    ("group_of_wide_format", dict(FMT="format Big[65] { fields: unsigned x[65]; };\ninstruction group g4[65] : Big { z : Big : x == 1; };", GROUPS="g4;")),
    ("group_format", dict(GF="Nosuch")),
    ("group_of_bad_format", dict(FMT="format NW { fields: unsigned x[32]; };", GF="NW")),
    ("group_of_format_without_parent", dict(FMT="format NP : Nosuch { fields: unsigned x[32]; };", GF="NP")),
    ("instruction_format", dict(INS="z : Nosuch : op == 3;")),
    ("instruction_width", dict(INS="z : H : h == 3;")),
    ("constraint_field", dict(INS="z : R : nosuch == 3;")),
    ("constraint_range", dict(INS="z : R : op == 128;")),
    ("constraint_not_equal_range", dict(INS="z : R : op == 3, rd != 32;")),
    ("constraint_overlay_range", dict(INS="z : R : op == 3, s == 8;")),
    ("constraint_signed_less", dict(INS="z : R : op == 3, t < 3;")),
    ("constraint_signed_range", dict(INS="z : R : op == 3, t == 8;")),
    ("constraint_rhs", dict(INS="z : R : op == 3, rd == nosuch;")),
    ("number_too_large", dict(INS="z : R : op == 3, w == 99999999999999999999;")),
    ("number_64_bits", dict(INS="z : R : op == 0x1'0000'0000'0000'0003;")),
    ("number_32_bits", dict(INS="z : R : op == 0x1'0000'0003;")),
    ("number_binary", dict(INS="z : R : op == 0b1" + "0" * 62 + "11;")),
    ("number_binary_long", dict(INS="z : R : op == 0b1" + "0" * 63 + "11;")),
    ("width_too_large", dict(RBASE="[4294967328]")),
    ("index_too_large", dict(OVL="unsigned v[2] = [4294967297..0];")),
    ("specialization_field", dict(INS="z : specializes a : nosuch == 3;")),
    ("specialization_parent", dict(INS="z : specializes nosuch : rd == 3;")),
    ("generate_unknown", dict(INS="GENERATE( x = [1, 2] ) { z$(y) : R : op == 3; };")),
    ("generate_twice", dict(INS="GENERATE( [x, x] = [{1, 2}] ) { z$(x) : R : op == 3; };")),
    ("generate_count", dict(INS="GENERATE( [x, y] = [{1, 2}, {3}] ) { z$(x) : R : op == 3; };")),
    ("generate_text", dict(INS='GENERATE( x = ["1 2"] ) { z$(x) : R : op == 3; };')),
    ("generate_value", dict(INS="GENERATE( x = [3, 4] ) { z$(x) : R : op == y$(x); };")),
    ("generate_range", dict(INS="GENERATE( x = [3, 128] ) { z$(x) : R : op == $(x); };")),
    ("include_missing", dict(TOP='#include "nosuch.bin_fmt"')),
    ("include_itself", dict(TOP='#include "include_itself.bin_fmt"')),
    ("include_error", dict(TOP='#include "bad.inc"')),
    ("syntax_brace", dict(FMT="format Z[8] {")),
    ("syntax_semicolon", dict(INS="z : R : op == 3")),
    ("syntax_colon", dict(INS="z R : op == 3;")),
    ("syntax_once", dict(FMT="#once")),
]
gen, out, hdr = sys.argv[1:4]
os.makedirs(out, exist_ok=True)
os.makedirs(out + "/o", exist_ok=True)
open(out + "/bad.inc", "w").write("format Z[8] { fields: unsigned z; };\n")
rows = []
for name, d in [("good", {})] + BAD:
    t = T
    for k, v in D.items(): t = t.replace("@%s@" % k, d.get(k, v))
    f = "%s/%s.bin_fmt" % (out, name)
    open(f, "w").write(t)
    try: p = subprocess.run([gen, f, "T", name, out, out + "/o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60); rc, log = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired: rc, log = 124, ""
    if "-v" in sys.argv: print(name, rc, " ".join(log.split())[:150])
    rows.append((name, rc, 0 if name == "good" else 1))
with open(hdr, "w") as h:
    h.write("// Exit code of the generator for descriptions with a mistake.\nnamespace vfe {\n")
    for n, rc, want in rows:
        h.write('static void bad_%s() { vf_check(%d == %d, "%s"); }\n' % (n, rc, want, "accepted: good" if want == 0 else "refused: " + n))
    h.write("static void (*const k_bad[])() = {%s};\nstatic const int n_bad = %d;\n}\n" % (", ".join("bad_" + n for n, _, _ in rows), len(rows)))
