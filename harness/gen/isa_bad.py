#!/usr/bin/env python3
"""isa_bad.py OUTDIR: descriptions with one mistake each, which the generator has to refuse (and not crash on)."""
import os, sys
T = """
disasm widths = {-10};
@GLOBAL@
isa T { namespace vfi::t; slots { @SLOTS@ } @ISA@ }
slot s @BASE@ {
  default size = 4;
  @DECL@
  default opcode = @DEF@;
  opcodes {
    add{ : rs1 : rd(1) }, disasm: "add", "%rd, %rs1", semfunc: "&vfi::Sem<1>";
    @OPS@
  }
}
slot b { default opcode = disasm: "x", semfunc: "&vfi::Sem<3>"; opcodes { bop{ : rs1 : }, disasm: "bop", semfunc: "&vfi::Sem<4>"; } }
slot b2 { default opcode = disasm: "x", semfunc: "&vfi::Sem<3>"; opcodes { bop{ : rs1 : }, disasm: "bop", semfunc: "&vfi::Sem<5>"; } }
template <int a> slot t { default opcode = disasm: "x", semfunc: "&vfi::Sem<3>"; opcodes { top{ : rs1 : rd(a) }, disasm: "top", semfunc: "&vfi::Sem<4>"; } }
"""
D = {"GLOBAL": "", "SLOTS": "s;", "ISA": "", "BASE": "", "DECL": "", "DEF": 'disasm: "bad", semfunc: "&vfi::Sem<0>"', "OPS": ""}
BAD = [
    ("default_resources", dict(DEF='disasm: "bad", semfunc: "&vfi::Sem<0>", resources: { rs1 : rd }')),
    ("default_attributes", dict(DEF='disasm: "bad", semfunc: "&vfi::Sem<0>", attributes: { priv }')),
    ("default_no_semfunc", dict(DEF='disasm: "bad"')),
    ("default_two_semfuncs", dict(DEF='disasm: "bad", semfunc: "&vfi::Sem<0>", semfunc: "&vfi::Sem<1>"')),
    ("undefined_slot", dict(SLOTS="s; nosuch;")),
    ("undefined_base", dict(BASE=": nosuch")),
    ("missing_template_args", dict(BASE=": t")),
    ("too_many_template_args", dict(BASE=": t<1, 2>")),
    ("args_of_plain_slot", dict(BASE=": b<1>")),
    ("same_opcode_twice", dict(OPS='add{ : rs2 : }, disasm: "add", semfunc: "&vfi::Sem<2>";')),
    ("same_opcode_inherited_twice", dict(BASE=": b, b2")),
    ("delete_unknown", dict(BASE=": b", OPS="nosuch = delete;")),
    ("delete_without_base", dict(OPS="bop = delete;")),
    ("override_unknown", dict(BASE=": b", OPS='nosuch = override, disasm: "x";')),
    ("override_without_base", dict(OPS='bop = override, disasm: "x";')),
    ("unknown_disasm_operand", dict(OPS='o{ : rs1 : }, disasm: "o", "%nosuch", semfunc: "&vfi::Sem<2>";')),
    ("two_disasm", dict(OPS='o{ : rs1 : }, disasm: "o", disasm: "p", semfunc: "&vfi::Sem<2>";')),
    ("two_semfunc", dict(OPS='o{ : rs1 : }, disasm: "o", semfunc: "&vfi::Sem<2>", semfunc: "&vfi::Sem<2>";')),
    ("two_resources", dict(OPS='o{ : rs1 : }, disasm: "o", resources: { rs1 : }, resources: { rs1 : }, semfunc: "&vfi::Sem<2>";')),
    ("two_attributes", dict(OPS='o{ : rs1 : }, disasm: "o", attributes: { a }, attributes: { b }, semfunc: "&vfi::Sem<2>";')),
    ("few_semfuncs", dict(OPS='o{ (: rs1 : ), ( : : rd) }, disasm: "o", semfunc: "&vfi::Sem<2>";')),
    ("unknown_resources", dict(OPS='o{ : rs1 : }, disasm: "o", resources: nosuch, semfunc: "&vfi::Sem<2>";')),
    ("resource_of_no_destination", dict(OPS='o{ : rs1 : rd }, disasm: "o", resources: { rs1 : rd[0..nosuch] }, semfunc: "&vfi::Sem<2>";')),
    ("undefined_latency", dict(OPS='o{ : rs1 : rd(nosuch) }, disasm: "o", semfunc: "&vfi::Sem<2>";')),
    ("constant_twice", dict(DECL="int k = 1; int k = 2;")),
    ("global_twice", dict(GLOBAL="int k = 1; int k = 2;")),
    ("widths_twice", dict(GLOBAL="disasm widths = {3};")),
    ("isa_twice", dict(GLOBAL="isa T { namespace vfi::u; slots { s; } }")),
    ("slot_twice", dict(GLOBAL='slot b { default opcode = disasm: "x", semfunc: "&vfi::Sem<3>"; opcodes { c{}, disasm: "c", semfunc: "&vfi::Sem<3>"; } }')),
    ("slot_index", dict(SLOTS="s[0..1];")),
    ("unknown_function", dict(OPS='o{ : rs1 : rd(nosuch(1)) }, disasm: "o", semfunc: "&vfi::Sem<2>";')),
    ("generate_undefined", dict(OPS='GENERATE( [x] = [a, b] ) { g_$(y){}, disasm: "g", semfunc: "&vfi::Sem<2>"; };')),
    ("generate_count", dict(OPS='GENERATE( [x, y] = [{a, b}, {c}] ) { g_$(x)$(y){}, disasm: "g", semfunc: "&vfi::Sem<2>"; };')),
    ("generate_twice", dict(OPS='GENERATE( [x, x] = [{a, b}] ) { g_$(x){}, disasm: "g", semfunc: "&vfi::Sem<2>"; };')),
    ("syntax_brace", dict(GLOBAL="slot q {")),
    ("syntax_semicolon", dict(OPS='o{ : rs1 : }, disasm: "o"')),
    ("syntax_in_generate", dict(OPS='GENERATE( x = [a, b] ) { g_$(x){}, disasm "g$(x)", semfunc: "&vfi::Sem<2>"; };')),
    ("generated_text", dict(OPS='GENERATE( x = ["a b", "c d"] ) { $(x){}, disasm: "g", semfunc: "&vfi::Sem<2>"; };')),
    ("division_by_zero", dict(OPS='o{ : rs1 : rd(4 / 0) }, disasm: "o", semfunc: "&vfi::Sem<2>";')),
    ("include_missing", dict(GLOBAL='#include "nosuch.isa"')),
]
if __name__ == "__main__":
    d = sys.argv[1]; os.makedirs(d, exist_ok=True)
    for n, over in [("good", {})] + BAD:
        t = T
        for k, v in {**D, **over}.items(): t = t.replace("@%s@" % k, v)
        open(os.path.join(d, n + ".isa"), "w").write(t)
