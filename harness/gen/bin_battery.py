#!/usr/bin/env python3
"""bin_battery.py OUTDIR: binary format descriptions and, for each, the same in the plain subset of the language
that fmtparse.h reads. OUTDIR/bin_list has a line per description: name, decoder, files."""
import os, re, sys
out = sys.argv[1]
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out + "/src/sub", exist_ok=True); os.makedirs(out + "/plain", exist_ok=True)
lst = []
def write(p, t):
    with open(os.path.join(out, p), "w") as f: f.write(t)
def dec(name, groups, extra=""):
    return 'decoder D_%s { namespace vfbin::%s; opcode_enum = "OpcodeEnum"; includes { #include "%s_enums.h" } %s %s };\n' % (name, name, name, extra, groups)
def case(name, plain, files):
    for f, t in files.items(): write("src/" + f, t)
    write("plain/%s.bin_fmt" % name, plain)
    lst.append("%s D_%s %s" % (name, name, " ".join("src/" + f for f in files if not f.startswith("sub/") and not f.endswith(".inc"))))

F32 = """
format Base[32] { fields: unsigned bits[25]; unsigned opcode[7]; };
format RType[32] : Base { fields: unsigned func7[7]; unsigned rs2[5]; unsigned rs1[5]; unsigned func3[3]; unsigned rd[5]; unsigned opcode[7];
  overlays: unsigned r_uspecial[10] = rs2, rs1; unsigned func10[10] = func7, func3; };
format IType[32] : Base { fields: signed imm12[12]; unsigned rs1[5]; unsigned func3[3]; unsigned rd[5]; unsigned opcode[7]; };
"""
# ---- numbers in every notation, 64-bit words
case("num", """
format W64[64] { fields: unsigned big[63]; unsigned lo[1]; overlays: unsigned sw[40] = lo, [39..1]; };
format X64[64] : W64 { fields: unsigned tag[8]; unsigned mid[40]; signed low[16]; overlays: unsigned k[10] = tag, 0b10; unsigned pick[12] = mid[31..24], low[3..0]; unsigned two[8] = [63..60, 3..0]; };
instruction group N64[64] : W64 {
  n0 : W64 : big == 0x7fffffff'fffffffe, lo == 1;
  n1 : X64 : tag == 0x12, mid == 0x8000000001;
  n2 : X64 : tag == 0x13, mid > 0x80000000, mid <= 0xff'0000'0000;
  n3 : X64 : tag == 0x13, mid == 0x80000000;
  n4 : X64 : tag == 20, low == 0x7ff0;
  n5 : X64 : tag == 15, mid != 0xffff'ffff'f0;
  n6 : X64 : tag == 0x55, pick == 0xabc;
  n7 : X64 : tag == 0x56, two != 99;
  n8 : X64 : tag == 0x57, k == 0b0101'0111'10, mid < 10;
};
format F16[16] { fields: unsigned a[10]; unsigned b[6]; };
instruction group N16[16] : F16 { m0 : F16 : a == 521, b == 8; m1 : F16 : a == 522, b >= 33; m2 : F16 : a == 0x2'0, b == 0b10'1010; m3 : F16 : a == 0, b == 0; };
""", {"num.bin_fmt": dec("num", "N64; N16;") + """
/* Widths, indices and values. */
format W64[0x40] { fields: unsigned big[0'77]; unsigned lo[0b1]; overlays: unsigned sw[4'0] = lo, [0x2'7..01]; };
format X64[6'4] : W64 {   // the parent's width
  layout : default;
  fields: unsigned tag[010]; unsigned mid[0b10'1000]; signed low[0x1'0];
  overlays: unsigned k[1'0] = tag, 0b1'0; unsigned pick[014] = mid[0x1f..0b11000], low[3..0]; unsigned two[8] = [0x3f..6'0, 03..00]; }
instruction group N64[0x4'0] : W64 {
  n0 : W64 : big == 0x7fff'ffff'ffff'fffe, lo == 1;
  n1 : X64 : tag == 0x1'2, mid == 0x80'0000'0001;
  n2 : X64 : tag == 0x13, mid > 2147483648, mid <= 1'095'216'660'480;
  n3 : X64 : tag == 0b1'0011, mid == 020000000000;
  n4 : X64 : tag == 024, low == 0x7f'f0;
  n5 : X64 : tag == 0'17, mid != 0xff'ffff'fff0;
  n6 : X64 : tag == 0b0101'0101, pick == 0xa'b'c;
  n7 : X64 : tag == 86, two != 9'9;
  n8 : X64 : tag == 0x57, k == 0b0101'0111'1'0, mid < 012;
};
format F16[1'6] { fields: unsigned a[1'0]; unsigned b[6]; };
instruction group N16[020] : F16 { m0 : F16 : a == 01011, b == 010; m1 : F16 : a == 5'22, b >= 041; m2 : F16 : a == 0x2'0, b == 0b10'1010; m3 : F16 : a == 0, b == 0b00'0000; };
"""})
# ---- groups: single, merged in the decoder, merged by declaration, nested; duplicates
g = {c: "" for c in "abcdef"}
g["a"] = "a0 : RType : opcode == 1; a1 : IType : opcode == 2, func3 == 1; a2 : IType : opcode == 2, func3 == 2, imm12 != 5;"
g["b"] = "b0 : RType : opcode == 3, func7 == 0x11; b1 : RType : opcode == 3, func7 < 0x11;"
g["c"] = "c0 : RType : opcode == 4, rs1 != rd; c1 : RType : opcode == 4, rs1 == rd;"
g["d"] = "d0 : RType : opcode == 5, func10 == 0x3ff; d1 : RType : opcode == 5, func10 < 3;"
g["e"] = "e0 : IType : opcode == 6; e1 : RType : opcode == 7, r_uspecial >= 0x155;"
def grp(n, body): return "instruction group %s[32] : Base { %s };\n" % (n, body)
case("grp", F32 + grp("Ga", g["a"]) + grp("Mbc", g["b"] + g["c"]) + grp("Ade", g["d"] + g["e"]) + grp("Nest", g["b"].replace("b0", "p0").replace("b1", "p1") + g["d"].replace("d0", "p2").replace("d1", "p3") + g["a"].replace("a0", "p4").replace("a1", "p5").replace("a2", "p6")), {
    "grp.bin_fmt": dec("grp", "Ga; Mbc = { Gb, Gc }; Ade; Nest;") + grp("Gb", g["b"]) + "instruction group Nest = { Inner, P4 };\ninstruction group Inner = { P0, P2, };\ninstruction group Ade = { Gd, Ge };\n" +
    grp("Ga", g["a"]) + grp("Gc", g["c"]) + grp("Gd", g["d"]) + grp("Ge", g["e"]) + grp("P0", g["b"].replace("b0", "p0").replace("b1", "p1")) + grp("P2", g["d"].replace("d0", "p2").replace("d1", "p3")) + grp("P4", g["a"].replace("a0", "p4").replace("a1", "p5").replace("a2", "p6")) + F32})
# ---- specializations
sa = "s0 : RType : opcode == 1; s1 : IType : opcode == 2, func3 == 1; "
sx = "s0x : specializes s0 : rd == 0; s0y : specializes s0 : rd == 1, rs1 != 2; "
sb = "s2 : RType : opcode == 3, func7 != 0; "
sbx = "s2x : specializes s2 : func10 == 0x3ff; "
def ren(t, k): return re.sub(r"\bs(\d)", k + r"\1", t)
case("spec", F32 + grp("G1", sa + sx) + grp("Zz", ren(sa + sx + sb + sbx, "z")) + grp("Aa", ren(sa + sx + sb + sbx, "y")) + grp("Decl", ren(sa + sx + sb, "x")) + grp("Deep", ren(sa + sx + sb + sbx, "w")) +
     grp("Cross", ren(sa + sx, "v") + ren(sb, "v") + "v1x : specializes v1 : rs1 == 3; v2x : specializes v2 : rs2 == rd; "), {
    "spec.bin_fmt": dec("spec", "G1; Zz = { H1, H2 }; Aa = { J1, J2 }; Decl; Deep = { L1, K2 }; Cross = { M1, M2 };") + F32 + grp("G1", sx + sa) +
    grp("H1", ren(sa + sx, "z")) + grp("H2", ren(sb + sbx, "z")) + grp("J1", ren(sa + sx, "y")) + grp("J2", ren(sbx + sb, "y")) +
    grp("K1", ren(sa + sx, "x")) + grp("K3", ren(sb, "x")) + "instruction group Decl = { K3, K1 };\n" +
    "instruction group L1 = { L2 }\ninstruction group L2 = { L3 };\n" + grp("L3", ren(sa + sx, "w")) + grp("K2", ren(sb + sbx, "w")) +
    grp("M1", ren(sa, "v") + "v2x : specializes v2 : rs2 == rd; ") + grp("M2", ren(sb, "v") + ren(sx, "v") + "v1x : specializes v1 : rs1 == 3; ")})
# ---- generated instructions
ops = [("add", 0), ("sub", 32), ("xor", 4)]
plain = "".join("g_%s : RType : opcode == 1, func7 == %d;" % o for o in ops)
plain += "".join("h_%s%s : %s : opcode == %d, func3 == %d;" % (a, x, f, b, y) for a, b in (("l", 2), ("m", 3)) for f, x, y in (("IType", "i", 1), ("RType", "r", 2)))
plain += "".join("k%d_%s : RType : opcode == 4, rs1 %s %d; " % (v, n, o, v) for n, o, v in (("lo", "<", 5), ("hi", ">", 20)))
plain += "one : RType : opcode == 5; n5e : RType : opcode == 6, func3 == 5, rd != 7;"
plain += "lit_a : RType : opcode == 7, func3 == 1; lit_b : RType : opcode == 7, func3 == 2; "
case("gen", F32 + grp("Gen", plain) + grp("GenM", plain.replace("_", "_m").replace("one", "onem").replace("n5e", "n5em").replace("k5", "km5").replace("k20", "km20")), {
    "gen.bin_fmt": dec("gen", "Gen; GenM = { GenS };") + F32 + grp("Gen", """
  GENERATE( [op, v] = [ {add, 0}, {"sub", 0x20}, {xor, 0b100} ] ) { g_$(op) : RType : opcode == 1, func7 == $(v); };
  GENERATE( [a, b] = [ {l, 2}, {m, 3} ], [f, x, y] = [ {IType, i, 1}, {RType, r, "2"} ] ) { h_$(a)$(x) : $(f) : opcode == $(b), func3 == $(y); };
  GENERATE( v = [5] ) { k$(v)_lo : RType : opcode == 4, rs1 < $(v); };
  GENERATE( v = [ 20 ] ) { k$(v)_hi : RType : opcode == 4, rs1 > $(v); };
  one : RType : opcode == 5;
  GENERATE( q = [5] ) { n$(q)e : RType : opcode == 6, func3 == $(q), rd != 7; };
  GENERATE( [n, v] = [ {a, 1}, {b, 2} ] ) { lit_$(n) : RType : opcode == 0x7, func3 == $(v); };
""") + grp("GenS", """
  GENERATE( [op, v] = [ {add, 0}, {"sub", 3'2}, {xor, 4} ] ) { g_m$(op) : RType : opcode == 1, func7 == $(v); };
  GENERATE( [f, x, y] = [ {IType, i, 1}, {RType, r, "2"} ] ) { h_ml$(x) : $(f) : opcode == 2, func3 == $(y); h_mm$(x) : $(f) : opcode == 3, func3 == $(y); };
  GENERATE( t = [opcode] ) { km5_mlo : RType : $(t) == 4, rs1 < 5; km20_mhi : RType : $(t) == 4, rs1 > 20; onem : RType : $(t) == 5; };
  n5em : RType : opcode == 6, func3 == 5, rd != 7;
  GENERATE( [n, v] = [ {a, "func3 == 1"}, {b, "func3==2"} ] ) { lit_m$(n) : RType : opcode == $(seven), rd >= 0; };
""".replace("GENERATE( [n, v] = [ {a, \"func3 == 1\"}, {b, \"func3==2\"} ] ) { lit_m$(n) : RType : opcode == $(seven), rd >= 0; };", "GENERATE( fld = [func3], seven = [7, \"7\"], [n, v] = [ {a, 1}, {b, 2} ] ) { lit_m$(n) : RType : opcode == 7, $(fld) == $(v); };").replace("seven = [7, \"7\"], ", ""))})
# ---- several files, includes, formats used before they are defined and in other files
case("inc", """
format Sub8[8] { fields: unsigned p[3]; signed q[5]; };
format Base[32] { fields: unsigned bits[25]; unsigned opcode[7]; };
format Mid[32] : Base { fields: unsigned x[20]; unsigned y[5]; unsigned opcode[7]; };
format Leaf[32] : Mid { fields: format Sub8 s[3]; unsigned t[1]; unsigned opcode[7]; overlays: unsigned st[9] = t, [31..24]; };
format One[32] : Mid { fields: unsigned u[4]; format Sub8 v; unsigned z[13]; unsigned opcode[7]; };
instruction group I0[32] : Base { i0 : Base : opcode == 1, bits != 0; i1 : Mid : opcode == 2, y > 3; i2 : Leaf : opcode == 3, t == 1; };
instruction group I1[32] : Base { i3 : Leaf : opcode == 4, st == 0x155; i4 : One : opcode == 5, u <= 9, z != 0x1fff; };
""", {"inc.bin_fmt": '#include "inc_a.inc"\n' + dec("inc", "I0; I1;") + '#include "inc_b.inc"\nformat Leaf : Mid { fields: format Sub8 s[3]; unsigned t[1]; unsigned opcode[7]; overlays: unsigned st[9] = t, [31..24]; };\n',
      "inc2.bin_fmt": '#include "inc_b.inc"\ninstruction group I1[32] : Base { i3 : Leaf : opcode == 4, st == 0x155; i4 : One : opcode == 5, u <= 9, z != 0x1fff; };\nformat One : Mid { fields: unsigned u[4]; format Sub8 v; unsigned z[13]; unsigned opcode[7]; }',
      "inc_a.inc": '#include "sub/deep.bin_fmt"\ninstruction group I0[32] : Base { i0 : Base : opcode == 1, bits != 0; i1 : Mid : opcode == 2, y > 3; i2 : Leaf : opcode == 3, t == 1; };\nformat Mid : Base { fields: unsigned x[20]; unsigned y[5]; unsigned opcode[7]; };\n',
      "inc_b.inc": '#once\nformat Base[32] { fields: unsigned bits[25]; unsigned opcode[7]; };\n',
      "sub/deep.bin_fmt": '#once\n#include "leaf.bin_fmt"\n',
      "sub/leaf.bin_fmt": '// Found next to the file that includes it.\nformat Sub8[8] { fields: unsigned p[3]; signed q[5]; };\n'})
# ---- the descriptions of the other batteries, read by the visitor
for n in ("cons", "riscv32c", "riscv32g", "battery"):
    t = open(here + "/fmt/%s.bin_fmt" % n).read()
    t = re.sub(r"decoder \w+ \{.*?\};", "", t, flags=re.S)
    t = "\n".join(l for l in t.split("\n") if not re.search(r"[=<>] *-\d", l))
    used = set(re.findall(r"instruction group (\w+)\[", t))
    case(n, t, {n + ".bin_fmt": dec(n, " ".join(g + ";" for g in sorted(used))) + t})
write("bin_list", "\n".join(lst) + "\n")
