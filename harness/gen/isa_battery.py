#!/usr/bin/env python3
"""Battery of instruction set descriptions for P33: writes NAME.isa files and
isa_expect.h, the table of what every decoded instruction must look like. The
expectations are stated here from the documentation of the description language,
independently of the generator."""
import os, re, sys

def pascal(s):
    out, up = "", True
    for c in s:
        if c == "_": up = True; continue
        out += c.upper() if up else c
        up = False
    return out

class Inst:
    """parts: [(predicate, [sources], [(dest, latency)])], '[x]' is an array operand, latency '*' is
    computed at decode time. use/acquire/hold: [(resource, begin, end)]. attrs: {name: value}."""
    def __init__(self, name, text, size=1, parts=(), use=(), acquire=(), hold=(), attrs=None, disasm=(), sem=()):
        self.name, self.text, self.size = name, text, size
        self.parts, self.use, self.acquire, self.hold = list(parts), list(use), list(acquire), list(hold)
        self.attrs, self.disasm, self.sem = dict(attrs or {}), list(disasm), list(sem)
    def derive(self, **kw):
        d = dict(name=self.name, text=self.text, size=self.size, parts=self.parts, use=self.use, acquire=self.acquire,
                 hold=self.hold, attrs=self.attrs, disasm=self.disasm, sem=self.sem)
        d.update(kw)
        return Inst(**d)

class Slot:
    def __init__(self, name, insts, none, attr_names=None, none_size=1, instances=(), order_attr=None):
        self.name, self.insts, self.none, self.none_size = name, insts, none, none_size
        self.attr_names = sorted(set(attr_names or []) | {a for i in insts for a in i.attrs})
        self.instances = list(instances)

class Isa:
    def __init__(self, name, text, slots, widths=(), extra_insts=(), files=None, version=1):
        self.name, self.text, self.slots, self.widths = name, text, slots, list(widths)
        self.extra = list(extra_insts)          # only matter for the classification of resources
        self.files = files or {}
        self.version = version

_sem = [0]
def sem(n=1):
    """n fresh semantic functions: ([ids], isa text)"""
    ids = list(range(_sem[0] + 1, _sem[0] + n + 1)); _sem[0] += n
    return ids, "semfunc: " + ", ".join('"&vfi::Sem<%d>"' % i for i in ids)

def opstr(parts):
    def one(p):
        pred, srcs, dsts = p
        return "%s : %s : %s" % (pred or "", ", ".join(srcs), ", ".join(d if l is None else "%s(%s)" % (d, l) for d, l in dsts))
    if len(parts) == 1: return "{ %s }" % one(parts[0])
    return "{ " + ", ".join("(%s)" % one(p) for p in parts) + " }"

def mk(name, parts, disasm=None, lat=None, size=None, defsize=4, res=None, attrs=None, attrtext=None, nsem=None, use=(), acquire=(), hold=(), dsem=None):
    """parts as in Inst, with latencies as text (None: not given); lat: resulting latencies per part."""
    t = "" if size is None else "[%s]" % size
    t += opstr(parts)
    ids = []
    opts = []
    if res is not None: opts.append("resources: " + res)
    if attrtext is not None: opts.append("attributes: " + attrtext)
    if disasm is not None: opts.append("disasm: " + ", ".join('"%s"' % d for d in disasm))
    if dsem is None:
        ids, st = sem(len(parts)); opts.append(st)
    else: ids = [dsem] * len(parts)
    text = name + t + "".join(",\n      " + o for o in opts) + ";\n"
    lat = lat or [[l for _, l in p[2]] for p in parts]
    rp = [(p[0], p[1], [(d, lat[i][j]) for j, (d, _) in enumerate(p[2])]) for i, p in enumerate(parts)]
    return Inst(name, text, defsize if size is None else int(str(size), 0), rp, use, acquire, hold, attrs, disasm or [], ids)

# --- the battery -------------------------------------------------------------------------------
ISAS = []

def alpha():
    D = [1]                          # default latency of the slot
    i = []
    a = i.append
    R3 = [(None, ["rs1", "rs2"], [("rd", None)])]
    a(mk("add", R3, ["add", "%rd, %rs1, %rs2"], lat=[[2]]))
    a(mk("sub", R3, ["sub", "%rd, %rs1, %rs2"], lat=[[2]]))
    # Same text, operands in another order.
    a(mk("swp_a", R3, ["swp", "%rd, %rs1, %rs2"], lat=[[2]]))
    a(mk("swp_b", R3, ["swp", "%rd, %rs2, %rs1"], lat=[[2]]))
    a(mk("swp_c", R3, ["swp", "%rs2, %rs1, %rd"], lat=[[2]]))
    # Same concatenated text, other field boundaries.
    a(mk("fld_a", R3, ["ab", "c%rd"], lat=[[2]]))
    a(mk("fld_b", R3, ["a", "bc%rd"], lat=[[2]]))
    a(mk("fld_c", R3, ["abc%rd"], lat=[[2]]))
    a(mk("fld_d", R3, ["a", "b", "c%rd"], lat=[[2]]))
    # Same text, other numbers.
    I = [(None, ["rs1", "imm"], [("rd", None)])]
    for k, f in enumerate(["imm", "imm:x", "imm:d", "imm:08x", "imm:04x", "imm:02x", "imm:X", "imm:o", "imm:016x", "(imm<<1):08x", "(imm >> 1):08x",
                           "(imm<<12):x", "@+imm:08x", "@-imm:08x", "@ + (imm<<2):08x", "@-(imm<<1):x", "@+(imm>>2):x", "@:08x", "@:x"]):
        a(mk("num_%d" % k, I, ["num", "%%rd, %%(%s)" % f], lat=[[2]]))
    a(mk("num_e", I, ["num", "%(imm:x)(%rs1)"], lat=[[2]]))
    a(mk("num_f", I, ["num", "%(imm:x)(%rd)"], lat=[[2]]))
    a(mk("num_g", I, ["n%(imm:08x)", "%rd?", "%rs1"], lat=[[2]]))
    # Latencies.
    for k, (t, v) in enumerate([("0", 0), ("1", 1), ("3", 3), ("2 * 3 - 1", 5), ("7 / 2", 3), ("-(-2)", 2), ("(1 + 2) * 2", 6), ("0x10", 16),
                                ("0b101", 5), ("017", 15), ("1'000", 1000), ("global_lat", 7), ("slot_lat + 1", 10), ("10 - 4 - 3", 3), ("24 / 4 / 2", 3), ("*", "*")]):
        a(mk("lat_%d" % k, [(None, ["rs1"], [("rd", t)])], ["lat%d" % k, "%rd"], lat=[[v]]))
    a(mk("two_dest", [(None, ["rs1"], [("rd", "3"), ("rd2", None)])], ["two_dest", "%rd, %rd2"], lat=[[3, 2]]))
    a(mk("two_dest_b", [(None, ["rs1"], [("rd", "2"), ("rd2", "3")])], ["two_destb", "%rd2, %rd"], lat=[[2, 3]]))
    a(mk("three_dest", [(None, [], [("rd", "*"), ("rd2", "4"), ("rd3", "*")])], ["three", "%rd3"], lat=[["*", 4, "*"]]))
    # Sizes.
    a(mk("sz_2", [(None, ["rs1"], [])], ["sz_2", "%rs1"], size="2"))
    a(mk("sz_8", [(None, ["rs1"], [])], ["sz_8", "%rs1"], size="0x8"))
    a(mk("sz_d", [(None, ["rs1"], [])], ["sz_d", "%rs1"]))
    # Predicates, operands of the same name in different roles.
    a(mk("pred_a", [("pr", ["rs1"], [("rd", None)])], ["pred_a", "%pr ? %rd, %rs1"], lat=[[2]]))
    a(mk("pred_b", [("pr2", ["rs1"], [("rd", None)])], ["pred_b", "%pr2 %rd"], lat=[[2]]))
    a(mk("pred_c", [("pr", [], [])], ["pred_c", "%pr"]))
    a(mk("same_a", [(None, ["rd", "rs1"], [("rd", None)])], ["same_a", "%rd, %rs1"], lat=[[2]]))
    a(mk("same_b", [(None, ["rs1", "rd"], [("rd", None)])], ["same_b", "%rd, %rs1"], lat=[[2]]))
    a(mk("src_3", [(None, ["rs1", "rs2", "imm"], [])], ["src_3", "%imm, %rs2, %rs1"]))
    a(mk("empty", [(None, [], [])], ["empty"]))
    # Array operands.
    a(mk("arr_s", [(None, ["rs1", "[vs]"], [("rd", None)])], ["arr_s", "%rd, %rs1"], lat=[[2]]))
    a(mk("arr_t", [(None, ["[vs]", "rs1"], [("rd", None)])], ["arr_t"], lat=[[2]]))
    a(mk("arr_d", [(None, ["rs1"], [("[vd]", "3")])], ["arr_d", "%rs1"], lat=[[3]]))
    a(mk("arr_e", [(None, ["rs1"], [("rd", "2"), ("[vd]", None), ("rd2", "5")])], ["arr_e", "%rs1"], lat=[[2, 2, 5]]))
    a(mk("arr_f", [(None, ["[vs]", "[vt]"], [("[vd]", "*")])], ["arr_f"], lat=[["*"]]))
    a(mk("arr_g", [(None, ["vs", "[vs]"], [("vd", "4"), ("[vd]", "5")])], ["arr_g"], lat=[[4, 5]]))
    # Child instructions.
    a(mk("ld", [(None, ["rs1", "imm"], []), (None, [], [("rd", "3")])], ["ld", "%rd, %(imm:x)(%rs1)"], lat=[[], [3]]))
    a(mk("ld_p", [("pr", ["rs1", "imm"], []), (None, [], [("rd", None)])], ["ldp", "%rd, %rs1"], lat=[[], [2]]))
    a(mk("tri", [(None, ["rs1"], [("rd", "2")]), (None, ["rs2"], [("rd2", "3")]), (None, ["imm"], [("rd3", "4")])],
         ["tri", "%rd, %rd2, %rd3, %rs1, %rs2, %(imm:x)"], lat=[[2], [3], [4]]))
    a(mk("tri_p", [(None, ["rs1"], []), ("pr", [], []), ("pr2", [], [("rd", "2")])], ["trip", "%pr2 %pr %rd"], lat=[[], [], [2]]))
    # The default semantic function is used when none is given.
    a(mk("nosem", [(None, ["rs1"], [])], ["nosem", "%rs1"], dsem=9999))
    a(mk("nosem_c", [(None, ["rs1"], []), (None, [], [("rd", "2")])], ["nosem_c", "%rs1"], lat=[[], [2]], dsem=9999))
    # Resources.
    RR = lambda l: [(None, ["rs1", "rs2"], [("rd", l)])]
    def r(name, l, res, **kw):
        a(mk(name, RR(l), ["%s" % name, "%rd, %rs1, %rs2"], lat=[[2 if l is None else int(l)]], res=res, **kw))
    r("res_a", "2", "{ rs1, rs2 : rd }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 2)])
    r("res_b", "4", "{ rs1, rs2 : rd }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 4)])
    r("res_c", "4", "{ rs1, rs2 : rd[0..6] }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 6)])
    r("res_d", "4", "{ rs1, rs2 : rd[0..rd + 1] }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 5)])
    r("res_e", "4", "{ rs1, rs2 : rd[..rd - 1] }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 3)])
    r("res_f", "4", "{ rs1 : rd }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 4)])
    r("res_g", "4", "{ rs1, rs2 }", use=[("rs1", 0, 0), ("rs2", 0, 0)])
    r("res_h", "4", "{ : rd }", acquire=[("rd", 0, 4)])
    r("res_i", "4", "{ rs1 : rd : busy[0..3] }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 4)], hold=[("busy", 0, 3)])
    r("res_j", "4", "{ rs1 : rd, busy[0..3] }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 4), ("busy", 0, 3)])
    r("res_k", "4", "{ rs1 : rd : busy[0..rd] }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 4)], hold=[("busy", 0, 4)])
    r("res_l", "4", "{ rs1 : : busy[0..4], rd }", use=[("rs1", 0, 0)], hold=[("busy", 0, 4), ("rd", 0, 4)])
    r("res_m", "4", "{ rs1 : : busy[0..2], rd }", use=[("rs1", 0, 0)], hold=[("busy", 0, 2), ("rd", 0, 4)])
    r("res_n", "4", "{ rs1, rd : rd, rs1[..9] }", use=[("rs1", 0, 0), ("rd", 0, 4)], acquire=[("rd", 0, 4), ("rs1", 0, 9)])
    r("cpx_a", "4", "{ rs1 : fpu[1..3] }", use=[("rs1", 0, 0)], acquire=[("fpu", 1, 3)])
    r("cpx_b", "4", "{ rs1 : fpu[1..13] }", use=[("rs1", 0, 0)], acquire=[("fpu", 1, 13)])
    r("cpx_c", "4", "{ rs1 : fpu[11..3] }", use=[("rs1", 0, 0)], acquire=[("fpu", 11, 3)])
    r("cpx_d", "4", "{ rs1 : fpu[0..2] }", use=[("rs1", 0, 0)], acquire=[("fpu", 0, 2)])
    r("cpx_e", "4", "{ rs1, fpu : rd }", use=[("rs1", 0, 0), ("fpu", 0, 0)], acquire=[("rd", 0, 4)])
    r("cpx_f", "4", "{ rs1, fpu[2..5] : rd, fpu[1..2], div[2..rd] }", use=[("rs1", 0, 0), ("fpu", 2, 5)], acquire=[("rd", 0, 4), ("fpu", 1, 2), ("div", 2, 4)])
    r("cpx_g", "4", "{ : : fpu[1..2], div[1..3], busy }", hold=[("fpu", 1, 2), ("div", 1, 3), ("busy", 0, 0)])
    r("cpx_h", "4", "fpu_use", use=[("rs2", 0, 0)], acquire=[("fpu", 2, 6), ("rd", 0, 4)])
    r("cpx_i", "6", "fpu_use", use=[("rs2", 0, 0)], acquire=[("fpu", 2, 8), ("rd", 0, 6)])
    r("arr_ra", "4", "{ [vr] : rd }", use=[("[vr]", 0, 0)], acquire=[("rd", 0, 4)])
    r("arr_rb", "4", "{ rs1 : [vr][0..3] }", use=[("rs1", 0, 0)], acquire=[("[vr]", 0, 3)])
    r("arr_rc", "4", "{ rs1 : [vc][1..3], [vd][2..4] }", use=[("rs1", 0, 0)], acquire=[("[vc]", 1, 3), ("[vd]", 2, 4)])
    r("arr_rd", "4", "{ rs1, [vc] : rd }", use=[("rs1", 0, 0), ("[vc]", 0, 0)], acquire=[("rd", 0, 4)])
    r("arr_re", "4", "{ rs1 : [vc][1..3] : [vd][2..5] }", use=[("rs1", 0, 0)], acquire=[("[vc]", 1, 3)], hold=[("[vd]", 2, 5)])
    # The acquired destination belongs to a child instruction.
    a(mk("ldr", [(None, ["rs1"], []), (None, [], [("rd", "5")])], ["ldr", "%rd, %rs1"], lat=[[], [5]], res="{ rs1 : rd }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 5)]))
    a(mk("ldr_b", [(None, ["rs1"], []), (None, [], [("rd", "6")])], ["ldrb", "%rd, %rs1"], lat=[[], [6]], res="{ rs1 : rd }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 6)]))
    # Attributes.
    def at(name, t, v):
        a(mk(name, [(None, ["rs1"], [])], [name, "%rs1"], attrtext=t, attrs=v))
    at("att_a", "{ priv }", {"priv": 1})
    at("att_b", "{ priv = 3 }", {"priv": 3})
    at("att_c", "{ branch, priv = 2 * 2 }", {"branch": 1, "priv": 4})
    at("att_d", "{ branch = 0, a_level = -1 }", {"branch": 0, "a_level": -1})
    at("att_e", "{ a_level = global_lat, priv = slot_lat }", {"a_level": 7, "priv": 9})
    at("att_f", "{ branch }", {"branch": 1})
    a(mk("att_g", [(None, ["rs1"], []), (None, [], [("rd", "2")])], ["att_g", "%rs1"], lat=[[], [2]], attrtext="{ priv = 6 }", attrs={"priv": 6}))
    body = "".join("    " + x.text for x in i)
    text = """
disasm widths = {-10, 14};
int global_lat = 3 + 4;
includes { #include "isa_sem.h" }
isa Alpha {
  namespace vfi::alpha;
  slots { alu; }
}
slot alu {
  int slot_lat = global_lat + 2;
  default size = 4;
  default latency = 2;
  resources fpu_use = { rs2 : fpu[2..rd + 2], rd };
  default opcode =
    disasm: "Illegal", "at %(@:08x)",
    semfunc: "&vfi::Sem<9999>";
  opcodes {
""" + body + "  }\n}\n"
    none = Inst("none", "", 4, [(None, [], [])], disasm=["Illegal", "at %(@:08x)"], sem=[9999])
    ISAS.append(Isa("Alpha", text, [Slot("alu", i, none, none_size=4)], widths=[-10, 14]))

def beta():
    """Inheritance, templates, overriding and deleting."""
    B = lambda l: [(None, ["rs1", "rs2"], [("rd", l)])]
    one = mk("one", B("a + 1"), ["one", "%rd, %rs1"], size=4, res="{ rs1 : rd }", use=[("rs1", 0, 0)], lat=[[0]])
    two = mk("two", B("a + b * 2"), ["two", "%rd, %rs2"], size=2, attrtext="{ cls = b }", attrs={"cls": 0}, lat=[[0]])
    three = mk("three", [(None, ["rs1"], []), (None, [], [("rd", "b - a")])], ["three", "%rd, %rs1"], res="{ rs1 : rd, unit[a..b] }", use=[("rs1", 0, 0)], lat=[[], [0]], defsize=1)
    four = mk("four", B("*"), ["four", "%rd"], attrtext="{ cls = 2, other }", attrs={"cls": 2, "other": 1}, lat=[["*"]], defsize=1)
    five = mk("five", B(None), ["five", "%rd"], lat=[[0]], defsize=1)
    base = [one, two, three, four, five]
    def inst_base(a, b):
        return [one.derive(parts=[(None, ["rs1", "rs2"], [("rd", a + 1)])], acquire=[("rd", 0, a + 1)]),
                two.derive(parts=[(None, ["rs1", "rs2"], [("rd", a + b * 2)])], attrs={"cls": b}),
                three.derive(parts=[(None, ["rs1"], []), (None, [], [("rd", b - a)])], acquire=[("rd", 0, b - a), ("unit", a, b)]),
                four,
                five.derive(parts=[(None, ["rs1", "rs2"], [("rd", b)])])]
    plain = [mk("p_one", B("3"), ["p_one", "%rd"], size=4, res="{ rs1, rs2 : rd }", use=[("rs1", 0, 0), ("rs2", 0, 0)], acquire=[("rd", 0, 3)], attrtext="{ flag }", attrs={"flag": 1}, lat=[[3]]),
             mk("p_two", B("1"), ["p_two", "%rd"], lat=[[1]], defsize=8),
             mk("p_three", B("2"), ["p_three", "%rd, %rs1, %rs2"], lat=[[2]], defsize=8)]
    other = [mk("o_one", B("4"), ["o_one", "%rd"], lat=[[4]], defsize=1), mk("o_two", B("5"), ["o_two", "%rd"], lat=[[5]], defsize=1)]
    # derived slot 1: template arguments, own opcodes, deletes one, overrides several in different bases.
    s_ov, s_ov_t = sem(1); s_ov2, s_ov2_t = sem(1); s_ov3, s_ov3_t = sem(2)
    own = mk("own", B("1"), ["own", "%rd"], lat=[[1]], defsize=2)
    d1 = [x for x in inst_base(1, 3) if x.name != "four"]
    d1 = [x.derive(sem=s_ov3) if x.name == "three" else x for x in d1]
    p1 = [plain[0].derive(disasm=["P_ONE", "%rs2, %rd"]), plain[1].derive(sem=s_ov, use=[("rs2", 0, 0)], acquire=[("rd", 0, 7)]), plain[2]]
    o1 = [other[0].derive(sem=s_ov2, attrs={"flag": 5, "cls": 6}), other[1]]
    slot1 = d1 + p1 + o1 + [own]
    # derived slot 2: two level templates.
    mid_own = mk("mid_own", B("x * 2"), ["mid_own", "%rd"], lat=[[0]], defsize=1)
    def inst_mid(x):
        return inst_base(x, x + 3) + [mid_own.derive(parts=[(None, ["rs1", "rs2"], [("rd", x * 2)])])]
    slot2 = inst_mid(4)
    slot3 = inst_base(2, 2)
    text = """
disasm widths = {-8};
int g = 3;
includes { #include "isa_sem.h" }
isa Beta {
  namespace vfi::beta;
  slots { first; second; third; }
}
template <int a, int b>
slot base {
  default latency = b;
  opcodes {
%s  }
}
template <int x>
slot mid : base<x, x + g> {
  opcodes {
    %s  }
}
slot plain {
  default size = 8;
  default opcode = disasm: "bad", semfunc: "&vfi::Sem<9998>";
  opcodes {
%s  }
}
slot other {
  opcodes {
%s  }
}
slot first : base<1, g>, plain, other {
  default size = 2;
  default opcode = disasm: "bad1", semfunc: "&vfi::Sem<9997>";
  opcodes {
    four = delete;
    p_one = override, disasm: "P_ONE", "%%rs2, %%rd";
    p_two = override, %s, resources: { rs2 : rd[..7] };
    o_one = override, %s, attributes: { flag = 5, cls = 6 };
    three = override, %s;
    %s  }
}
slot second : mid<2 * 2> {
  default opcode = disasm: "bad2", semfunc: "&vfi::Sem<9996>";
}
slot third : base<2, 2> {
  default opcode = disasm: "bad3", semfunc: "&vfi::Sem<9995>";
}
""" % ("".join("    " + x.text for x in base), mid_own.text, "".join("    " + x.text for x in plain), "".join("    " + x.text for x in other),
       s_ov_t, s_ov2_t, s_ov3_t, own.text)
    def none(d, s): return Inst("none", "", 1, [(None, [], [])], disasm=[d], sem=[s])
    ISAS.append(Isa("Beta", text, [Slot("first", slot1, none("bad1", 9997), none_size=2), Slot("second", slot2, none("bad2", 9996)),
                                   Slot("third", slot3, none("bad3", 9995))], widths=[-8]))

def gamma():
    """Several slots and slot instances in one instruction word, generator version 2."""
    R = [(None, ["rs1"], [("rd", "1")])]
    alu = [mk("add", R, ["add", "%rd, %rs1"], lat=[[1]], defsize=2), mk("mul", [(None, ["rs1", "rs2"], [("rd", "3")])], ["mul", "%rd, %rs2"], lat=[[3]], size=3,
           res="{ rs1 : rd, mulu[1..2], [mv][1..4] }", use=[("rs1", 0, 0)], acquire=[("rd", 0, 3), ("mulu", 1, 2), ("[mv]", 1, 4)]),
           mk("vec", [("pr", ["[vs]"], [("[vd]", "2"), ("rd", "*")])], ["vec"], lat=[[2, "*"]], defsize=2),
           mk("vec_b", [("pr", ["[vs]"], [("[vd]", "*")])], ["vecb"], lat=[["*"]], defsize=2)]
    mem = [mk("load", [(None, ["rs1"], []), (None, [], [("rd", "2")])], ["load", "%rd, %rs1"], lat=[[], [2]], defsize=4, attrs={"load": 1, "store": 0}),
           mk("store", [(None, ["rs1", "rs2"], [])], ["store", "%rs1, %rs2"], defsize=4, attrtext="{ store, load = 0 }", attrs={"store": 1, "load": 0})]
    ctl = [mk("jump", [(None, ["imm"], [("pc", "0")])], ["jump", "%(@+(imm<<1):08x)"], lat=[[0]], defsize=1),
           mk("nop", [(None, [], [])], ["nop"], defsize=1),
           # Named as in slot mem, but not at the same place in the array of values.
           mk("chk", [(None, ["rs1"], [])], ["chk", "%rs1"], defsize=1, attrtext="{ load }", attrs={"load": 1}),
           mk("ret", [(None, ["rs1"], [])], ["ret", "%rs1"], defsize=1, attrtext="{ branch = 2 }", attrs={"branch": 2})]
    text = """
disasm widths = {};
includes { #include "isa_sem.h" }
isa Gamma {
  namespace vfi::gamma;
  slots { mem; alu[0..1, 3]; ctl; }
}
slot alu[4] {
  default size = 2;
  default opcode = disasm: "bada", semfunc: "&vfi::Sem<9994>";
  opcodes {
%s  }
}
slot mem {
  default size = 4;
  default attributes = { load };
  default opcode = disasm: "badm", semfunc: "&vfi::Sem<9993>";
  opcodes {
%s  }
}
slot ctl {
  default opcode = disasm: "badc", semfunc: "&vfi::Sem<9992>";
  opcodes {
%s  }
}
""" % tuple("".join("    " + x.text for x in s) for s in (alu, mem, ctl))
    def none(d, s, z): return Inst("none", "", z, [(None, [], [])], disasm=[d], sem=[s])
    sl = [Slot("mem", mem, none("badm", 9993, 4), none_size=4), Slot("alu", alu, none("bada", 9994, 2), none_size=2, instances=[0, 1, 3]), Slot("ctl", ctl, none("badc", 9992, 1))]
    ISAS.append(Isa("Gamma", text, sl, version=2))

def delta():
    """GENERATE."""
    base = _sem[0]; _sem[0] += 40
    insts, k = [], base
    for bt in ["eq", "ne", "ltu"]:
        for w, fw in [("", ""), (".w", "_w")]:
            k += 1
            insts.append(Inst("b%s%s" % (bt, fw), "", 4, [(None, ["rs1", "rs2", "imm"], [("pc", 3)])], use=[("rs1", 0, 0)], acquire=[("pc", 0, 3)],
                              disasm=["b%s%s" % (bt, w), "%rs1, %rs2, %(@+imm:08x)"], sem=[k], attrs={"cond": 2}))
    # The semantic functions are named through the variables.
    names = {"eq": 0, "ne": 1, "ltu": 2}
    for o in ["ld", "st"]:
        for n, sz in [("b", 1), ("h", 2), ("w", 4)]:
            k += 1
            insts.append(Inst("%s_%s" % (o, n), "", 4, [(None, ["rs1", "imm_%s" % n], []), (None, [], [("rd_%s" % o, 2)])], disasm=["%s%s" % (o, n), "%%imm_%s(%%rs1)" % n], sem=[k, k + 20]))
    k2 = k
    for v in ["x", "y"]:
        k2 += 1
        insts.append(Inst("single_" + v, "", 2, [(None, [], [])], disasm=["single %s" % v], sem=[k2]))
    text = """
disasm widths = {-12};
includes { #include "isa_sem.h" }
isa Delta {
  namespace vfi::delta;
  slots { gen; }
}
slot gen {
  default size = 4;
  default opcode = disasm: "bad", semfunc: "&vfi::Sem<9991>";
  opcodes {
    GENERATE( [btype, n] = [{"eq", 0}, {ne, 1}, {"ltu", 2}], [w, fcn_w, m] = [{"", "", 0}, {".w", _w, 1}] ) {
      b$(btype)$(fcn_w){: rs1, rs2, imm : pc(3) },
        resources: { rs1 : pc },
        attributes: { cond = 2 },
        disasm: "b$(btype)$(w)", "%%rs1, %%rs2, %%(@+imm:08x)",
        semfunc: "&vfi::Sem<%d + 2 * $(n) + $(m)>";
    };
    GENERATE( [op, i] = [{ld, 0}, {st, 3}], [n, j] = [{b, 0}, {h, 1}, {w, 2}] ) {
      $(op)_$(n){(: rs1, imm_$(n)), ( : : rd_$(op)(2))},
        disasm: "$(op)$(n)", "%%imm_$(n)(%%rs1)",
        semfunc: "&vfi::Sem<%d + $(i) + $(j)>", "&vfi::Sem<%d + $(i) + $(j)>";
    };
    GENERATE( v = [x, "y"] ) {
      single_$(v) [2] {},
        disasm: "single $(v)",
        semfunc: "&vfi::Sem<%d + vfi::k_$(v)>";
    };
  }
}
""" % (base + 1, base + 7, base + 27, k + 1)
    ISAS.append(Isa("Delta", text, [Slot("gen", insts, Inst("none", "", 4, [(None, [], [])], disasm=["bad"], sem=[9991]), none_size=4)], widths=[-12]))

# --- expectations ------------------------------------------------------------------------------
def parse_disasm(fmt, inst):
    """pieces: ('t', text) | ('o', part, kind, index) | ('n', spec, addr, op, part, kind, index, shift)"""
    def loc(name):
        for pn, (pred, srcs, dsts) in enumerate(inst.parts):
            if pred == name: return (pn, 0, 0)
            for k, s in enumerate(srcs):
                if s == name: return (pn, 1, k)
            for k, (d, _) in enumerate(dsts):
                if d == name: return (pn, 3, k)
        raise Exception("operand %s of %s" % (name, inst.name))
    out, pos = [], 0
    while pos < len(fmt):
        if fmt[pos] != "%":
            e = fmt.find("%", pos); e = len(fmt) if e < 0 else e
            out.append(("t", fmt[pos:e])); pos = e; continue
        pos += 1
        if fmt[pos] == "(":
            depth, e = 0, pos
            while True:
                if fmt[e] == "(": depth += 1
                if fmt[e] == ")":
                    depth -= 1
                    if depth == 0: break
                e += 1
            expr, pos = fmt[pos + 1:e], e + 1
            spec = "d"
            if ":" in expr: expr, spec = expr.rsplit(":", 1)
            expr = expr.replace(" ", "")
            addr, op, shift, l = False, "+", 0, None
            if expr.startswith("@"):
                addr = True
                if len(expr) > 1: op, expr = expr[1], expr[2:]
                else: expr = ""
            m = re.match(r"^\((\w+)(<<|>>)(\d+)\)$", expr)
            if m: l, shift = loc(m.group(1)), int(m.group(3)) * (1 if m.group(2) == "<<" else -1)
            elif expr: l = loc(expr)
            out.append(("n", spec, addr, op, l, shift))
        else:
            m = re.match(r"\w+", fmt[pos:]); out.append(("o",) + loc(m.group(0))); pos += len(m.group(0))
        if pos < len(fmt) and fmt[pos] == "?" and fmt[pos - 1] != " ": pos += 1
    return out

def emit(outdir):
    h = ["// Generated by isa_battery.py.", "#pragma once", '#include "isa_x.h"']
    for isa in ISAS:
        p = isa.name.lower()
        open(os.path.join(outdir, p + ".isa"), "w").write(isa.text)
        h.append('#include "%s_decoder.cc"\n#include "%s_enums.cc"' % (p, p))
        h.append("#define VF_ENC_BASE %sEncodingBase\n#define VF_ENC_VERSION %d" % (isa.name, isa.version))
        h.append('namespace vfi { namespace %s {\n#include "isa_enc.inc"' % p)
        # Classification of resources.
        allr = [r for s in isa.slots for i in s.insts for r in i.acquire + i.hold] 
        cpx = {n.strip("[]") for n, b, e in allr if b != 0}
        def res(lst, end):
            o = []
            for n, b, e in lst:
                b2 = n.strip("[]")
                if b2 not in cpx: o.append("{0, (int)SimpleResourceEnum::k%s, 0, %d}" % (pascal(b2), -1 if end else e))
                elif n.startswith("["): o.append("{2, (int)ListComplexResourceEnum::k%s, %d, %d}" % (pascal(b2), b, e))
                else: o.append("{1, (int)ComplexResourceEnum::k%s, %d, %d}" % (pascal(b2), b, e))
            return o
        slots = []
        for s in isa.slots:
            rows = []
            for i in [s.none] + s.insts:
                none = i is s.none
                id_ = "%s_%s" % (s.name, i.name)
                parts = []
                for pn, (pred, srcs, dsts) in enumerate(i.parts):
                    ops = []
                    if pred: ops.append("{0, (int)PredOpEnum::k%s, 0, 0}" % pascal(pred))
                    for k, x in enumerate(srcs):
                        arr = x.startswith("[")
                        ops.append("{%d, (int)%sSourceOpEnum::k%s, %d, 0}" % (2 if arr else 1, "List" if arr else "", pascal(x.strip("[]")), k))
                    for k, (x, l) in enumerate(dsts):
                        arr = x.startswith("[")
                        ops.append("{%d, (int)%sDestOpEnum::k%s, %d, %s}" % (4 if arr else 3, "List" if arr else "", pascal(x.strip("[]")), k, "vfi::kWild" if l == "*" else l))
                    h.append("inline const vfi::XOp xo_%s_%d[] = {%s};" % (id_, pn, ", ".join(ops + ["{-1, 0, 0, 0}"])))
                    parts.append("{xo_%s_%d, %d, %d}" % (id_, pn, len(ops), i.sem[pn]))
                h.append("inline const vfi::XPart xp_%s[] = {%s};" % (id_, ", ".join(parts)))
                use = i.use + [a for a in i.acquire if a[0] not in [u[0] for u in i.use]]
                hr, ar = res(use, True), res(i.acquire + i.hold, False)
                h.append("inline const vfi::XRes xh_%s[] = {%s};" % (id_, ", ".join(hr + ["{-1, 0, 0, 0}"])))
                h.append("inline const vfi::XRes xa_%s[] = {%s};" % (id_, ", ".join(ar + ["{-1, 0, 0, 0}"])))
                at = [str(i.attrs.get(n, 0)) for n in s.attr_names]
                h.append("inline const int xt_%s[] = {%s};" % (id_, ", ".join(at + ["0"])))
                pcs = []
                for fn, f in enumerate(i.disasm):
                    w = isa.widths[fn] if fn < len(isa.widths) else 0
                    for q in parse_disasm(f, i) or [("t", "")]:
                        if q[0] == "t": pcs.append('{%d, %d, 0, "%s", false, 0, 0, 0, 0, 0}' % (fn, w, q[1]))
                        elif q[0] == "o": pcs.append('{%d, %d, 1, "", false, 0, %d, %d, %d, 0}' % (fn, w, q[1], q[2], q[3]))
                        else:
                            l = q[4]
                            pcs.append('{%d, %d, 2, "%s", %s, \'%s\', %d, %d, %d, %d}' % ((fn, w, q[1], "true" if q[2] else "false", q[3]) + (l or (-1, 0, 0)) + (q[5],)))
                h.append("inline const vfi::XPiece xd_%s[] = {%s};" % (id_, ", ".join(pcs + ['{-1, 0, 0, "", false, 0, 0, 0, 0, 0}'])))
                op = "kNone" if none else "k" + pascal(i.name)
                rows.append('{(int)OpcodeEnum::%s, "%s", %d, xp_%s, %d, xh_%s, %d, xa_%s, %d, xt_%s, xd_%s, %d}' % (
                    op, "none" if none else pascal(i.name), s.none_size if none else i.size, id_, len(i.parts), id_, len(hr), id_, len(ar), id_, id_, len(pcs)))
            for k, n in enumerate(s.attr_names):
                h.append("static_assert((int)%s::AttributeEnum::k%s == %d);" % (s.name, pascal(n), k))
            h.append("inline const vfi::XInst x_%s[] = {\n  %s};" % (s.name, ",\n  ".join(rows)))
            slots.append('{(int)SlotEnum::k%s, x_%s, %d, %d}' % (pascal(s.name), s.name, len(rows), len(s.attr_names)))
        h.append("inline const vfi::XSlot x_slots[] = {%s};" % ", ".join(slots))
        h.append("constexpr int n_slots = %d;" % len(isa.slots))
        # Decoding through the slot classes and through the instruction set.
        h.append("struct Factory : %sInstructionSetFactory {" % isa.name)
        for s in isa.slots:
            h.append("  std::unique_ptr<%sSlot> Create%sSlot(ArchState* a) override { return std::make_unique<%sSlot>(a); }" % ((pascal(s.name),) * 3))
        h.append("};")
        h.append("inline Instruction* DecodeSlot(int slot, ArchState* st, uint64_t address, FakeEnc* enc, int entry) {")
        for k, s in enumerate(isa.slots):
            h.append("  if (slot == %d) { static %sSlot* d = new %sSlot(st); return d->Decode(address, enc, SlotEnum::k%s, entry); }" % (k, pascal(s.name), pascal(s.name), pascal(s.name)))
        h.append("  return nullptr;\n}")
        h.append("inline Instruction* DecodeWord(ArchState* st, uint64_t address, FakeEnc* enc) {\n  static Factory* f = new Factory; static %sInstructionSet* d = new %sInstructionSet(st, f);\n  return d->Decode(address, enc);\n}" % (isa.name, isa.name))
        uses = []
        for k, s in enumerate(isa.slots):
            for e in (s.instances or [0]): uses.append("{%d, %d}" % (k, e))
        h.append("inline const int x_word[][2] = {%s};\nconstexpr int n_word = %d;" % (", ".join(uses), len(uses)))
        h.append('inline const char* OpcodeName(int i) { return kOpcodeNames[i]; }\nconstexpr int kOpcodes = (int)OpcodeEnum::kPastMaxValue;')
        h.append("}}\n#undef VF_ENC_BASE\n#undef VF_ENC_VERSION")
    open(os.path.join(outdir, "isa_expect.h"), "w").write("\n".join(h) + "\n")
    open(os.path.join(outdir, "isa_list"), "w").write("".join("%s %s %d\n" % (i.name, i.name.lower(), i.version) for i in ISAS))

alpha(); beta(); gamma(); delta()
if __name__ == "__main__":
    emit(sys.argv[1])
