// Emits the extractors and inserters the repository generates for a battery of
// formats, and the cases that compare them with the description.
#include "gen/bingen.h"
using namespace bg;
static std::vector<Fmt> bat;
static Fmt& fmt(std::string n, int w, std::string base = "") {
  bat.push_back(Fmt{n, w, base});
  return bat.back();
}
// Fields of the given widths (cycled until the format is full); the sign of
// field i is bit i of `signs`.
static void fill(Fmt& f, std::vector<int> ws, unsigned signs) {
  int left = f.width, i = 0;
  while (left > 0) {
    int w = ws[i % ws.size()];
    if (w > left) w = left;
    f.fields.push_back(Fld{"a" + std::to_string(i), ((signs >> (i % 32)) & 1) != 0, w, ""});
    left -= w;
    i++;
  }
}
static std::ofstream cs;
static std::map<std::string, std::vector<std::string>> cats;
static int ncase = 0;
static void begin(const std::string& cat) {
  std::string n = "case_" + std::to_string(ncase++);
  cats[cat].push_back(n);
  cs << "static void " << n << "() {\n";
}
static std::string S(int i) { return std::to_string(i); }
static std::string width_cat(const Fmt& f) { return f.packed ? "packed" : f.width <= 64 ? "narrow" : f.width <= 128 ? "mid" : "wide"; }

int main(int argc, char** argv) {
  std::string out = argv[1], repo = argv[2];
  // ---- fields
  bool full = true;
  for (int w : {8, 12, 16, 20, 24, 32, 33, 48, 63, 64}) {
    std::string n = "n" + S(w);
    fill(fmt(n + "one", w), {w}, 0);
    fill(fmt(n + "ones", w), {w}, ~0u);
    fill(fmt(n + "mix", w), {3, 1, 5, 2, 7, 8, 11, 9, 13}, 0x2a5a5);
    fill(fmt(n + "mixs", w), {7, 1, 4, 8, 2, 16, 12, 17, 33}, 0x5a5aa);
    fill(fmt(n + "top", w), {w - 1, 1}, 1);
    fill(fmt(n + "bot", w), {1, w - 1}, 2);
  }
  for (int w : {65, 80, 96, 100, 127, 128}) {
    std::string n = "m" + S(w);
    fill(fmt(n + "one", w), {w}, 0);
    fill(fmt(n + "ones", w), {w}, ~0u);
    fill(fmt(n + "mix", w), {3, 17, 5, 33, 7, 8, 31}, 0);
    fill(fmt(n + "mixs", w), {7, 32, 1, 9, 16, 8, 15}, ~0u);
    fill(fmt(n + "half", w), {w - 64, 64}, 2);
    fill(fmt(n + "halfs", w), {64, w - 64}, 1);
  }
  for (int w : {129, 136, 160, 200, 256}) {
    std::string n = "w" + S(w);
    fill(fmt(n + "mix", w), {3, 17, 5, 33, 7, 8, 31, 64}, 0);
    fill(fmt(n + "mixs", w), {7, 32, 1, 9, 16, 8, 15, 47, 64}, ~0u);
    fill(fmt(n + "big", w), {1, 128, 65}, 0);
    fill(fmt(n + "bigs", w), {2, 65, 64, 61, 8}, ~0u);
  }
  // ---- format references, single and replicated
  for (int w : {4, 8, 12, 16, 32, 64, 96, 128}) fill(fmt("sub" + S(w), w), {w - 2, 2}, 0);
  auto ref = [](std::string a, int w, int size = 1) { return Fld{a, false, w, "sub" + S(w), size}; };
  auto fld = [](std::string a, int w, bool s = false) { return Fld{a, s, w, ""}; };
  fmt("r16", 16).fields = {ref("lo", 8), fld("mid", 4), ref("q", 4)};
  fmt("r20", 20).fields = {fld("t", 4, true), ref("x", 8), ref("y", 8)};
  fmt("r32", 32).fields = {fld("t", 4), ref("rep", 4, 6), fld("u", 4)};
  fmt("r32b", 32).fields = {ref("rep", 8, 4)};
  fmt("r40", 40).fields = {fld("t", 4), ref("rep", 12, 2), ref("s", 12)};
  fmt("r64", 64).fields = {ref("rep", 16, 3), ref("s", 16)};
  fmt("r64b", 64).fields = {ref("all", 64)};
  fmt("r64c", 64).fields = {ref("rep", 32, 2)};
  fmt("r96", 96).fields = {ref("rep", 16, 5), ref("s", 16)};
  fmt("r128", 128).fields = {ref("rep", 32, 3), ref("s", 32)};
  fmt("r128b", 128).fields = {ref("rep", 64, 2)};
  fmt("r128c", 128).fields = {fld("t", 32), ref("s", 96)};
  fmt("r200", 200).fields = {fld("t", 8), ref("rep", 32, 3), ref("big", 96)};
  fmt("r256", 256).fields = {ref("rep", 64, 3), ref("s", 64)};
  fmt("r256b", 256).fields = {ref("rep", 128, 2)};
  // ---- overlays (formats of up to 64 bits)
  {
    auto& b = fmt("btype", 32);
    b.fields = {fld("imm7", 7), fld("rs2", 5), fld("rs1", 5), fld("func3", 3), fld("imm5", 5), fld("opcode", 7)};
    b.ovls = {{"b_imm", true, 13, {R("imm7", 6, 6), R("imm5", 0, 0), R("imm7", 5, 0), R("imm5", 4, 1), K(0, 1)}},
              {"s_imm", true, 12, {W("imm7"), W("imm5")}},
              {"u_imm", false, 12, {W("imm7"), W("imm5")}},
              {"r_uimm", false, 15, {F(24, 20), K(0b10110, 5), F(4, 0)}},
              {"wide_imm", true, 40, {W("imm7"), K(0, 1), F(31, 0)}},
              {"fill64", false, 64, {K(1, 1), K(0, 30), F(31, 0), K(1, 1)}},
              {"all", false, 32, {F(31, 0)}},
              {"alls", true, 32, {F(31, 0)}},
              {"msb", true, 1, {F(31, 31)}},
              {"swap", false, 16, {F(7, 0), F(15, 8)}},
              {"topbit", false, 33, {K(1, 1), F(31, 0)}},
              {"kones", false, 12, {K(0xfff, 12)}},
              {"kzero", false, 5, {K(0, 5)}}};
    auto& c = fmt("ctype", 16);
    c.fields = {fld("func3", 3), fld("imm3", 3, true), fld("rs1p", 3), fld("imm2", 2), fld("rdp", 3), fld("op", 2)};
    c.ovls = {{"imm_w", false, 7, {R("imm2", 0, 0), W("imm3"), R("imm2", 1, 1), K(0, 2)}},
              {"rs", false, 5, {K(1, 2), W("rs1p")}},
              {"simm", true, 5, {W("imm3"), W("imm2")}},
              {"lead0", true, 6, {K(0, 1), W("imm3"), W("imm2")}},
              {"lead1", true, 6, {K(1, 1), W("imm3"), W("imm2")}},
              {"big", true, 34, {W("func3"), K(0x7fff, 15), F(15, 0)}},
              {"whole", true, 16, {F(15, 0)}}};
    auto& d = fmt("dtype", 64);
    d.fields = {fld("hi", 32, true), fld("mid", 20), fld("lo", 12, true)};
    d.ovls = {{"all64", false, 64, {F(63, 0)}},
              {"alls64", true, 64, {F(63, 0)}},
              {"rot", false, 64, {F(31, 0), F(63, 32)}},
              {"imm", true, 44, {W("hi"), W("lo")}},
              {"tail", true, 33, {K(1, 1), W("hi")}},
              {"nib", false, 8, {F(63, 60), F(3, 0)}},
              {"kt", false, 36, {K(0xf, 4), W("hi")}}};
    auto& e = fmt("etype", 24);
    e.fields = {fld("p", 9), fld("q", 15)};
    e.ovls = {{"pq", true, 24, {W("q"), W("p")}}, {"s0", false, 26, {W("p"), W("q"), K(2, 2)}}, {"b8", true, 8, {F(15, 8)}}};
  }
  // ---- packed structs
  for (int w : {8, 16, 24, 32, 40, 64, 72, 96, 120, 128}) {
    std::string n = "p" + S(w);
    fill(fmt(n + "mix", w), {3, 1, 5, 2, 7, 8, 11, 9, 13}, 0x2a5a5);
    bat.back().packed = true;
    fill(fmt(n + "mixs", w), {7, 1, 4, 8, 12, 33, 16}, 0x5a5ab);
    bat.back().packed = true;
  }
  {
    auto& q = fmt("pref", 32);
    q.packed = true;
    q.fields = {fld("t", 4, true), ref("x", 8), ref("y", 16), fld("u", 4)};
    auto& q64 = fmt("pref64", 64);
    q64.packed = true;
    q64.fields = {fld("t", 16, true), ref("x", 32), ref("y", 16)};
    auto& o = fmt("povl", 32);
    o.packed = true;
    o.fields = {fld("x", 12, true), fld("y", 9), fld("z", 11)};
    o.ovls = {{"yz", false, 20, {W("y"), W("z")}},
              {"zxs", true, 23, {W("z"), W("x")}},
              {"part", true, 9, {R("z", 10, 8), K(1, 2), R("x", 3, 0)}},
              {"up", false, 32, {W("z"), W("y"), W("x")}},
              {"k", false, 14, {K(2, 2), W("x")}}};
    auto& o6 = fmt("povl64", 64);
    o6.packed = true;
    o6.fields = {fld("x", 28, true), fld("y", 20), fld("z", 16)};
    o6.ovls = {{"zyx", true, 64, {W("z"), W("y"), W("x")}}, {"xz", false, 40, {R("x", 27, 4), W("z")}}};
    auto& o9 = fmt("povl96", 96);
    o9.packed = true;
    o9.fields = {fld("x", 28, true), fld("y", 40), fld("z", 28)};
    o9.ovls = {{"xz", true, 56, {W("x"), W("z")}}, {"yk", false, 44, {W("y"), K(5, 4)}}};
  }
  // ---- inheritance
  {
    fmt("base32", 32).fields = {fld("bits", 25), fld("opcode", 7)};
    fmt("dera", 32, "base32").fields = {fld("x", 8), fld("y", 8, true), fld("only", 9), fld("opcode", 7)};
    fmt("derb", 32, "base32").fields = {fld("y", 8, true), fld("x", 8), fld("z", 9), fld("opcode", 7)};
    fmt("derc", 32, "base32").fields = {fld("x", 8), fld("y", 8), fld("z", 9), fld("bits", 4), fld("tail", 3)};
    bat.back().ovls = {{"ov", false, 16, {W("x"), W("y")}}, {"same", true, 8, {F(31, 24)}}, {"sg", true, 9, {W("z")}}, {"only", false, 4, {W("bits")}}};
    fmt("derd", 32, "derc").fields = {fld("v", 8), fld("y", 8), fld("u", 9), fld("opcode", 7)};
    bat.back().ovls = {{"ov", false, 16, {W("y"), W("v")}}, {"same", true, 8, {W("v")}}, {"sg", false, 9, {F(15, 7)}}};
    fmt("dere", 32, "base32").fields = {ref("part", 16), ref("w", 8), fld("z", 8)};
    fmt("derf", 32, "base32").fields = {ref("w", 8), ref("part", 16), fld("zz", 8)};
    fmt("derg", 32, "base32").fields = {ref("arr", 8, 4)};
    fmt("derh", 32, "base32").fields = {ref("arr", 8, 2), fld("s", 16)};
    bat.back().ovls = {{"opcode", false, 7, {F(6, 0)}}};
  }
  for (auto& f : bat) f.place();
  std::map<std::string, const Fmt*> byname;
  for (auto& f : bat) byname[f.name] = &f;

  DecoderErrorListener el;
  BinEncodingInfo info("OpcodeEnum", &el);
  std::vector<Format*> fs;
  for (auto& f : bat) fs.push_back(add(&info, f));
  for (auto& [n, p] : info.format_map()) {
    auto s = p->ComputeAndCheckFormatWidth();
    if (!s.ok()) std::cerr << n << ": " << s.message() << "\n";
    need(s.ok(), n);
  }
  info.PropagateExtractors();
  std::ofstream h(out + "/bin_formats.h");
  h << "#pragma once\n#include \"gen/binspec.h\"\nnamespace vfg {\n" << rawstring(repo, "ExtractBits") << rawstring(repo, "InsertBits") << "\n";
  std::string types, ext, ins;
  for (auto& [n, p] : info.format_map()) {
    auto e = p->GenerateExtractors();
    types += e.types_output;
    ext += e.h_output;
    ins += p->GenerateInserters();
  }
  need(!el.HasError(), "semantic error");
  h << types << ext << "struct Encoder {\n" << ins << "};\n}  // namespace vfg\n";
  h.close();

  // ---- cases
  cs.open(out + "/bin_cases.h");
  cs << "#pragma once\n#include \"bin_formats.h\"\nnamespace vfc {\nusing namespace vfb;\n";
  // Fallback overloads, so that a missing extractor is an observation.
  std::map<std::string, std::map<std::string, bool>> names;
  for (auto& f : bat) {
    for (const Fmt* g = &f;; g = byname[g->base]) {
      for (auto& x : f.fields) names[g->name][x.name] = true;
      for (auto& o : f.ovls) names[g->name][o.name] = true;
      if (g->base.empty()) break;
    }
  }
  cs << "}\nnamespace vfg {\n";
  for (auto& [n, m] : names) {
    cs << "namespace " << ToSnakeCase(n) << " {\n";
    for (auto& [x, u] : m) cs << "inline vfb::Absent Extract" << ToPascalCase(x) << "(...) { return {}; }\n";
    cs << "}\n";
  }
  cs << "}\nnamespace vfc {\nusing namespace vfb;\n";
  for (auto& f : bat) {
    std::string ns = "vfg::" + ToSnakeCase(f.name) + "::", enc = "vfg::Encoder::" + ToPascalCase(f.name) + "::";
    int nb = (f.width + 7) / 8;
    bool ptr = f.packed ? f.width > 64 : f.width > 128;
    std::string decl = ptr ? "  uint8_t b[" + S(nb) + "], c[" + S(nb) + "]; symb(b, " + S(nb) + "); std::copy(b, b + " + S(nb) + ", c);\n"
                           : "  u128 w = sym(" + S(f.width) + ");\n";
    std::string arg = ptr ? "(const uint8_t*)b" : f.width > 64 ? "A(w)" : "(" + ut(f.width) + ")w";
    std::string be = f.packed ? "false" : "true";
    bool odd = !f.packed && f.width <= 128 && (f.width & (f.width - 1));
    for (auto& x : f.fields) {
      std::string P = ToPascalCase(x.name), lab = f.name + "." + x.name;
      bool rep = x.size > 1;
      std::string lo = rep ? "(" + S(x.low()) + " - idx * " + S(x.width) + ")" : S(x.low());
      std::string src = ptr ? "abits(b, " + S(nb) + ", " + lo + ", " + S(x.width) + ", " + be + ")" : "bits(w, " + lo + ", " + S(x.width) + ")";
      std::string want = x.sgn ? "sext(" + src + ", " + S(x.width) + ")" : src;
      std::string rt = x.sgn ? it(x.width) : ut(x.width);
      begin("ext_" + width_cat(f));
      cs << decl;
      if (rep) cs << "  int idx = (int)vf_choose(\"index\", 0, " << x.size - 1 << ");\n";
      cs << "  auto r = " << ns << "Extract" << P << "(" << arg << (rep ? ", idx" : "") << ");\n"
         << "  vf_check(std::is_same<decltype(r), " << rt << ">::value, \"type:" << lab << "\");\n"
         << "  vf_check(U((" << rt << ")r) == " << want << ", \"extract:" << lab << "\");\n}\n";
      if (odd) {  // also callable on the bytes of the instruction
        begin("ext_bytes");
        std::string asrc = "abits(b, " + S(nb) + ", " + lo + ", " + S(x.width) + ", true)";
        cs << "  uint8_t b[" << nb << "]; symb(b, " << nb << ");\n";
        if (rep) cs << "  int idx = (int)vf_choose(\"index\", 0, " << x.size - 1 << ");\n";
        cs << "  auto r = " << ns << "Extract" << P << "((const uint8_t*)b" << (rep ? ", idx" : "") << ");\n"
           << "  vf_check(std::is_same<decltype(r), " << rt << ">::value, \"type:" << lab << "\");\n"
           << "  vf_check(U((" << rt << ")r) == " << (x.sgn ? "sext(" + asrc + ", " + S(x.width) + ")" : asrc) << ", \"extract_bytes:" << lab << "\");\n}\n";
      }
      // insertion
      begin("ins_" + width_cat(f));
      cs << decl << "  u128 v = symv(" << x.width << ");\n";
      if (rep) cs << "  int idx = (int)vf_choose(\"index\", 0, " << x.size - 1 << ");\n";
      std::string vt = ptr || f.packed ? ut(x.width) : ut(f.width);
      std::string varg = (vt == "absl::uint128" ? "A(v)" : "(" + vt + ")v");
      if (ptr) {
        cs << "  auto r = " << enc << "Insert" << P << "(" << (rep ? "idx, " : "") << varg << ", (uint8_t*)b);\n"
           << "  vf_check(r == b, \"insert_ptr:" << lab << "\");\n"
           << "  aput(c, " << nb << ", " << lo << ", " << x.width << ", v, " << be << ");\n"
           << "  vf_check(same(b, c, " << nb << "), \"insert:" << lab << "\");\n}\n";
      } else {
        cs << "  auto r = " << enc << "Insert" << P << "(" << (rep ? "idx, " : "") << varg << ", " << arg << ");\n"
           << "  vf_check(U(r) == U((" << ut(f.width) << ")" << (f.width > 64 ? "A(" : "(") << "put(w, " << lo << ", " << x.width << ", v))), \"insert:" << lab << "\");\n}\n";
      }
    }
    for (auto& o : f.ovls) {
      std::string P = ToPascalCase(o.name), lab = f.name + "." + o.name;
      auto m = ovlbits(f, o);
      std::string arr = "  static const int m[] = {";
      std::map<int, int> cnt;
      bool dup = false;
      for (int s : m) {
        arr += S(s) + ", ";
        if (s >= 0 && cnt[s]++) dup = true;
      }
      arr += "};\n";
      std::string rt = o.sgn ? it(o.width) : ut(o.width);
      begin(f.packed ? "ext_packed" : "ext_overlay");
      cs << arr;
      if (ptr) {
        cs << decl << "  u128 e = 0;\n  for (int i = 0; i < " << o.width << "; i++) e |= (m[i] < 0 ? (u128)(m[i] == -2) : abits(b, " << nb << ", m[i], 1, false)) << i;\n";
      } else
        cs << decl << "  u128 e = gather(w, m, " << o.width << ");\n";
      cs << "  auto r = " << ns << "Extract" << P << "(" << arg << ");\n"
         << "  vf_check(std::is_same<decltype(r), " << rt << ">::value, \"type:" << lab << "\");\n"
         << "  vf_check(U((" << rt << ")r) == " << (o.sgn ? "sext(e, " + S(o.width) + ")" : "e") << ", \"overlay:" << lab << "\");\n}\n";
      if (!f.packed && !dup && f.width >= o.width) {
        begin("ins_overlay");
        cs << arr << decl << "  u128 v = symv(" << o.width << ");\n"
           << "  auto r = " << enc << "Insert" << P << "((" << ut(f.width) << ")v, " << arg << ");\n"
           << "  vf_check(U(r) == U((" << ut(f.width) << ")scatter(w, m, " << o.width << ", v)), \"insert_overlay:" << lab << "\");\n}\n";
      }
    }
  }
  // inheritance: a base format's extractor never contradicts a derived format
  for (auto& b : bat) {
    for (auto& [x, u] : names[b.name]) {
      std::vector<const Fmt*> defs;
      bool own = false;
      for (auto& d : bat)
        for (const Fmt* g = &d;; g = byname[g->base]) {
          if (g == &b) {
            bool has = false;
            for (auto& y : d.fields) has |= y.name == x;
            for (auto& y : d.ovls) has |= y.name == x;
            if (has) defs.push_back(&d);
            if (has && &d == &b) own = true;
          }
          if (g->base.empty()) break;
        }
      if (own || defs.size() < 1 || b.width > 64) continue;
      if (defs.size() == 1 && defs[0] == &b) continue;
      std::string ns = "vfg::" + ToSnakeCase(b.name) + "::";
      begin("inherit");
      cs << "  u128 w = sym(" << b.width << ");\n  (void)w;\n";
      for (auto* d : defs) {
        std::string lab = b.name + "<" + d->name + "." + x, want, sz;
        bool rep = false;
        for (auto& y : d->fields)
          if (y.name == x) {
            rep = y.size > 1;
            want = "bits(w, " + S(y.low()) + ", " + S(y.width) + ")";
            if (y.sgn) want = "sext(" + want + ", " + S(y.width) + ")";
          }
        for (auto& y : d->ovls)
          if (y.name == x) {
            auto m = ovlbits(*d, y);
            cs << "  static const int m_" << d->name << "[] = {";
            for (int s : m) cs << s << ", ";
            cs << "};\n";
            want = "gather(w, m_" + d->name + ", " + S(y.width) + ")";
            if (y.sgn) want = "sext(" + want + ", " + S(y.width) + ")";
          }
        if (rep) {
          // Either indexed like the derived format's, or not generated.
          cs << "  { auto r = " << ns << "Extract" << ToPascalCase(x) << "((" << ut(b.width) << ")w, 0);\n"
             << "    if (!std::is_same<decltype(r), Absent>::value) vf_check(U((uint64_t)r) == " << want << ", \"promoted:" << lab << "\"); else vf_check(true, \"promoted\"); }\n";
          continue;
        }
        cs << "  { auto r = " << ns << "Extract" << ToPascalCase(x) << "((" << ut(b.width) << ")w);\n"
           << "    if (!std::is_same<decltype(r), Absent>::value) vf_check(sext(U((int64_t)r), 64) == " << want << ", \"promoted:" << lab << "\"); else vf_check(true, \"promoted\"); }\n";
      }
      cs << "}\n";
    }
  }
  for (auto& [c, v] : cats) {
    cs << "typedef void (*fn)();\nstatic const fn k_" << c << "[] = {";
    for (auto& n : v) cs << n << ", ";
    cs << "};\nstatic const int n_" << c << " = " << v.size() << ";\n";
  }
  cs << "}  // namespace vfc\n";
  for (auto& [c, v] : cats) std::cout << c << " " << v.size() << "\n";
  return 0;
}
