// Emits the decoders the repository generates for a battery of instruction
// groups, and the cases that compare them with the description.
#include <set>
#include "gen/decmatch.h"
using namespace bg;
static void constraints(InstructionEncoding* p, const Enc& e) {
  static const std::map<std::string, ConstraintType> ct = {{"==", ConstraintType::kEq}, {"!=", ConstraintType::kNe}, {"<", ConstraintType::kLt}, {"<=", ConstraintType::kLe}, {">", ConstraintType::kGt}, {">=", ConstraintType::kGe}};
  for (auto& c : e.cons) {
    absl::Status s;
    if (!c.rhs.empty()) s = p->AddOtherConstraint(ct.at(c.op), c.lhs, c.rhs);
    else if (c.op == "==") s = p->AddEqualConstraint(c.lhs, c.value);
    else s = p->AddOtherConstraint(ct.at(c.op), c.lhs, c.value);
    if (!s.ok()) std::cerr << e.name << ": " << s.message() << "\n";
    need(s.ok(), "constraint of " + e.name);
  }
}
int main(int argc, char** argv) {
  std::string out = argv[1], repo = argv[2], src = argv[3];
  std::ofstream h(out + "/bin_decoders.h"), cs(out + "/dec_cases.h");
  h << "#pragma once\n#include <utility>\n#include \"gen/binspec.h\"\n";
  cs << "#pragma once\n#include \"bin_decoders.h\"\nnamespace vfd {\nstatic inline uint64_t B(uint64_t w, int low, int width) { return (w >> low) & (width == 64 ? ~0ull : (1ull << width) - 1); }\n";
  for (std::string file : {"battery", "cons", "riscv32c", "riscv32g"}) {
    Desc d = Reader(src + "/harness/gen/fmt/" + file + ".bin_fmt").Read();
    std::string ns = "vfg_" + file, en = ns + "::OpcodeEnum";
    DecoderErrorListener el;
    BinEncodingInfo info(en, &el);
    info.AddBinDecoder(file);
    for (auto& f : d.fmts) add(&info, f);
    for (auto& [n, p] : info.format_map()) {
      auto s = p->ComputeAndCheckFormatWidth();
      if (!s.ok()) std::cerr << n << ": " << s.message() << "\n";
      need(s.ok(), n);
    }
    info.PropagateExtractors();
    std::set<std::string> ops;
    std::string hs, cc;
    for (auto& g : d.grps) {
      auto rg = info.AddInstructionGroup(g.name, g.width, g.fmt);
      need(rg.ok(), g.name);
      auto* grp = rg.value();
      for (auto& e : g.encs) {
        ops.insert(ToPascalCase(e.name));
        if (!e.parent.empty()) continue;
        auto* p = grp->AddInstructionEncoding(nullptr, e.name, info.GetFormat(e.fmt), false);
        need(p != nullptr, e.name);
        constraints(p, e);
      }
      for (auto& e : g.encs)
        if (!e.parent.empty()) {
          auto* p = new InstructionEncoding(e.name, info.GetFormat(e.fmt), false);
          constraints(p, e);
          need(grp->AddSpecialization(e.name, e.parent, p).ok(), e.name);
        }
      grp->ProcessEncodings();
      grp->CheckEncodings();
      need(!el.HasError(), "encodings of " + g.name);
      auto [h1, c1] = grp->EmitDecoderCode();
      hs += h1;
      cc += c1;
    }
    h << "namespace " << ns << " {\nenum class OpcodeEnum { kNone = 0";
    for (auto& o : ops) h << ", k" << o;
    h << " };\nenum class FormatEnum { kNone = 0";
    for (auto& f : d.fmts) h << ", k" << ToPascalCase(f.name);
    h << " };\n" << hs << cc << "}\n";
    std::string names;
    int n = 0;
    for (auto& g : d.grps) {
      std::string fn = file + "_" + g.name, K = en + "::k", F = ns + "::FormatEnum::k";
      cs << "static void " << fn << "() {\n  uint64_t w = " << "vf_u64(\"w\") & " << H(g.width == 64 ? ~0ull : (1ull << g.width) - 1) << ";\n";
      cs << "  auto r = " << ns << "::Decode" << g.name << "WithFormat(w);\n  auto o = " << ns << "::Decode" << g.name << "(w);\n";
      cs << "  bool none = true, ok = false;\n";
      for (auto& e : g.encs) {
        if (!e.parent.empty()) continue;
        cs << "  { bool m = " << match(d, e) << ", any = false;\n    none &= !m;\n";
        for (auto& s : g.encs)
          if (s.parent == e.name)
            cs << "    { bool s = m & " << match(d, s) << "; any |= s; ok |= s & (r.first == " << K << ToPascalCase(s.name) << ") & (r.second == " << F << ToPascalCase(s.fmt) << "); }\n";
        cs << "    ok |= m & !any & (r.first == " << K << ToPascalCase(e.name) << ") & (r.second == " << F << ToPascalCase(e.fmt) << "); }\n";
      }
      cs << "  vf_check(ok | (none & (r.first == " << K << "None) & (r.second == " << F << "None)), \"" << fn << "\");\n";
      cs << "  vf_check(o == r.first, \"" << fn << " opcode\");\n}\n";
      names += fn + ", ";
      n++;
    }
    cs << "static void (*const k_" << file << "[])() = {" << names << "};\nstatic const int n_" << file << " = " << n << ";\n";
    std::cout << file << " " << n << "\n";
  }
  cs << "}  // namespace vfd\n";
}
