// gen_bin OUTDIR: runs the repository's binary format visitor on the descriptions of OUTDIR/bin_list and writes the
// cases that compare what it emits with the plain form of each description.
#include <set>
#include "gen/decmatch.h"
using namespace bg;
static int run(const std::vector<std::string>& files, const std::string& decoder, const std::string& prefix, const std::string& root, const std::string& out) {
  BinFormatVisitor v;
  auto s = v.Process(files, decoder, prefix, {root}, out);
  if (!s.ok()) std::cerr << prefix << ": " << s.message() << "\n";
  return s.ok() ? 0 : 1;
}
int main(int argc, char** argv) {
  if (argc > 2) return run({argv[1]}, argv[2], argv[3], argv[4], argv[5]);  // FILE DECODER PREFIX ROOT OUT
  std::string out = argv[1], line;
  std::ifstream lst(out + "/bin_list");
  std::ofstream cs(out + "/bin_expect.h");
  cs << "#pragma once\n#include \"gen/binspec.h\"\n";
  std::ostringstream body;
  while (std::getline(lst, line)) {
    std::istringstream is(line);
    std::string name, dec, f;
    std::vector<std::string> files;
    is >> name >> dec;
    while (is >> f) files.push_back(out + "/" + f);
    if (run(files, dec, name, out + "/src/sub", out)) return 3;
    Desc d = Reader(out + "/plain/" + name + ".bin_fmt").Read();
    std::set<std::string> ops;
    for (auto& g : d.grps) for (auto& e : g.encs) ops.insert(ToPascalCase(e.name));
    std::ofstream en(out + "/" + name + "_enums.h");
    en << "#pragma once\nnamespace vfbin::" << name << " { enum class OpcodeEnum { kNone = 0";
    for (auto& o : ops) en << ", k" << o;
    en << " }; }\n";
    en.close();
    cs << "#include \"" << name << "_bin_decoder.cc\"\n#include \"" << name << "_bin_encoder.cc\"\n";
    // Decoders.
    std::string ns = "vfbin::" + name, names, list, K = ns + "::OpcodeEnum::k", F = ns + "::FormatEnum::k";
    int n = 0, nx = 0;
    for (auto& g : d.grps) {
      std::string fn = name + "_" + g.name;
      body << "static void " << fn << "() {\n  uint64_t w = " << "vf_u64(\"w\") & " << H(g.width == 64 ? ~0ull : (1ull << g.width) - 1) << ";\n";
      body << "  auto r = " << ns << "::Decode" << g.name << "WithFormat(w);\n  auto o = " << ns << "::Decode" << g.name << "(w);\n";
      body << "  bool none = true, ok = false;\n";
      for (auto& e : g.encs) {
        if (!e.parent.empty()) continue;
        body << "  { bool m = " << match(d, e) << ", any = false;\n    none &= !m;\n";
        for (auto& s : g.encs)
          if (s.parent == e.name)
            body << "    { bool s = m & " << match(d, s) << "; any |= s; ok |= s & (r.first == " << K << ToPascalCase(s.name) << ") & (r.second == " << F << ToPascalCase(s.fmt) << "); }\n";
        body << "    ok |= m & !any & (r.first == " << K << ToPascalCase(e.name) << ") & (r.second == " << F << ToPascalCase(e.fmt) << "); }\n";
      }
      body << "  vf_check(ok | (none & (r.first == " << K << "None) & (r.second == " << F << "None)), \"" << fn << "\");\n";
      body << "  vf_check(o == r.first, \"" << fn << " opcode\");\n}\n";
      names += fn + ", ";
      n++;
      // The encodings table: the bits that are required to have a value.
      std::set<std::string> seen;
      for (auto& e : g.encs) {
        if (!e.parent.empty() || !seen.insert(e.name).second) continue;
        int same = 0;
        for (auto& gg : d.grps) for (auto& x : gg.encs) same += ToPascalCase(x.name) == ToPascalCase(e.name);
        if (same > 1) continue;
        std::string c = "true";
        auto& ft = d.fmt(e.fmt);
        for (auto& k : e.cons) {
          if (k.op != "==" || !k.rhs.empty()) continue;
          bool kst = false;
          for (auto& o : ft.ovls) if (o.name == k.lhs) for (auto& cp : o.comps) kst |= cp.kind == 0;
          if (kst) continue;
          int wd; bool sg;
          std::string a = operand(d, ft, k.lhs, &wd, &sg);
          c += " & (" + a + " == " + H((uint64_t)k.value & (wd == 64 ? ~0ull : (1ull << wd) - 1)) + ")";
        }
        list += "  {" + K + ToPascalCase(e.name) + ", " + S(g.width) + ", [](uint64_t w) -> bool { return " + c + "; }},\n";
        nx++;
      }
    }
    body << "static void (*const k_" << name << "[])() = {" << names << "};\nstatic const int n_" << name << " = " << n << ";\n";
    body << "struct X_" << name << " { " << ns << "::OpcodeEnum op; int width; bool (*ok)(uint64_t); };\nstatic const X_" << name << " x_" << name << "[] = {\n" << list << "};\n";
    body << "static void enc_" << name << "() {\n  for (auto& x : x_" << name << ") {\n    auto it = " << ns << "::kOpcodeEncodings->find(x.op);\n    vf_check(it != " << ns << "::kOpcodeEncodings->end(), \"" << name << ": opcode has an encoding\");\n"
         << "    vf_check(std::get<1>(it->second) == x.width, \"" << name << ": width of the encoding\");\n    vf_check(x.ok(std::get<0>(it->second)), \"" << name << ": the encoding has the values its constraints require\");\n  }\n}\n";
    // Extractors.
    std::string ext;
    int ne = 0;
    // Only the formats the decoder needs are visited.
    std::set<std::string> used;
    for (auto& g : d.grps) { used.insert(g.fmt); for (auto& e : g.encs) used.insert(e.fmt); }
    for (bool more = true; more;) {
      size_t k = used.size();
      for (auto& ft : d.fmts) {
        if (!used.count(ft.name)) continue;
        if (!ft.base.empty()) used.insert(ft.base);
        for (auto& x : ft.fields) if (!x.fmt.empty()) used.insert(x.fmt);
      }
      more = used.size() != k;
    }
    for (auto& ft : d.fmts) {
      if (ft.width > 64 || !used.count(ft.name)) continue;
      std::string q = ns + "::" + ToSnakeCase(ft.name) + "::Extract", fn = "ext_" + name + "_" + ft.name;
      body << "static void " << fn << "() {\n  uint64_t w = vf_u64(\"w\") & " << H(ft.width == 64 ? ~0ull : (1ull << ft.width) - 1) << ";\n";
      for (auto& x : ft.fields) {
        for (int i = 0; i < x.size; i++) {
          std::string want = "bits(w, " + S(x.low() - i * x.width) + ", " + S(x.width) + ")";
          if (x.sgn) want = "sext(" + want + ", " + S(x.width) + ")";
          body << "  vf_check(U(" << q << ToPascalCase(x.name) << "(w" << (x.size > 1 ? ", " + S(i) : "") << ")) == " << want << ", \"extract:" << name << "." << ft.name << "." << x.name << "\");\n";
        }
      }
      for (auto& o : ft.ovls) {
        body << "  { static const int m[] = {";
        for (int b : ovlbits(ft, o)) body << b << ", ";
        std::string want = "gather(w, m, " + S(o.width) + ")";
        if (o.sgn) want = "sext(" + want + ", " + S(o.width) + ")";
        body << "};\n    vf_check(U(" << q << ToPascalCase(o.name) << "(w)) == " << want << ", \"overlay:" << name << "." << ft.name << "." << o.name << "\"); }\n";
      }
      body << "}\n";
      ext += fn + ", ";
      ne++;
    }
    body << "static void (*const e_" << name << "[])() = {" << ext << "};\nstatic const int ne_" << name << " = " << ne << ";\n";
    std::cout << name << ": " << n << " decoders, " << nx << " encodings, " << ne << " formats\n";
  }
  cs << "namespace vfe {\nusing namespace vfb;\nstatic inline uint64_t B(uint64_t w, int low, int width) { return (w >> low) & (width == 64 ? ~0ull : (1ull << width) - 1); }\n" << body.str() << "}  // namespace vfe\n";
}
