// The oracle of the decoder batteries: C++ expressions over the instruction word w for the constraints of a plain
// description.
#pragma once
#include "gen/fmtparse.h"
namespace bg {
inline std::string S(int64_t i) { return std::to_string(i); }
inline std::string H(uint64_t v) { std::ostringstream o; o << "0x" << std::hex << v << "ull"; return o.str(); }
inline std::string operand(const Desc& d, const Fmt& f, const std::string& n, int* width, bool* sgn) {
  for (auto& x : f.fields)
    if (x.name == n) { *width = x.width; *sgn = x.sgn; return "B(w, " + S(x.low()) + ", " + S(x.width) + ")"; }
  for (auto& o : f.ovls)
    if (o.name == n) {
      *width = o.width; *sgn = o.sgn;
      auto m = ovlbits(f, o);
      std::string r = "(";
      for (int i = 0; i < (int)m.size();) {  // runs of consecutive bits
        int j = i + 1;
        if (m[i] < 0) { r += (i ? " | " : "") + std::string(m[i] == -2 ? "(uint64_t)1" : "(uint64_t)0") + " << " + S(i); i = j; continue; }
        while (j < (int)m.size() && m[j] == m[i] + (j - i)) j++;
        r += (i ? " | " : "") + std::string("B(w, ") + S(m[i]) + ", " + S(j - i) + ") << " + S(i);
        i = j;
      }
      return r + ")";
    }
  std::cerr << "battery: no field " << n << " in " << f.name << "\n";
  exit(1);
}
inline std::string match(const Desc& d, const Enc& e) {
  std::string r = "true";
  const Fmt& f = d.fmt(e.fmt);
  for (auto& c : e.cons) {
    int w, w2; bool s, s2;
    std::string l = operand(d, f, c.lhs, &w, &s), v;
    if (c.rhs.empty()) v = H((uint64_t)c.value & (w == 64 ? ~0ull : (1ull << w) - 1));
    else {
      v = operand(d, f, c.rhs, &w2, &s2);
      if (s || s2) need(w == w2 && s == s2 && (c.op == "==" || c.op == "!="), "battery: signed comparison");
    }
    if (s) need(c.op == "==" || c.op == "!=", "battery: signed comparison");
    r += " & (" + l + " " + c.op + " " + v + ")";
  }
  return r;
}
}  // namespace bg
