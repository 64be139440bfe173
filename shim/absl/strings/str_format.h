#ifndef SHIM_ABSL_STR_FORMAT_H_
#define SHIM_ABSL_STR_FORMAT_H_
#include <initializer_list>
#include "absl/strings/str_cat.h"
namespace absl {
namespace shim {
struct FArg {
  enum K { I, U, S, D } k; uint64_t u = 0; std::string_view s; bool wide;
  FArg(const char* x) : k(S), s(x) {}
  FArg(const std::string& x) : k(S), s(x) {}
  FArg(std::string_view x) : k(S), s(x) {}
  FArg(double) : k(D) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
  FArg(T x) : k(std::is_signed_v<T> ? I : U), u((uint64_t)(int64_t)x) { if constexpr (!std::is_signed_v<T>) u = (uint64_t)x; sz = sizeof(T); }
  template <typename T, std::enable_if_t<std::is_enum_v<T>, int> = 0>
  FArg(T x) : k(I), u((uint64_t)(int64_t)x) { sz = sizeof(T); }
  FArg(const void* p) : k(U), u((uint64_t)p) {}
  unsigned sz = 8;
};
#ifdef VF_FMT_TOKENS
// Numbers are rendered as tokens; what is printed is recorded as the conversion and the value.
struct FTok { std::string spec; uint64_t value; };
inline FTok g_ftok[16]; inline int g_ftoks = 0;
inline std::string TokText(int n, unsigned w) { std::string t = "#a"; t[1] = (char)('a' + n); while (t.size() < w) t.insert(t.begin(), '#'); return t; }
#endif
inline std::string Fmt(std::string_view f, std::initializer_list<FArg> args) {
  std::string r; auto it = args.begin();
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { r.push_back(f[i]); continue; }
    i++;
    if (f[i] == '%') { r.push_back('%'); continue; }
#ifdef VF_FMT_TOKENS
    size_t i0 = i;
#endif
    bool alt = false, left = false; char fill = ' '; unsigned w = 0;
    for (;; i++) { if (f[i] == '#') alt = true; else if (f[i] == '-') left = true; else if (f[i] == '0') fill = '0'; else break; }
    while (f[i] >= '0' && f[i] <= '9') w = w * 10 + (f[i++] - '0');
    if (f[i] == '.') { i++; while (f[i] >= '0' && f[i] <= '9') i++; }
    while (f[i] == 'l' || f[i] == 'h' || f[i] == 'z' || f[i] == 'j') i++;
    const FArg& a = *it++;
    std::string t; char c = f[i];
    if (a.k == FArg::S) t = std::string(a.s);
#ifdef VF_FMT_TOKENS
    else if (a.k != FArg::D && c != 'c') {
      uint64_t v = a.u;
      if (c != 'd' && a.sz < 8) v &= (1ULL << (8 * a.sz)) - 1;
      if (g_ftoks < 16) { g_ftok[g_ftoks].spec = std::string(f.substr(i0, i - i0 + 1)); g_ftok[g_ftoks].value = v; t = TokText(g_ftoks++, w); }
    }
#endif
    else if (a.k == FArg::D) t = "<double>";
    else if (c == 'c') t.push_back((char)a.u);
    else if (c == 'x' || c == 'X' || c == 'p') { uint64_t v = a.u; if (a.sz < 8) v &= (1ULL << (8 * a.sz)) - 1; t = Num(v, false, 16, alt ? 0 : w, fill, c == 'X'); if (alt || c == 'p') t = "0x" + t; }
    else if (a.k == FArg::I) { int64_t s = (int64_t)a.u; 
#ifdef VF_SYMBOLIC
      if (vf_is_symbolic(a.u)) t = "?"; else
#endif
      t = s < 0 ? Num(0 - a.u, true, 10, w, fill) : Num(a.u, false, 10, w, fill); }
    else t = Num(a.u, false, 10, w, fill);
    while (t.size() < w) { if (left) t.push_back(' '); else t.insert(t.begin(), ' '); }
    r += t;
  }
  return r;
}
}  // namespace shim
template <typename... A> std::string StrFormat(std::string_view f, const A&... a) { return shim::Fmt(f, {shim::FArg(a)...}); }
template <typename... A> std::string StreamFormat(std::string_view f, const A&... a) { return shim::Fmt(f, {shim::FArg(a)...}); }
template <typename... A> void StrAppendFormat(std::string* d, std::string_view f, const A&... a) { *d += shim::Fmt(f, {shim::FArg(a)...}); }
}  // namespace absl
#endif
