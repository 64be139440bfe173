#ifndef SHIM_ABSL_NUMBERS_H_
#define SHIM_ABSL_NUMBERS_H_
#include <cstdint>
#include <limits>
#include <string_view>
#include <type_traits>
namespace absl {
namespace shim {
inline int dig(char c) {
#ifdef VF_HEX_DIGITS
  unsigned u = (unsigned char)c, dd = u - '0', ll = (u | 32) - 'a';  // without branches
  unsigned isd = dd < 10, isl = ll < 26;
  return (int)((dd & -isd) | ((ll + 10) & -isl) | (99 & -(1 - isd - isl)));
#endif
  if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
template <typename T> bool atoi_base(std::string_view s, T* out, unsigned base) {
  while (!s.empty() && (s.front() == ' ' || (s.front() >= 9 && s.front() <= 13))) s.remove_prefix(1);
  while (!s.empty() && (s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.remove_suffix(1);
  bool neg = false;
  *out = 0;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); if (neg && !std::is_signed_v<T>) return false; }
  if (base == 16 && s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s.remove_prefix(2);
  if (s.empty()) return false;
  unsigned __int128 v = 0, lim = (unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0);
  for (char c : s) { unsigned d = dig(c); if (d >= base) return false; v = v * base + d; if (v > lim) { *out = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); return false; } }
  *out = neg ? (T)(0 - v) : (T)v;
  return true;
}
}
template <typename T> bool SimpleAtoi(std::string_view s, T* o) { return shim::atoi_base(s, o, 10); }
template <typename T> bool SimpleHexAtoi(std::string_view s, T* o) { return shim::atoi_base(s, o, 16); }
inline bool SimpleAtob(std::string_view s, bool* o) {
  if (s == "true" || s == "t" || s == "yes" || s == "y" || s == "1") { *o = true; return true; }
  if (s == "false" || s == "f" || s == "no" || s == "n" || s == "0") { *o = false; return true; }
  return false;
}
}
#endif
