// Stand-in for absl string formatting.  In the symbolic build an integer whose
// value is symbolic is rendered as "?" (text is not part of any property that
// uses symbolic integers).
#ifndef SHIM_ABSL_STR_CAT_H_
#define SHIM_ABSL_STR_CAT_H_
#include "absl/strings/numbers.h"
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/string_view.h"
#include "absl/numeric/int128.h"
extern "C" int vf_is_symbolic(uint64_t v);
namespace absl {
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16, kZeroPad17, kZeroPad18, kZeroPad19, kZeroPad20 };
namespace shim {
inline std::string Num(uint64_t v, bool neg, unsigned base, unsigned width, char fill, bool upper = false) {
#ifdef VF_SYMBOLIC
  if (vf_is_symbolic(v)) {
#ifdef VF_HEX_DIGITS
    if (base == 16 && !neg && !upper) {  // the digits as expressions of the value
      char b[32]; int n = 0;
      do { unsigned d = (unsigned)(v & 15); b[n++] = (char)('0' + d + ('a' - '0' - 10) * (unsigned)(d > 9)); v >>= 4; } while (n < (int)width || v != 0);
      std::string r;
      while (n) r.push_back(b[--n]);
      return r;
    }
#endif
    return "?";
  }
#endif
  char b[72]; int n = 0;
  do { unsigned d = (unsigned)(v % base); b[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v);
  std::string r;
  unsigned len = n + (neg ? 1 : 0);
  if (fill == ' ') while (len < width) { r.push_back(' '); len++; }
  if (neg) r.push_back('-');
  if (fill != ' ') while (len < width) { r.push_back('0'); len++; }
  while (n) r.push_back(b[--n]);
  return r;
}
template <typename T> std::string Dec(T v) {
  if constexpr (std::is_signed_v<T>) { int64_t s = (int64_t)v;
#ifdef VF_SYMBOLIC
    if (vf_is_symbolic((uint64_t)s)) return "?";
#endif
    return s < 0 ? Num(0 - (uint64_t)s, true, 10, 0, ' ') : Num((uint64_t)s, false, 10, 0, ' '); }
  else return Num((uint64_t)v, false, 10, 0, ' ');
}
}  // namespace shim
struct Hex {
  uint64_t v; unsigned width; char fill = '0';
  template <typename T, std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, int> = 0>
  explicit Hex(T x, PadSpec p = kNoPad) : width(p) {
    if constexpr (std::is_enum_v<T>) v = (uint64_t)x; else v = (uint64_t)(std::make_unsigned_t<T>)x; }
  explicit Hex(const void* x, PadSpec p = kNoPad) : v((uint64_t)x), width(p) {}
};
struct Dec { uint64_t v; bool neg; unsigned width;
  template <typename T> explicit Dec(T x, PadSpec p = kNoPad) : v(x < 0 ? 0 - (uint64_t)x : (uint64_t)x), neg(x < 0), width(p) {} };
class AlphaNum {
 public:
  AlphaNum(const char* s) : v_(s ? s : "") {}
  AlphaNum(const std::string& s) : v_(s) {}
  AlphaNum(std::string_view s) : v_(s) {}
  AlphaNum(Hex h) : s_(shim::Num(h.v, false, 16, h.width, '0')), own_(true) {}
  AlphaNum(Dec h) : s_(shim::Num(h.v, h.neg, 10, h.width, '0')), own_(true) {}
  AlphaNum(float f) : s_("<float>"), own_(true) { (void)f; }
  AlphaNum(double f) : s_("<double>"), own_(true) { (void)f; }
  AlphaNum(bool b) : s_(b ? "1" : "0"), own_(true) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>, int> = 0>
  AlphaNum(T x) : s_(shim::Dec(x)), own_(true) {}
  template <typename T, std::enable_if_t<std::is_enum_v<T>, int> = 0>
  AlphaNum(T x) : s_(shim::Dec((int64_t)x)), own_(true) {}
  std::string_view Piece() const { return own_ ? std::string_view(s_) : v_; }
 private:
  std::string_view v_;
  std::string s_;
  bool own_ = false;
};
inline void shim_app(std::string*) {}
template <typename... A> void StrAppend(std::string* d, const A&... a) {
  (..., [&] { AlphaNum n(a); d->append(n.Piece().data(), n.Piece().size()); }());
}
template <typename... A> std::string StrCat(const A&... a) { std::string r; StrAppend(&r, a...); return r; }
}  // namespace absl
#endif
