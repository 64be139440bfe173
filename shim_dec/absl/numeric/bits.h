// The installed absl returns T from bit_width(); the release the decoder
// generators are written against returns int, and they do not compile with
// the former. Same functions, newer signatures.
#ifndef VF_ABSL_BITS_H
#define VF_ABSL_BITS_H
#include <type_traits>
namespace absl {
template <typename T>
constexpr int popcount(T x) { return __builtin_popcountll(static_cast<unsigned long long>(x)); }
template <typename T>
constexpr int countl_zero(T x) {
  return x == 0 ? int(sizeof(T) * 8) : __builtin_clzll(static_cast<unsigned long long>(x)) - int(64 - sizeof(T) * 8);
}
template <typename T>
constexpr int countr_zero(T x) {
  return x == 0 ? int(sizeof(T) * 8) : __builtin_ctzll(static_cast<unsigned long long>(x));
}
template <typename T>
constexpr int bit_width(T x) { return int(sizeof(T) * 8) - countl_zero(x); }
template <typename T>
constexpr bool has_single_bit(T x) { return x != 0 && (x & (x - 1)) == 0; }
}  // namespace absl
#endif
