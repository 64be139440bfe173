// Oracle helpers for generated extractors, inserters and decoders: plain bit
// arithmetic, shared by the symbolic and the native build.
#pragma once
#include <algorithm>
#include <cstdint>
#include <type_traits>
#include "absl/base/attributes.h"
#include "absl/functional/any_invocable.h"
#include "absl/log/log.h"
#include "absl/numeric/int128.h"
#include "vf.h"
namespace vfb {
typedef unsigned __int128 u128;
typedef __int128 i128;
static inline u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1) << w) - 1; }
static inline u128 bits(u128 v, int low, int width) { return (v >> low) & mask(width); }
static inline u128 sext(u128 v, int width) {
  return width >= 128 ? v : (u128)((i128)(v << (128 - width)) >> (128 - width));
}
static inline u128 put(u128 w, int low, int width, u128 v) {
  u128 m = mask(width) << low;
  return (w & ~m) | ((v << low) & m);
}
// Byte vectors: bit 0 is the least significant bit of the last byte (be) or of
// the first byte (le).
static inline u128 abits(const uint8_t* b, int n, int low, int width, bool be) {
  u128 r = 0;
  for (int i = 0; i < width; i++) {
    int k = low + i;
    r |= (u128)((b[be ? n - 1 - (k >> 3) : k >> 3] >> (k & 7)) & 1) << i;
  }
  return r;
}
static inline void aput(uint8_t* b, int n, int low, int width, u128 v, bool be) {
  for (int i = 0; i < width; i++) {
    int k = low + i, j = be ? n - 1 - (k >> 3) : k >> 3;
    b[j] = (uint8_t)((b[j] & ~(1 << (k & 7))) | ((int)((v >> i) & 1) << (k & 7)));
  }
}
// Overlay: source bit per result bit, -1/-2 for constant 0/1.
static inline u128 gather(u128 w, const int* src, int n) {
  u128 r = 0;
  for (int i = 0; i < n; i++) r |= (src[i] < 0 ? (u128)(src[i] == -2) : (w >> src[i]) & 1) << i;
  return r;
}
static inline u128 scatter(u128 w, const int* src, int n, u128 v) {
  for (int i = 0; i < n; i++)
    if (src[i] >= 0) w = (w & ~((u128)1 << src[i])) | (((v >> i) & 1) << src[i]);
  return w;
}
template <typename T> static inline u128 U(T v) { return (u128)v; }
static inline u128 U(absl::uint128 v) { return (u128)absl::Uint128Low64(v) | (u128)absl::Uint128High64(v) << 64; }
static inline u128 U(absl::int128 v) { return (u128)absl::Int128Low64(v) | (u128)(uint64_t)absl::Int128High64(v) << 64; }
static inline absl::uint128 A(u128 v) { return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v); }
static inline u128 sym(int w) {
  u128 r = vf_u64("w");
  if (w > 64) r |= (u128)vf_u64("w") << 64;
  return r;
}
static inline u128 symv(int w) {
  u128 r = vf_u64("v");
  if (w > 64) r |= (u128)vf_u64("v") << 64;
  return r;
}
static inline void symb(uint8_t* b, int n) {
  for (int i = 0; i < n; i++) b[i] = vf_u8("byte");
}
static inline bool same(const uint8_t* a, const uint8_t* b, int n) {
  uint8_t d = 0;
  for (int i = 0; i < n; i++) d |= a[i] ^ b[i];
  return d == 0;
}
// What an overload set yields when the generator emitted no such function.
struct Absent { template <typename T> operator T() const { return T(); } };
}  // namespace vfb
