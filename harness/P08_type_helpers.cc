// Floating point classification follows IEEE 754, and half precision widens exactly.
// BOUND: every bit pattern of half, single and double precision values, held in floating point, signed and unsigned integer types
#include <cstring>
#include "mpact/sim/generic/signed_type.h"
#include "mpact/sim/generic/type_helpers.h"
#include "vf.h"
using namespace mpact::sim::generic;
namespace {
template <typename C, typename U>
void Classify(int exp_bits, int bias) {
  using I = FPTypeInfo<C>;
  const int bits = sizeof(U) * 8, sig = bits - 1 - exp_bits;
  U b = (U)vf_u64("bits");
  C v; std::memcpy(&v, &b, sizeof(v));
  const U one = 1;
  bool sign = (b >> (bits - 1)) & 1;
  U exp = (U)(b >> sig) & (U)((one << exp_bits) - 1), frac = b & (U)((one << sig) - 1);
  bool emax = exp == (U)((one << exp_bits) - 1), quiet = (frac >> (sig - 1)) & 1;
  vf_check(I::IsInf(v) == (emax && frac == 0), "infinity");
  vf_check(I::IsNaN(v) == (emax && frac != 0), "not a number");
  vf_check(I::IsSNaN(v) == (emax && frac != 0 && !quiet), "signalling nan");
  vf_check(I::IsQNaN(v) == (emax && frac != 0 && quiet), "quiet nan");
  vf_check(I::SignBit(v) == sign, "sign bit");
  vf_check(I::kBitSize == bits && I::kExpSize == exp_bits && I::kExpBias == bias && I::kSigSize == sig, "field sizes");
  vf_check((U)I::kExpMask == (U)(((one << exp_bits) - 1) << sig) && (U)I::kSigMask == (U)((one << sig) - 1), "field masks");
  vf_check((U)I::kPosInf == (U)I::kExpMask && (U)I::kNegInf == (U)(I::kExpMask | (one << (bits - 1))), "infinities");
  vf_check((U)I::kCanonicalNaN == (U)(I::kExpMask | (one << (sig - 1))), "canonical nan");
  vf_check(sizeof(typename I::UIntType) == sizeof(U) && sizeof(typename I::IntType) == sizeof(U), "integer types of the same width");
  vf_check(std::is_unsigned<typename I::UIntType>::value && std::is_signed<typename I::IntType>::value, "integer types of the right sign");
  vf_reach("classified");
}
template <typename T, typename W>
void Wide() {
  vf_check((std::is_same<typename WideType<T>::type, W>::value), "twice as wide, same sign");
}
template <typename T, typename N>
void Narrow() {
  vf_check((std::is_same<typename NarrowType<T>::type, N>::value), "half as wide, same sign");
}
}  // namespace
VF_ENTRY(fp_half) { Classify<HalfFP, uint16_t>(5, 15); }
VF_ENTRY(fp_half_u) { Classify<uint16_t, uint16_t>(5, 15); }
VF_ENTRY(fp_half_s) { Classify<int16_t, uint16_t>(5, 15); }
VF_ENTRY(fp_float) { Classify<float, uint32_t>(8, 127); }
VF_ENTRY(fp_float_u) { Classify<uint32_t, uint32_t>(8, 127); }
VF_ENTRY(fp_float_s) { Classify<int32_t, uint32_t>(8, 127); }
VF_ENTRY(fp_double) { Classify<double, uint64_t>(11, 1023); }
VF_ENTRY(fp_double_u) { Classify<uint64_t, uint64_t>(11, 1023); }
VF_ENTRY(fp_double_s) { Classify<int64_t, uint64_t>(11, 1023); }
VF_ENTRY(half_to_single) {
  HalfFP h; h.value = vf_u16("half");
  float f = ConvertHalfToSingle(h);
  uint32_t r; std::memcpy(&r, &f, 4);
  uint32_t sign = h.value >> 15, exp = (h.value >> 10) & 31, frac = h.value & 1023;
  uint32_t fexp = (r >> 23) & 255, ffrac = r & 0x7fffff;
  vf_check(r >> 31 == sign, "sign is preserved");
  if (exp == 31) {
    if (frac) vf_check(fexp == 255 && ffrac != 0, "nan stays nan");
    else vf_check(fexp == 255 && ffrac == 0, "infinity stays infinity");
  } else if (exp) {
    vf_check(fexp == exp - 15 + 127 && ffrac == frac << 13, "normal values are exact");
  } else if (!frac) {
    vf_check(fexp == 0 && ffrac == 0, "zero stays zero");
  } else {
    // frac * 2^-24, exactly: normalised single with the leading one removed.
    uint64_t sum = 0; bool match = false;
    for (int h2 = 0; h2 < 10; h2++)
      match |= (frac >> h2) == 1 && fexp == (uint32_t)(127 - 24 + h2) && ffrac == (frac ^ (1u << h2)) << (23 - h2);
    vf_check(match, "subnormal values are exact");
    (void)sum;
  }
  vf_reach("converted");
}
VF_ENTRY(type_maps) {
  Wide<int8_t, int16_t>(); Wide<int16_t, int32_t>(); Wide<int32_t, int64_t>(); Wide<int64_t, absl::int128>();
  Wide<uint8_t, uint16_t>(); Wide<uint16_t, uint32_t>(); Wide<uint32_t, uint64_t>(); Wide<uint64_t, absl::uint128>();
  Narrow<int16_t, int8_t>(); Narrow<int32_t, int16_t>(); Narrow<int64_t, int32_t>();
  Narrow<uint16_t, uint8_t>(); Narrow<uint32_t, uint16_t>(); Narrow<uint64_t, uint32_t>();
  vf_check((std::is_same<SameSignedType<uint32_t, int8_t>::type, int32_t>::value), "same signed type");
  vf_check((std::is_same<SameSignedType<int64_t, uint8_t>::type, uint64_t>::value), "same signed type");
  vf_check((std::is_same<SameSignedType<uint16_t, uint64_t>::type, uint16_t>::value), "same signed type");
  vf_check((std::is_same<MakeUnsigned<absl::int128>::type, absl::uint128>::value), "make unsigned");
  vf_check((std::is_same<MakeUnsigned<absl::uint128>::type, absl::uint128>::value), "make unsigned");
  vf_check((std::is_same<MakeUnsigned<int64_t>::type, uint64_t>::value), "make unsigned");
  vf_check((std::is_same<internal::SignedType<uint8_t>::type, int8_t>::value) && (std::is_same<internal::SignedType<uint16_t>::type, int16_t>::value) &&
           (std::is_same<internal::SignedType<uint32_t>::type, int32_t>::value) && (std::is_same<internal::SignedType<uint64_t>::type, int64_t>::value) &&
           (std::is_same<internal::SignedType<int32_t>::type, int32_t>::value) && (std::is_same<internal::SignedType<int64_t>::type, int64_t>::value), "signed type");
  vf_check(IsMpactFp<HalfFP>::value && IsMpactFp<float>::value && IsMpactFp<double>::value && !IsMpactFp<uint32_t>::value, "floating point types");
}
