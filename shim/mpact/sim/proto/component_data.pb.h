// Stand-in for the protoc output of component_data.proto: same accessors,
// oneof semantics, no serialisation.
#ifndef SHIM_COMPONENT_DATA_PB_H_
#define SHIM_COMPONENT_DATA_PB_H_
#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
namespace mpact { namespace sim { namespace proto {
enum SIPrefix : int { PREFIX_NONE = 0, PREFIX_PICO = -12, PREFIX_NANO = -9, PREFIX_MICRO = -6, PREFIX_MILLI = -3, PREFIX_KILO = 3, PREFIX_MEGA = 6, PREFIX_GIGA = 9, PREFIX_TERA = 12 };
enum SIUnit : int { UNIT_NONE = 0, UNIT_SECOND = 1, UNIT_HERTZ = 2, UNIT_VOLT = 3, UNIT_AMPERE = 4, UNIT_WATT = 5 };
class PhysicalValue {
 public:
  double value() const { return v_; } void set_value(double v) { v_ = v; hv_ = true; } bool has_value() const { return hv_; }
  SIPrefix si_prefix() const { return p_; } void set_si_prefix(SIPrefix p) { p_ = p; }
  SIUnit si_unit() const { return u_; } void set_si_unit(SIUnit u) { u_ = u; }
 private: double v_ = 0; bool hv_ = false; SIPrefix p_ = PREFIX_NONE; SIUnit u_ = UNIT_NONE;
};
class ComponentValueEntry {
 public:
  enum ValueCase { VALUE_NOT_SET = 0, kBoolValue = 3, kSint64Value = 4, kUint64Value = 5, kDoubleValue = 6, kStringValue = 7, kPhysicalValue = 8 };
  ValueCase value_case() const { return c_; }
  bool has_name() const { return hn_; } const std::string& name() const { return n_; } void set_name(std::string_view s) { n_ = std::string(s); hn_ = true; }
  void clear_name() { n_.clear(); hn_ = false; }
  bool has_about() const { return ha_; } const std::string& about() const { return a_; } void set_about(std::string_view s) { a_ = std::string(s); ha_ = true; }
#define SHIM_F(T, n, K) bool has_##n##_value() const { return c_ == K; } T n##_value() const { return c_ == K ? n##_ : T(); } void set_##n##_value(T v) { c_ = K; n##_ = v; }
  SHIM_F(bool, bool, kBoolValue) SHIM_F(int64_t, sint64, kSint64Value) SHIM_F(uint64_t, uint64, kUint64Value) SHIM_F(double, double, kDoubleValue) SHIM_F(std::string, string, kStringValue)
#undef SHIM_F
  bool has_physical_value() const { return c_ == kPhysicalValue; }
  const PhysicalValue& physical_value() const { return p_; }
  PhysicalValue* mutable_physical_value() { if (c_ != kPhysicalValue) { c_ = kPhysicalValue; p_ = PhysicalValue(); } return &p_; }
 private:
  ValueCase c_ = VALUE_NOT_SET; bool hn_ = false, ha_ = false; std::string n_, a_;
  bool bool_ = false; int64_t sint64_ = 0; uint64_t uint64_ = 0; double double_ = 0; std::string string_; PhysicalValue p_;
};
class ComponentData;
template <typename T> class ShimRepeated {
 public:
  struct It { const std::unique_ptr<T>* p; const T& operator*() const { return **p; } It& operator++() { ++p; return *this; } bool operator!=(const It& o) const { return p != o.p; } };
  It begin() const { return It{v.data()}; }
  It end() const { return It{v.data() + v.size()}; }
  int size() const { return (int)v.size(); }
  T* Add() { v.push_back(std::make_unique<T>()); return v.back().get(); }
  const T& operator[](int i) const { return *v[i]; }
  std::vector<std::unique_ptr<T>> v;
};
class ComponentData {
 public:
  bool has_name() const { return hn_; } const std::string& name() const { return n_; } void set_name(std::string_view s) { n_ = std::string(s); hn_ = true; }
#define SHIM_R(T, n) const ShimRepeated<T>& n() const { return n##_; } const T& n(int i) const { return n##_[i]; } T* add_##n() { return n##_.Add(); } int n##_size() const { return n##_.size(); }
  SHIM_R(ComponentValueEntry, configuration) SHIM_R(ComponentValueEntry, statistics) SHIM_R(ComponentData, component_data)
#undef SHIM_R
 private: std::string n_; bool hn_ = false; ShimRepeated<ComponentValueEntry> configuration_, statistics_; ShimRepeated<ComponentData> component_data_;
};
} } }
#endif
