#ifndef SHIM_ABSL_STATUSOR_H_
#define SHIM_ABSL_STATUSOR_H_
#include <cstdlib>
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <typename T>
class StatusOr {
  template <typename U> friend class StatusOr;
 public:
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  StatusOr(const Status& s) : st_(s) { if (s.ok()) st_ = InternalError("An OK status is not a valid constructor argument to StatusOr<T>"); }
  StatusOr(Status&& s) : st_(std::move(s)) { if (st_.ok()) st_ = InternalError("An OK status is not a valid constructor argument to StatusOr<T>"); }
  template <typename U, typename = std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, std::in_place_t>>>
  StatusOr(U&& u) : v_(std::in_place, std::forward<U>(u)) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, U&&>>>
  StatusOr(StatusOr<U>&& o) : st_(std::move(o.st_)) { if (o.v_) v_.emplace(std::move(*o.v_)); }
  template <typename U, typename = std::enable_if_t<!std::is_same_v<T, U> && std::is_constructible_v<T, const U&>>, typename = void>
  StatusOr(const StatusOr<U>& o) : st_(o.st_) { if (o.v_) v_.emplace(*o.v_); }
  template <typename... A> explicit StatusOr(std::in_place_t, A&&... a) : v_(std::in_place, std::forward<A>(a)...) {}
  template <typename... A> T& emplace(A&&... a) { st_ = Status(); return v_.emplace(std::forward<A>(a)...); }
  void IgnoreError() const {}
  friend bool operator==(const StatusOr& a, const StatusOr& b) { return a.ok() && b.ok() ? *a.v_ == *b.v_ : a.st_ == b.st_; }
  friend bool operator!=(const StatusOr& a, const StatusOr& b) { return !(a == b); }
  bool ok() const { return st_.ok(); }
  const Status& status() const& { return st_; }
  Status status() && { return st_; }
  const T& value() const& { need(); return *v_; }
  T& value() & { need(); return *v_; }
  T&& value() && { need(); return std::move(*v_); }
  const T& operator*() const& { need(); return *v_; }
  T& operator*() & { need(); return *v_; }
  T&& operator*() && { need(); return std::move(*v_); }
  const T* operator->() const { need(); return &*v_; }
  T* operator->() { need(); return &*v_; }
  template <typename U> T value_or(U&& d) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(d)); }
  template <typename U> T value_or(U&& d) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(d)); }
 private:
  void need() const { if (!v_.has_value() || !st_.ok()) ::abort(); }
  Status st_;
  std::optional<T> v_;
};
}  // namespace absl
#endif
