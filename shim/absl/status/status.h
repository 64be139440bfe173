// Stand-in for absl/status/status.h: value semantics of a status code plus a
// message, nothing else.
#ifndef SHIM_ABSL_STATUS_H_
#define SHIM_ABSL_STATUS_H_
#include <ostream>
#include <string>
#include "absl/base/macros.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5,
  kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14,
  kDataLoss = 15, kUnauthenticated = 16
};
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode c, absl::string_view m) : code_(c), msg_(c == StatusCode::kOk ? absl::string_view() : m) {}
  Status(const Status&) = default;
  Status& operator=(const Status&) = default;
  Status(Status&&) = default;
  Status& operator=(Status&&) = default;
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return (int)code_; }
  absl::string_view message() const { return msg_; }
  std::string ToString() const;
  void Update(const Status& s) { if (ok()) *this = s; }
  void IgnoreError() const {}
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
 private:
  StatusCode code_;
  std::string msg_;
};
inline std::string StatusCodeToString(StatusCode c) {
  static const char* const n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
                                  "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  return (unsigned)c <= 16 ? n[(unsigned)c] : "";
}
inline std::string Status::ToString() const { return ok() ? std::string("OK") : StatusCodeToString(code_) + ": " + msg_; }
inline std::ostream& operator<<(std::ostream& os, const Status& s) { return os << s.ToString(); }
inline Status OkStatus() { return Status(); }
#define SHIM_ST(n)                                                                              \
  inline Status n##Error(absl::string_view m) { return Status(StatusCode::k##n, m); }           \
  inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
SHIM_ST(Cancelled) SHIM_ST(Unknown) SHIM_ST(InvalidArgument) SHIM_ST(DeadlineExceeded) SHIM_ST(NotFound)
SHIM_ST(AlreadyExists) SHIM_ST(PermissionDenied) SHIM_ST(ResourceExhausted) SHIM_ST(FailedPrecondition)
SHIM_ST(Aborted) SHIM_ST(OutOfRange) SHIM_ST(Unimplemented) SHIM_ST(Internal) SHIM_ST(Unavailable) SHIM_ST(DataLoss) SHIM_ST(Unauthenticated)
#undef SHIM_ST
}  // namespace absl
#endif
