#ifndef SHIM_STATUS_H_
#define SHIM_STATUS_H_
#include <ostream>
#include <string>
#include <utility>
#include "absl/strings/str_format.h"
#include "absl/base/macros_shim.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
enum class StatusToStringMode : int { kDefault = 0 };
inline std::string StatusCodeToString(StatusCode) { return "code"; }
class [[nodiscard]] Status {
 public:
  Status() = default;
  Status(StatusCode c, string_view m) : code_(c)
#ifndef VERIF_FAST_STRCAT
      , msg_(m)
#endif
  {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  int raw_code() const { return (int)code_; }
#ifndef VERIF_FAST_STRCAT
  string_view message() const { return msg_; }
#else
  string_view message() const { return string_view(); }
#endif
  std::string ToString(StatusToStringMode = StatusToStringMode::kDefault) const { return std::string(message()); }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.message() == b.message(); }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
  template <typename S> friend void AbslStringify(S& s, const Status& v) { s.Append(v.ToString()); }
 private:
  StatusCode code_ = StatusCode::kOk;
#ifndef VERIF_FAST_STRCAT
  std::string msg_;
#endif
};
inline std::ostream& operator<<(std::ostream& o, const Status&) { return o; }
inline Status OkStatus() { return Status(); }
#define SHIM_STATUS(n) inline Status n##Error(string_view m) { return Status(StatusCode::k##n, m); } inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
SHIM_STATUS(Cancelled) SHIM_STATUS(Unknown) SHIM_STATUS(InvalidArgument) SHIM_STATUS(DeadlineExceeded) SHIM_STATUS(NotFound) SHIM_STATUS(AlreadyExists) SHIM_STATUS(PermissionDenied) SHIM_STATUS(ResourceExhausted) SHIM_STATUS(FailedPrecondition) SHIM_STATUS(Aborted) SHIM_STATUS(OutOfRange) SHIM_STATUS(Unimplemented) SHIM_STATUS(Internal) SHIM_STATUS(Unavailable) SHIM_STATUS(DataLoss) SHIM_STATUS(Unauthenticated)
#undef SHIM_STATUS
inline Status ErrnoToStatus(int, string_view m) { return UnknownError(m); }
}  // namespace absl
#endif
