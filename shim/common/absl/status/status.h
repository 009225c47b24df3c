// Verification stand-in for absl/status/status.h.  A Status is its code; the
// message is dropped (stated as an extraction loss in DESIGN.md).
#ifndef VC_ABSL_STATUS_H_
#define VC_ABSL_STATUS_H_
#include <cmath>
#include <string>
#include <string_view>
#include <type_traits>
#include "absl/strings/vc_str.h"
namespace absl {
enum class StatusCode : int {
  kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3,
  kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6,
  kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9,
  kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13,
  kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16,
};
class [[nodiscard]] Status {
 public:
  Status() : code_(0) {}
  template <class M>
  Status(StatusCode c, const M&) : code_(static_cast<int>(c)) {}
  Status(StatusCode c, vc_nomsg) : code_(static_cast<int>(c)) {}
  bool ok() const { return code_ == 0; }
  StatusCode code() const { return static_cast<StatusCode>(code_); }
  int raw_code() const { return code_; }
  void IgnoreError() const {}
  void Update(const Status& o) { if (ok()) code_ = o.code_; }
  std::string_view message() const { return {}; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_; }
  friend bool operator!=(const Status& a, const Status& b) { return a.code_ != b.code_; }
 private:
  int code_;
};
inline Status OkStatus() { return Status(); }
#define VC_ABSL_ERR(Name)                                             \
  template <class M> inline Status Name##Error(const M&) {            \
    return Status(StatusCode::k##Name, vc_nomsg{});                   \
  }                                                                   \
  inline bool Is##Name(const Status& s) { return s.code() == StatusCode::k##Name; }
VC_ABSL_ERR(InvalidArgument)
VC_ABSL_ERR(FailedPrecondition)
VC_ABSL_ERR(OutOfRange)
VC_ABSL_ERR(Internal)
VC_ABSL_ERR(NotFound)
VC_ABSL_ERR(Unimplemented)
VC_ABSL_ERR(ResourceExhausted)
VC_ABSL_ERR(Unavailable)
VC_ABSL_ERR(Unknown)
VC_ABSL_ERR(Aborted)
VC_ABSL_ERR(Cancelled)
VC_ABSL_ERR(AlreadyExists)
#undef VC_ABSL_ERR
}  // namespace absl
#endif
