#ifndef VC_ABSL_STATUSOR_H_
#define VC_ABSL_STATUSOR_H_
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <class T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, vc_nomsg{}), value_() {}
  StatusOr(const Status& s) : status_(s), value_() {
    if (s.ok()) status_ = Status(StatusCode::kInternal, vc_nomsg{});
  }
  template <class U, class = std::enable_if_t<std::is_convertible_v<U, T> &&
      !std::is_same_v<std::decay_t<U>, Status> && !std::is_same_v<std::decay_t<U>, StatusOr>>>
  StatusOr(U&& u) : status_(), value_(std::forward<U>(u)) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const { return status_; }
  const T& value() const { if (!ok()) __builtin_trap(); return value_; }
  T& value() { if (!ok()) __builtin_trap(); return value_; }
  const T& operator*() const { if (!ok()) __builtin_trap(); return value_; }
  T& operator*() { if (!ok()) __builtin_trap(); return value_; }
  const T* operator->() const { if (!ok()) __builtin_trap(); return &value_; }
  T* operator->() { if (!ok()) __builtin_trap(); return &value_; }
  template <class U> T value_or(U&& d) const { return ok() ? value_ : static_cast<T>(d); }
 private:
  Status status_;
  T value_;
};
}  // namespace absl
#endif
