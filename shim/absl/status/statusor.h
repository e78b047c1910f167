#ifndef SHIM_STATUSOR_H_
#define SHIM_STATUSOR_H_
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <typename T>
class [[nodiscard]] StatusOr {
 public:
  using value_type = T;
  StatusOr() : status_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : status_(s) { if (s.ok()) status_ = InternalError("ok status"); }
  StatusOr(Status&& s) : status_(std::move(s)) { if (status_.ok()) status_ = InternalError("ok status"); }
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U, typename = std::enable_if_t<!std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status> && std::is_constructible_v<T, U&&>>>
  StatusOr(U&& u) : v_(std::forward<U>(u)) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_constructible_v<T, U&&>>, typename = void>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) v_.emplace(std::move(*o)); }
  template <typename... A> T& emplace(A&&... a) { status_ = Status(); v_.emplace(std::forward<A>(a)...); return *v_; }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  const T& value() const& { Need(); return *v_; }
  T& value() & { Need(); return *v_; }
  T&& value() && { Need(); return std::move(*v_); }
  const T& operator*() const& { Need(); return *v_; }
  T& operator*() & { Need(); return *v_; }
  T&& operator*() && { Need(); return std::move(*v_); }
  const T* operator->() const { Need(); return &*v_; }
  T* operator->() { Need(); return &*v_; }
  template <typename U> T value_or(U&& u) const& { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
  template <typename U> T value_or(U&& u) && { return ok() ? std::move(*v_) : static_cast<T>(std::forward<U>(u)); }
  void IgnoreError() const {}
 private:
  void Need() const { if (!status_.ok()) verif_check_failed("value of a failed StatusOr"); }
  Status status_;
  std::optional<T> v_;
};
}
#endif
