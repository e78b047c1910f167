#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
#include "absl/base/macros_shim.h"
namespace absl {
namespace shim {
template <typename R, typename... A> struct Callee { virtual ~Callee() {} virtual R call(A... a) = 0; };
template <typename F, typename R, typename... A> struct CalleeImpl : Callee<R, A...> { F f; template <typename G> explicit CalleeImpl(G&& g) : f(std::forward<G>(g)) {} R call(A... a) override { if constexpr (std::is_void_v<R>) f(std::forward<A>(a)...); else return f(std::forward<A>(a)...); } };
template <typename R, typename... A>
class AnyBase {
 public:
  AnyBase() {}
  AnyBase(std::nullptr_t) {}
  AnyBase(AnyBase&&) = default;
  AnyBase& operator=(AnyBase&&) = default;
  AnyBase& operator=(std::nullptr_t) { p_.reset(); return *this; }
  template <typename F, typename = std::enable_if_t<!std::is_base_of_v<AnyBase, std::decay_t<F>> && std::is_invocable_v<std::decay_t<F>&, A...>>>
  AnyBase(F&& f) : p_(new CalleeImpl<std::decay_t<F>, R, A...>(std::forward<F>(f))) {}
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const AnyBase& a, std::nullptr_t) { return !a.p_; }
  friend bool operator!=(const AnyBase& a, std::nullptr_t) { return !!a.p_; }
 protected:
  R Do(A... a) const { if (!p_) verif_check_failed("call of an empty AnyInvocable"); return p_->call(std::forward<A>(a)...); }
  std::unique_ptr<Callee<R, A...>> p_;
};
}
template <typename S> class AnyInvocable;
#define SHIM_ANY(Q, CALLQ) template <typename R, typename... A> class AnyInvocable<R(A...) Q> : public shim::AnyBase<R, A...> { public: using shim::AnyBase<R, A...>::AnyBase; AnyInvocable() {} R operator()(A... a) CALLQ { return this->Do(std::forward<A>(a)...); } };
SHIM_ANY(, ) SHIM_ANY(const, const) SHIM_ANY(&&, &&) SHIM_ANY(noexcept, ) SHIM_ANY(const noexcept, const)
#undef SHIM_ANY
}
