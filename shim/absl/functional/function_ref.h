#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename F> class FunctionRef;
template <typename R, typename... A>
class FunctionRef<R(A...)> {
 public:
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, FunctionRef>>>
  FunctionRef(F&& f) {
    if constexpr (std::is_function_v<std::remove_reference_t<F>>) { p_ = (void*)&f; call_ = [](void* p, A... a) -> R { return ((std::remove_reference_t<F>*)p)(std::forward<A>(a)...); }; }
    else { p_ = (void*)std::addressof(f); call_ = [](void* p, A... a) -> R { return (*(std::remove_reference_t<F>*)p)(std::forward<A>(a)...); }; }
  }
  R operator()(A... a) const { return call_(p_, std::forward<A>(a)...); }
 private:
  void* p_;
  R (*call_)(void*, A...);
};
template <typename R, typename... A> class FunctionRef<R(A...) const> : public FunctionRef<R(A...)> { public: using FunctionRef<R(A...)>::FunctionRef; };
}
