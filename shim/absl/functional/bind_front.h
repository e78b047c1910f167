#pragma once
#include <functional>
namespace absl { template <typename F, typename... A> auto bind_front(F&& f, A&&... a) { return std::bind_front(std::forward<F>(f), std::forward<A>(a)...); } }
