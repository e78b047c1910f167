#pragma once
#include <utility>
namespace absl {
template <typename F> class Cleanup { public: Cleanup(F f) : f_(std::move(f)) {} ~Cleanup() { if (on_) f_(); } void Cancel() && { on_ = false; } Cleanup(Cleanup&& o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; } private: F f_; bool on_ = true; };
template <typename F> Cleanup(F) -> Cleanup<F>;
}
