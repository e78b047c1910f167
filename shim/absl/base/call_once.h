#pragma once
#include <utility>
namespace absl {
struct once_flag { bool done = false; };
template <typename F, typename... A>
void call_once(once_flag& f, F&& fn, A&&... a) { if (!f.done) { f.done = true; std::forward<F>(fn)(std::forward<A>(a)...); } }
}
