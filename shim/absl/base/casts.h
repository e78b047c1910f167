#pragma once
#include <cstring>
namespace absl {
template <typename To, typename From>
inline To bit_cast(const From& f) { To t; static_assert(sizeof(t) == sizeof(f), ""); std::memcpy(&t, &f, sizeof(t)); return t; }
template <typename To> constexpr To implicit_cast(To t) { return t; }
}
