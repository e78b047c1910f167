#pragma once
#include <cstddef>
namespace absl { template <typename T> struct Hash { std::size_t operator()(const T&) const { return 0; } }; }
