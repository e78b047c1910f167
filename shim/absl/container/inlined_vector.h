#pragma once
#include <vector>
#include <array>
namespace absl { template <typename T, std::size_t N, typename...> using InlinedVector = std::vector<T>; template <typename T, std::size_t... N> using FixedArray = std::vector<T>; }
