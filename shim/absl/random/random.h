#pragma once
#include <cstdint>
namespace absl { struct BitGen { using result_type = uint64_t; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0ull; } result_type operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s; } uint64_t s = 1; };
template <typename T, typename G> T Uniform(G& g, T a, T b) { return a + (T)(g() % (uint64_t)(b - a)); } using InsecureBitGen = BitGen; }
