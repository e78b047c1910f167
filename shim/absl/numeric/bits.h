#pragma once
#include <bit>
namespace absl { using std::countl_zero; using std::countr_zero; using std::popcount; using std::has_single_bit; using std::bit_width; }
