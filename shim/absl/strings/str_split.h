#pragma once
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
inline std::vector<std::string> StrSplit(string_view s, char c) { std::vector<std::string> r; size_t i = 0; for (;;) { size_t j = s.find(c, i); r.emplace_back(s.substr(i, j == string_view::npos ? j : j - i)); if (j == string_view::npos) return r; i = j + 1; } }
}
