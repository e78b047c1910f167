#pragma once
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> r) {
  std::string o; size_t i = 0;
  while (i < s.size()) { bool hit = false; size_t best = 0; string_view to; for (auto& p : r) if (!p.first.empty() && s.substr(i, p.first.size()) == p.first && p.first.size() > best) { best = p.first.size(); to = p.second; hit = true; }
    if (hit) { o.append(to); i += best; } else o.push_back(s[i++]); }
  return o;
}
}
