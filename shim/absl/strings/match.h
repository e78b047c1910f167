#pragma once
#include "absl/strings/string_view.h"
namespace absl {
inline bool StartsWith(string_view a, string_view b) { return a.substr(0, b.size()) == b; }
inline bool EndsWith(string_view a, string_view b) { return a.size() >= b.size() && a.substr(a.size() - b.size()) == b; }
inline bool StrContains(string_view a, string_view b) { return a.find(b) != string_view::npos; }
inline bool StrContains(string_view a, char b) { return a.find(b) != string_view::npos; }
}
