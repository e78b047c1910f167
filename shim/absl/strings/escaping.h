#pragma once
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string BytesToHexString(string_view s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r.push_back(h[c >> 4]); r.push_back(h[c & 15]); } return r; }
}
