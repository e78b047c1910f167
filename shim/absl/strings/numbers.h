#pragma once
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline string_view ShimTrim(string_view s) { while (!s.empty() && (s.front() == ' ' || (s.front() >= 9 && s.front() <= 13))) s.remove_prefix(1); while (!s.empty() && (s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.remove_suffix(1); return s; }
template <typename I>
bool SimpleAtoi(string_view s, I* out) {
  s = ShimTrim(s); *out = 0; bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; s.remove_prefix(1); }
  if (s.empty() || (neg && !std::numeric_limits<I>::is_signed)) return false;
  __int128 v = 0;
  for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); if (v > (((__int128)1) << 66)) v = ((__int128)1) << 66; }
  if (neg) v = -v;
  if (v > (__int128)std::numeric_limits<I>::max()) { *out = std::numeric_limits<I>::max(); return false; }
  if (v < (__int128)std::numeric_limits<I>::min()) { *out = std::numeric_limits<I>::min(); return false; }
  *out = (I)v; return true;
}
inline bool SimpleAtod(string_view s, double* out) { s = ShimTrim(s); if (s.empty()) return false; std::string t(s); char* e = nullptr; *out = strtod(t.c_str(), &e); return e && *e == 0; }
inline bool SimpleAtof(string_view s, float* out) { s = ShimTrim(s); if (s.empty()) return false; std::string t(s); char* e = nullptr; *out = strtof(t.c_str(), &e); return e && *e == 0; }
}
