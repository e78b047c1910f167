#ifndef SHIM_STR_FORMAT_H_
#define SHIM_STR_FORMAT_H_
#include <cstdio>
#include <string>
#include "absl/strings/str_cat.h"
namespace absl {
namespace shim {
template <typename T> auto FmtArg(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) return v.c_str();
  else if constexpr (std::is_same_v<T, string_view>) return std::string(v);
  else if constexpr (std::is_enum_v<T>) return (long long)v;
  else return v;
}
}
// One conversion at a time; flags, width and precision are honoured for
// integers, characters and strings.
namespace shim {
inline void FmtOne(std::string& out, const char*& f) { while (*f) { if (*f == '%') { if (f[1] == '%') { out.push_back('%'); f += 2; continue; } return; } out.push_back(*f++); } }
template <typename T>
void FmtVal(std::string& out, const char*& f, const T& v) {
  FmtOne(out, f);
  if (!*f) return;
  ++f;
  bool zero = false, left = false; int width = 0; int prec = -1;
  while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = true; if (*f == '-') left = true; ++f; }
  while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
  if (*f == '.') { ++f; prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
  while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') ++f;
  char c = *f ? *f++ : 's';
  std::string t;
  if constexpr (std::is_convertible_v<const T&, string_view>) { t = std::string(string_view(v)); if (prec >= 0) t = t.substr(0, prec); }
  else if constexpr (std::is_floating_point_v<T>) {
    char spec[16]; snprintf(spec, sizeof spec, "%%.%d%c", prec < 0 ? 6 : prec, c == 'v' || c == 's' ? 'g' : c);
    char b[400]; snprintf(b, sizeof b, spec, (double)v); t = b;
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    if (c == 'c') t.push_back((char)v);
    else if (c == 'x' || c == 'X') {
      uint64_t u; if constexpr (std::is_enum_v<T>) u = (uint64_t)v; else if constexpr (std::is_same_v<T, bool>) u = v; else u = (uint64_t)(std::make_unsigned_t<T>)v;
      AppendUnsigned(t, u, 16); if (c == 'X') for (auto& ch : t) if (ch >= 'a' && ch <= 'f') ch = (char)(ch - 32);
    } else if (c == 'u' ) AppendUnsigned(t, (uint64_t)v);
    else if constexpr (std::is_enum_v<T>) AppendSigned(t, (int64_t)v);
    else if constexpr (std::is_signed_v<T>) AppendSigned(t, (int64_t)v);
    else AppendUnsigned(t, (uint64_t)v);
  } else Append(t, v);
  if ((int)t.size() < width) { if (left) t.append(width - t.size(), ' '); else if (zero) { size_t at = !t.empty() && t[0] == '-' ? 1 : 0; t.insert(at, width - t.size(), '0'); } else t.insert(0, width - t.size(), ' '); }
  out += t;
}
}
template <typename... A>
std::string StrFormat(const char* f, const A&... a) {
#ifdef VERIF_FAST_STRCAT
  return std::string("msg");
#else
  std::string out; (shim::FmtVal(out, f, a), ...); shim::FmtOne(out, f); return out;
#endif
}
template <typename... A>
void StrAppendFormat(std::string* s, const char* f, const A&... a) { s->append(StrFormat(f, a...)); }
template <typename... A>
void Format(std::string* s, const char* f, const A&... a) { s->append(StrFormat(f, a...)); }
template <typename... A> using FormatSpec = const char*;
using FormatSink = shim::Sink;
}
namespace absl {
template <typename Sink, typename... A>
bool Format(Sink* sink, string_view f, const A&... a) {
#ifdef VERIF_FAST_STRCAT
  sink->Append(string_view());
#else
  sink->Append(StrFormat(f, a...));
#endif
  return true;
}
}
#endif
