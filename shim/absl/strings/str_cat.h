#ifndef SHIM_STR_CAT_H_
#define SHIM_STR_CAT_H_
#include <cstdint>
#include <cstdio>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2 = 2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex { uint64_t v; int pad; template <typename T> explicit Hex(T x, PadSpec p = kNoPad) : v((uint64_t)(std::make_unsigned_t<T>)x), pad(p) {} };
struct Dec { int64_t v; int pad; template <typename T> explicit Dec(T x, PadSpec p = kNoPad) : v((int64_t)x), pad(p) {} };
namespace shim {
template <typename T, typename = void> struct has_stringify : std::false_type {};
struct Sink {
  std::string* s;
  void Append(string_view v) { s->append(v); }
  void Append(size_t n, char c) { s->append(n, c); }
};
template <typename T> struct has_stringify<T, std::void_t<decltype(AbslStringify(std::declval<Sink&>(), std::declval<const T&>()))>> : std::true_type {};
inline void AppendUnsigned(std::string& s, uint64_t v, int base = 10, int pad = 0) {
  char b[32]; int n = 0;
  do { int d = (int)(v % base); b[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
  while (n < pad && n < 31) b[n++] = '0';
  while (n) s.push_back(b[--n]);
}
inline void AppendSigned(std::string& s, int64_t v) {
  if (v < 0) { s.push_back('-'); AppendUnsigned(s, 0 - (uint64_t)v); } else AppendUnsigned(s, (uint64_t)v);
}
template <typename T>
void Append(std::string& s, const T& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, Hex>) AppendUnsigned(s, v.v, 16, v.pad == kNoPad ? 0 : v.pad);
  else if constexpr (std::is_same_v<D, Dec>) AppendSigned(s, v.v);
  else if constexpr (std::is_same_v<D, bool>) s.push_back(v ? '1' : '0');
  else if constexpr (std::is_convertible_v<const T&, string_view>) s.append(string_view(v));
  else if constexpr (std::is_same_v<D, char>) s.push_back(v);
  else if constexpr (std::is_floating_point_v<D>) {
#ifdef VERIF_FAST_STRCAT
    s.append("f");
#else
    char b[40]; snprintf(b, sizeof b, "%g", (double)v); s.append(b);
#endif
  }
  else if constexpr (std::is_enum_v<D>) {
    if constexpr (has_stringify<T>::value) { Sink k{&s}; AbslStringify(k, v); }
    else Append(s, static_cast<std::underlying_type_t<D>>(v));
  }
  else if constexpr (has_stringify<T>::value) { Sink k{&s}; AbslStringify(k, v); }
  else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) AppendSigned(s, (int64_t)v);
  else if constexpr (std::is_integral_v<D>) AppendUnsigned(s, (uint64_t)v);
  else s.append(std::string(v));
}
}  // namespace shim
struct AlphaNum {
  std::string s;
  template <typename T> AlphaNum(const T& v) {
#ifndef VERIF_FAST_STRCAT
    shim::Append(s, v);
#endif
  }
  string_view Piece() const { return s; }
};
namespace shim {
// A prefix of one character followed by an integer.
template <typename F, typename L> bool IsKeyPrefix(const F& f, const L&) {
  if constexpr (std::is_convertible_v<const F&, const char*> && std::is_same_v<L, int>) return f[0] && !f[1];
  return false;
}
}  // namespace shim
template <typename... A>
std::string StrCat([[maybe_unused]] const A&... a) {
#ifdef VERIF_FAST_STRCAT
  // Short names built of few parts are used as keys; everything else is a message.
  if constexpr (sizeof...(A) == 2) {
    if (shim::IsKeyPrefix(a...)) { std::string s; (shim::Append(s, a), ...); return s; }
  }
  return std::string("msg");
#else
  std::string s; (shim::Append(s, a), ...); return s;
#endif
}
template <typename... A>
void StrAppend([[maybe_unused]] std::string* s, [[maybe_unused]] const A&... a) {
#ifndef VERIF_FAST_STRCAT
  (shim::Append(*s, a), ...);
#endif
}
}  // namespace absl
#endif
