#ifndef SHIM_STR_JOIN_H_
#define SHIM_STR_JOIN_H_
#include "absl/strings/str_cat.h"
namespace absl {
template <typename It, typename F>
std::string StrJoinIt(It b, It e, string_view sep, F&& f) { std::string r; bool first = true; for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); } return r; }
template <typename R, typename F, typename = decltype(std::declval<const R&>().begin())>
std::string StrJoin(const R& r, string_view sep, F&& f) {
#ifdef VERIF_FAST_STRCAT
  return std::string("msg");
#else
  return StrJoinIt(r.begin(), r.end(), sep, f);
#endif
}
template <typename R, typename = decltype(std::declval<const R&>().begin())>
std::string StrJoin(const R& r, string_view sep) {
#ifdef VERIF_FAST_STRCAT
  return std::string("msg");
#else
  return StrJoinIt(r.begin(), r.end(), sep, [](std::string* o, const auto& v) { shim::Append(*o, v); });
#endif
}
template <typename T>
std::string StrJoin(std::initializer_list<T> r, string_view sep) {
  return StrJoinIt(r.begin(), r.end(), sep, [](std::string* o, const auto& v) { shim::Append(*o, v); });
}
template <typename It, typename = typename std::iterator_traits<It>::value_type>
std::string StrJoin(It b, It e, string_view sep) {
#ifdef VERIF_FAST_STRCAT
  return std::string("msg");
#else
  return StrJoinIt(b, e, sep, [](std::string* o, const auto& v) { shim::Append(*o, v); });
#endif
}
}
#endif
