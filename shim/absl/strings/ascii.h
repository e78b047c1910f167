#pragma once
#include <string>
#include "absl/strings/string_view.h"
#include "absl/strings/numbers.h"
namespace absl {
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool ascii_isalnum(unsigned char c) { return ascii_isdigit(c) || ascii_isalpha(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline char ascii_tolower(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); for (auto& c : r) c = ascii_tolower(c); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); for (auto& c : r) c = ascii_toupper(c); return r; }
inline string_view StripAsciiWhitespace(string_view s) { return ShimTrim(s); }
}
