#pragma once
#include "absl/strings/match.h"
namespace absl {
inline bool ConsumePrefix(string_view* s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view* s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
}
