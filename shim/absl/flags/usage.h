#pragma once
#include "absl/strings/string_view.h"
namespace absl { inline void SetProgramUsageMessage(string_view) {} }
