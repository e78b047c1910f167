#pragma once
#include "absl/base/log_severity.h"
namespace absl { inline void SetStderrThreshold(LogSeverityAtLeast) {} inline void SetMinLogLevel(LogSeverityAtLeast) {} }
