#pragma once
namespace absl {
enum class LogSeverity : int { kInfo, kWarning, kError, kFatal };
enum class LogSeverityAtLeast : int { kInfo, kWarning, kError, kFatal, kInfinity };
}
