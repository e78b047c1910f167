#pragma once
#include <cstdint>
namespace absl {
struct Duration { int64_t ns = 0; };
struct Time { int64_t ns = 0; };
inline Duration Milliseconds(int64_t n) { return {n * 1000000}; }
inline Duration Seconds(int64_t n) { return {n * 1000000000}; }
inline Duration Microseconds(int64_t n) { return {n * 1000}; }
inline Duration ZeroDuration() { return {}; }
inline double ToDoubleSeconds(Duration d) { return (double)d.ns * 1e-9; }
inline Time Now() { return {}; }
inline void SleepFor(Duration) {}
inline Duration operator-(Time a, Time b) { return {a.ns - b.ns}; }
inline Time operator+(Time a, Duration b) { return {a.ns + b.ns}; }
inline bool operator<(Time a, Time b) { return a.ns < b.ns; }
}
