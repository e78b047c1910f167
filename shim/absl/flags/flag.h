#pragma once
#define ABSL_FLAG(T, n, d, h) T FLAGS_##n = d
#define ABSL_DECLARE_FLAG(T, n) extern T FLAGS_##n
namespace absl { template <typename T> const T& GetFlag(const T& t) { return t; } template <typename T, typename U> void SetFlag(T* t, const U& u) { *t = u; } }
