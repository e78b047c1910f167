#ifndef SHIM_NULLABILITY_H_
#define SHIM_NULLABILITY_H_
#define absl_nullable
#define absl_nonnull
#define absl_nullability_unknown
#define ABSL_POINTERS_DEFAULT_NONNULL
namespace absl {
template <typename T> using Nullable = T;
template <typename T> using Nonnull = T;
template <typename T> using NullabilityUnknown = T;
}
#endif
