#ifndef SHIM_BASE_MACROS_H_
#define SHIM_BASE_MACROS_H_
#include <cstdlib>
extern "C" [[noreturn]] void verif_check_failed(const char* what);
#define ABSL_PREDICT_TRUE(x) (x)
#define ABSL_PREDICT_FALSE(x) (x)
#define ABSL_ATTRIBUTE_LIFETIME_BOUND
#define ABSL_ATTRIBUTE_UNUSED
#define ABSL_MUST_USE_RESULT
#define ABSL_ATTRIBUTE_ALWAYS_INLINE
#define ABSL_ATTRIBUTE_NOINLINE
#define ABSL_CONST_INIT
#define ABSL_FALLTHROUGH_INTENDED [[fallthrough]]
#define ABSL_ARRAYSIZE(a) (sizeof(a) / sizeof((a)[0]))
#define ABSL_DEPRECATED(x)
#define ABSL_REQUIRE_EXPLICIT_INIT
#endif
