#ifndef SHIM_LOG_H_
#define SHIM_LOG_H_
#include "absl/base/macros_shim.h"
namespace absl { namespace shim {
struct NullStream { const NullStream& WithPerror() const { return *this; } template <typename T> const NullStream& operator<<(const T&) const { return *this; } };
struct FatalStream { ~FatalStream() { verif_check_failed("fatal log"); } template <typename T> FatalStream& operator<<(const T&) { return *this; } };
struct CheckStream { const char* w; ~CheckStream() { verif_check_failed(w); } template <typename T> CheckStream& operator<<(const T&) { return *this; } };
}}
#ifdef VERIF_LOG_PRINT  // For debugging native builds.
#include <iostream>
namespace absl { namespace shim {
struct PrintStream { ~PrintStream() { std::cerr << "\n"; } template <typename T> const PrintStream& operator<<(const T& t) const { if constexpr (requires { std::cerr << t; }) std::cerr << t; return *this; } };
}}
#define SHIM_NULL_LOG switch (0) case 0: default: ::absl::shim::PrintStream()
#elif defined(VERIF_LOG_EVAL)  // The operands are evaluated, nothing is printed.
#define SHIM_NULL_LOG switch (0) case 0: default: ::absl::shim::NullStream()
#else
#define SHIM_NULL_LOG switch (0) case 0: default: if (true) {} else ::absl::shim::NullStream()
#endif
#define SHIM_LOG_INFO SHIM_NULL_LOG
#define SHIM_LOG_WARNING SHIM_NULL_LOG
#define SHIM_LOG_ERROR SHIM_NULL_LOG
#define SHIM_LOG_DFATAL SHIM_NULL_LOG
#define SHIM_LOG_FATAL switch (0) case 0: default: ::absl::shim::FatalStream()
#define SHIM_LOG_QFATAL SHIM_LOG_FATAL
#define ABSL_LOG(s) SHIM_LOG_##s
#define ABSL_VLOG(n) SHIM_NULL_LOG
#define ABSL_DLOG(s) SHIM_NULL_LOG
#define ABSL_LOG_IF(s, c) switch (0) case 0: default: if (((void)(c), true)) {} else ::absl::shim::NullStream()
#define ABSL_LOG_FIRST_N(s, n) SHIM_NULL_LOG
#define ABSL_LOG_EVERY_N(s, n) SHIM_NULL_LOG
#define ABSL_LOG_EVERY_N_SEC(s, n) SHIM_NULL_LOG
#define ABSL_LOG_EVERY_POW_2(s) SHIM_NULL_LOG
#define ABSL_VLOG_IS_ON(n) false
#define ABSL_CHECK(c) switch (0) case 0: default: if (c) {} else ::absl::shim::CheckStream{"CHECK " #c}
#define ABSL_CHECK_OP(a, op, b) ABSL_CHECK((a) op (b))
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK_OP(a, ==, b)
#define ABSL_CHECK_NE(a, b) ABSL_CHECK_OP(a, !=, b)
#define ABSL_CHECK_LT(a, b) ABSL_CHECK_OP(a, <, b)
#define ABSL_CHECK_LE(a, b) ABSL_CHECK_OP(a, <=, b)
#define ABSL_CHECK_GT(a, b) ABSL_CHECK_OP(a, >, b)
#define ABSL_CHECK_GE(a, b) ABSL_CHECK_OP(a, >=, b)
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_QCHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_QCHECK(s) ABSL_CHECK(s)
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_DCHECK_OK(s) ABSL_CHECK_OK(s)
#ifndef SHIM_NO_SHORT_LOG
#define CHECK(c) ABSL_CHECK(c)
#define CHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define CHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define CHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define CHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define CHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define CHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define CHECK_OK(s) ABSL_CHECK_OK(s)
#define LOG(s) ABSL_LOG(s)
#define VLOG(n) ABSL_VLOG(n)
#endif
#endif
