// API shared by the symbolic engine and the native replay runtime.
#ifndef VERIF_HARNESS_H_
#define VERIF_HARNESS_H_
#include <cstddef>
#include <cstdint>
extern "C" {
// Fills `size` bytes with unconstrained symbolic data.
void sym_make(void* p, size_t size, const char* name);
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_fail(const char* msg);
// Records that this point was reached on some feasible path.
void sym_reach(const char* id);
// Appends a value to the path's observable trace (compared on replay).
void sym_observe(uint64_t v);
// Forks so that the value is concrete afterwards.
uint64_t sym_concretize(uint64_t v);
// Real-arithmetic mode input in [lo, hi].
double sym_real(const char* name, double lo, double hi);
// The case number selected on the command line.
int sym_case(void);
// 1 in the symbolic engine, 0 in the native build.
int sym_engine(void);
// Stops this path silently (not a violation).
void sym_stop(void);
}
#ifdef __cplusplus
static inline uint8_t sym_u8(const char* n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char* n) { uint16_t v; sym_make(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char* n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char* n) { uint64_t v; sym_make(&v, 8, n); return v; }
static inline int8_t sym_i8(const char* n) { int8_t v; sym_make(&v, 1, n); return v; }
static inline int16_t sym_i16(const char* n) { int16_t v; sym_make(&v, 2, n); return v; }
static inline int32_t sym_i32(const char* n) { int32_t v; sym_make(&v, 4, n); return v; }
static inline int64_t sym_i64(const char* n) { int64_t v; sym_make(&v, 8, n); return v; }
static inline bool sym_bool(const char* n) { return sym_u8(n) & 1; }
static inline float sym_float(const char* n) { float v; sym_make(&v, 4, n); return v; }
static inline double sym_double(const char* n) { double v; sym_make(&v, 8, n); return v; }
// Uniform choice in [0, n): each value is explored on its own path.
static inline unsigned sym_choose(const char* name, unsigned n) {
  uint32_t v = sym_u32(name);
  sym_assume(v < n);
  return (unsigned)sym_concretize(v);
}
#endif
#endif
