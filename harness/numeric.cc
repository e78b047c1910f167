// Numeric conversions against their mathematical definition.
#include <cmath>
#include <limits>
#include "obu_common.h"
#include "iamf/common/q_format_or_floating_point.h"
#include "iamf/common/utils/numeric_utils.h"
#include "iamf/common/utils/validation_utils.h"
using namespace iamf_tools;
static float SymFloat(const char* n) { return sym_float(n); }
template <class T> static T Sym(const char* n) { T v; sym_make(&v, sizeof v, n); return v; }
// One past both ends of every type under test, without overflow.
typedef __int128 Wide;
template <class In, class Out>
static void Cast() {
  const In in = Sym<In>("input");
  Out out = Out(3);
  const bool ok = StaticCastIfInRange<In, Out>("field", in, out).ok();
  const bool fits = ((Wide)in >= (Wide)std::numeric_limits<Out>::min()) & ((Wide)in <= (Wide)std::numeric_limits<Out>::max());
  sym_assert(ok == fits, "a narrowing conversion succeeds exactly when the value is representable");
  if (ok) {
    sym_assert((Wide)out == (Wide)in, "a successful conversion keeps the value");
    sym_reach("converted");
  } else {
    sym_assert(out == Out(3), "a refused conversion leaves the output alone");
    sym_reach("refused");
  }
}
template <class In>
static void CastFrom(int to) {
  switch (to) {
    case 0: return Cast<In, int8_t>();
    case 1: return Cast<In, uint8_t>();
    case 2: return Cast<In, int16_t>();
    case 3: return Cast<In, uint16_t>();
    case 4: return Cast<In, int32_t>();
    case 5: return Cast<In, uint32_t>();
    case 6: return Cast<In, int64_t>();
    default: return Cast<In, uint64_t>();
  }
}
static void CastSpan() {
  const int n = (int)sym_choose("n", 4), m = (int)sym_choose("m", 4);
  std::vector<int32_t> in(n);
  for (auto& x : in) x = Sym<int32_t>("input");
  std::vector<int16_t> out(m, 5);
  const bool ok = StaticCastSpanIfInRange("field", absl::MakeConstSpan(in), absl::MakeSpan(out)).ok();
  bool fits = n == m;
  for (int32_t x : in) fits &= (x >= -32768) & (x <= 32767);
  sym_assert(ok == fits, "a span converts exactly when the sizes agree and every value is representable");
  if (!ok) { sym_reach("refused"); return; }
  bool same = true;
  for (int i = 0; i < n; i++) same &= out[i] == in[i];
  sym_assert(same, "values are kept");
  sym_reach("converted");
}
template <class T>
static void InRange() {
  const T v = Sym<T>("value"), lo = Sym<T>("min"), hi = Sym<T>("max");
  const bool ok = ValidateInRange(v, {lo, hi}, "context").ok();
  bool in = (lo <= v) & (v <= hi) & (lo <= hi);
  sym_assert(ok == in, "a value is accepted exactly when it lies between the bounds");
  if (ok) sym_assert(v == v, "NaN is never in range");
  sym_assert(Validate(v, std::less<T>(), hi, "<").ok() == (v < hi), "comparison");
  sym_reach(ok ? "converted" : "refused");
}
struct Sized { size_t n; size_t size() const { return n; } };
template <class T>
static void ContainerSize() {
  Sized c{(size_t)sym_u64("size")};
  const T reported = Sym<T>("reported");
  const bool ok = ValidateContainerSizeEqual("field", c, reported).ok();
  sym_assert(ok == ((Wide)c.n == (Wide)reported), "a container matches exactly the reported size");
  sym_reach(ok ? "converted" : "refused");
}
static void Unique() {
  const int n = (int)sym_choose("n", 4);
  std::vector<uint32_t> v(n);
  for (auto& x : v) x = sym_u32("v");
  bool dup = false;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++) dup |= v[i] == v[j];
  sym_assert(ValidateUnique(v.begin(), v.end(), "values").ok() == !dup, "duplicates are found");
  sym_assert(ValidateEqual(n ? v[0] : 0u, 7u, "x").ok() == ((n ? v[0] : 0u) == 7u), "equal");
  sym_assert(ValidateNotEqual(n ? v[0] : 0u, 7u, "x").ok() == ((n ? v[0] : 0u) != 7u), "not equal");
}
// Checks a fixed-point conversion: `scale` steps per unit, results in [lo, hi].
template <class Q>
static void Fixed(absl::Status (*to)(float, Q&), float (*from)(Q), double lo, double hi, bool last) {
  const float x = SymFloat("x");
  Q q = 77;
  const bool ok = to(x, q).ok();
  const bool in = ((double)x >= lo) & (last ? (double)x <= hi : (double)x < 1);
  // Q7.8 documents the largest code as its limit, Q0.8 everything below 1.
  const bool out = std::isnan(x) | ((double)x < lo) | (last ? (double)x > hi : (double)x >= hi + 1.0 / 256);
  sym_assert(!in | ok, "a representable value is converted");
  sym_assert(!out | !ok, "NaN, infinities and values outside the format are rejected");
  if (!ok) {
    sym_assert(q == 77, "the output is untouched on failure");
    sym_reach("refused");
    return;
  }
  const double back = from(q);
  sym_assert(back == q / 256.0, "fixed point value");
  const double err = (double)x - back;
  sym_assert((err < 1.0 / 256) & (err > -1.0 / 256), "within one quantisation step");
  sym_reach("converted");
}
template <class Q>
static void FixedExact(absl::Status (*to)(float, Q&), float (*from)(Q)) {
  const Q q = Sym<Q>("q");
  Q r = 0;
  sym_assert(to(from(q), r).ok() && r == q, "a fixed-point value survives the round trip");
}
template <class Q>
static void FixedMonotonic(absl::Status (*to)(float, Q&)) {
  const float x = SymFloat("x"), y = SymFloat("y");
  sym_assume(x <= y);
  Q a = 0, b = 0;
  if (!to(x, a).ok() || !to(y, b).ok()) return;
  sym_assert(a <= b, "conversion is monotonic");
}
static void Bytes() {
  const int n = (int)sym_choose("n", 7);
  uint8_t b[6] = {0};
  if (n) sym_make(b, n, "bytes");
  int32_t le = 11, be = 11;
  const bool okl = LittleEndianBytesToInt32(absl::MakeConstSpan(b, n), le).ok();
  const bool okb = BigEndianBytesToInt32(absl::MakeConstSpan(b, n), be).ok();
  sym_assert(okl == (n >= 1 && n <= 4) && okb == okl, "one to four bytes make a sample");
  if (!okl) { sym_assert(le == 11, "output untouched"); return; }
  uint32_t l = 0, g = 0;
  for (int i = 0; i < n; i++) {
    g = g | (uint32_t)b[i] << (24 - 8 * i);
    l = l | (uint32_t)b[n - 1 - i] << (24 - 8 * i);
  }
  sym_assert((le == (int32_t)l) & (be == (int32_t)g), "bytes are left-justified in the sample");
  sym_reach("converted");
}
static void Clip() {
  const double x = sym_double("x");
  int32_t r = 5;
  const bool ok = ClipDoubleToInt32(x, r).ok();
  sym_assert(ok == !std::isnan(x), "only NaN is rejected");
  if (!ok) { sym_assert(r == 5, "output untouched"); sym_reach("refused"); return; }
  sym_assert(!(x >= 2147483647.0) | (r == 2147483647), "saturates at the top");
  sym_assert(!(x <= -2147483648.0) | (r == -2147483647 - 1), "saturates at the bottom");
  if (x > -2147483648.0 && x < 2147483647.0) {
    sym_assert((double)r == std::trunc(x), "truncates towards zero");
    sym_reach("converted");
  }
}
template <class T>
static void Normalized() {
  const T x = Sym<T>("x");
  int32_t r = 5;
  const bool ok = NormalizedFloatingPointToInt32<T>(x, r).ok();
  const bool finite = std::isfinite(x);
  sym_assert(ok == finite, "finite samples are converted, NaN and infinities are rejected");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(!(x >= 1) | (r == 2147483647), "clips at full scale");
  sym_assert(!(x <= -1) | (r == -2147483647 - 1), "clips at negative full scale");
  if (x > -1 && x < 1) {
    sym_assert((double)r == std::trunc((double)x * 2147483648.0), "scaled by 2^31");
    sym_reach("converted");
  }
}
template <class T>
static void NormalizedBack() {
  const int32_t v = Sym<int32_t>("v");
  const T f = Int32ToNormalizedFloatingPoint<T>(v);
  sym_assert((f >= -1) & (f <= 1), "normalised samples stay within full scale");
  int32_t r = 0;
  sym_assert(NormalizedFloatingPointToInt32<T>(f, r).ok(), "converts back");
  const int64_t d = (int64_t)r - v;
  const int64_t step = sizeof(T) == 8 ? 0 : 64;
  sym_assert((d <= step) & (d >= -step), "sample survives the round trip");
  // Samples of up to 24 bits are exact in either precision.
  sym_assert(((v & 255) != 0) | (d == 0), "24-bit samples are exact");
  const int32_t w = Sym<int32_t>("w");
  sym_assert(!(v <= w) | (f <= Int32ToNormalizedFloatingPoint<T>(w)), "monotonic");
}
static void QFormat() {
  const int16_t q = sym_i16("q");
  const auto a = QFormatOrFloatingPoint::MakeFromQ7_8(q);
  sym_assert((a.GetQ7_8() == q) & (a.GetFloatingPoint() == q / 256.0f), "from fixed point");
  const float x = SymFloat("x");
  const auto b = QFormatOrFloatingPoint::CreateFromFloatingPoint(x);
  int16_t e = 0;
  const bool ok = FloatToQ7_8(x, e).ok();
  sym_assert(b.ok() == ok, "created exactly when the value is representable");
  if (!ok || !b.ok()) { sym_reach("refused"); return; }
  sym_assert((b->GetQ7_8() == e) & (b->GetFloatingPoint() == e / 256.0f), "from floating point");
  sym_reach("converted");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 64) {
    switch (c / 8) {
      case 0: return CastFrom<int8_t>(c % 8);
      case 1: return CastFrom<uint8_t>(c % 8);
      case 2: return CastFrom<int16_t>(c % 8);
      case 3: return CastFrom<uint16_t>(c % 8);
      case 4: return CastFrom<int32_t>(c % 8);
      case 5: return CastFrom<uint32_t>(c % 8);
      case 6: return CastFrom<int64_t>(c % 8);
      default: return CastFrom<uint64_t>(c % 8);
    }
  }
  switch (c - 64) {
    case 0: {
      const uint32_t a = sym_u32("a"), b = sym_u32("b");
      uint32_t r = 9;
      const bool ok = AddUint32CheckOverflow(a, b, r).ok();
      const uint64_t sum = (uint64_t)a + b;
      sym_assert(ok == (sum <= 0xffffffffu), "an addition succeeds exactly when the sum is representable");
      sym_assert(ok ? r == sum : r == 9, "sum");
      sym_reach(ok ? "converted" : "refused");
      return;
    }
    case 1: return Fixed<int16_t>(FloatToQ7_8, Q7_8ToFloat, -128.0, 32767 / 256.0, true);
    case 2: return Fixed<uint8_t>(FloatToQ0_8, Q0_8ToFloat, 0, 255 / 256.0, false);
    case 3: return FixedExact<int16_t>(FloatToQ7_8, Q7_8ToFloat);
    case 4: return FixedExact<uint8_t>(FloatToQ0_8, Q0_8ToFloat);
    case 5: return FixedMonotonic<int16_t>(FloatToQ7_8);
    case 6: return FixedMonotonic<uint8_t>(FloatToQ0_8);
    case 7: return Bytes();
    case 8: return Clip();
    case 9: return Normalized<double>();
    case 10: return Normalized<float>();
    case 11: return NormalizedBack<double>();
    case 12: return NormalizedBack<float>();
    case 13: return QFormat();
    case 14: return CastSpan();
    case 15: return InRange<uint32_t>();
    case 16: return InRange<int32_t>();
    case 17: return InRange<float>();
    case 18: return InRange<double>();
    case 19: return ContainerSize<uint8_t>();
    case 20: return ContainerSize<uint32_t>();
    case 21: return ContainerSize<uint64_t>();
    case 22: return ContainerSize<int32_t>();
    case 23: return ContainerSize<uint16_t>();
    case 24: return Unique();
    case 25: {  // Booleans and raw characters.
      const uint32_t x = sym_u32("x");
      bool b = false;
      sym_assert(StaticCastIfInRange<uint32_t, bool>("flag", x, b).ok() == (x <= 1), "flags are 0 or 1");
      if (x <= 1) sym_assert(b == (x == 1), "flag value");
      char ch;
      sym_make(&ch, 1, "ch");
      uint8_t o = 0;
      sym_assert(StaticCastIfInRange<char, uint8_t>("raw", ch, o).ok() && o == (uint8_t)ch, "characters are raw bytes");
      return;
    }
  }
}
