// Mix-gain interpolation: which times are accepted, and where the values lie.
#include <cmath>
#include <cstring>
#include "obu_common.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/parameter_block.h"
using namespace iamf_tools;
static uint32_t Bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static absl::Status At(const MixGainParameterData& d, int64_t s, int64_t e, int64_t t, float& v) {
  return ParameterBlockObu::InterpolateMixGainParameterData(&d, s, e, t, v);
}
static MixGainParameterData Make(int kind, int16_t p0, int16_t p1, int16_t p2, uint8_t rel) {
  if (kind == 0) return MixGainParameterData(AnimationStepInt16{.start_point_value = p0});
  if (kind == 1) return MixGainParameterData(AnimationLinearInt16{.start_point_value = p0, .end_point_value = p2});
  return MixGainParameterData(AnimationBezierInt16{.start_point_value = p0, .end_point_value = p2, .control_point_value = p1, .control_point_relative_time = rel});
}
static const int64_t kDurations[] = {1, 2, 3, 7, 256, 961, 48001, 96000, (1 << 24) + 1, 0x7fffffff, 0x80000000, 0xffffffff};
// Any times: accepted exactly when ordered; a step is constant over them.
static void Times() {
  const int16_t p0 = sym_i16("start_point");
  const int64_t s = sym_i64("start"), e = sym_i64("end"), t = sym_i64("target");
  const int64_t lim = 1ll << 62;
  sym_assume((s > -lim) & (s < lim) & (e > -lim) & (e < lim) & (t > -lim) & (t < lim));
  const bool inside = (s <= t) & (t <= e);
  float v = -1000;
  const bool ok = At(Make(0, p0, 0, 0, 0), s, e, t, v).ok();
  sym_assert(ok == inside, "times outside the animation are rejected and all others accepted");
  if (!ok) { sym_reach("outside"); return; }
  sym_assert(Bits(v) == Bits((float)p0 / 256.0f), "a step keeps its value throughout");
  sym_reach("step");
}
static void Outside() {
  const int kind = 1 + (int)sym_choose("kind", 2);
  const int64_t s = sym_i64("start"), e = sym_i64("end"), t = sym_i64("target");
  const int64_t lim = 1ll << 62;
  sym_assume((s > -lim) & (s < lim) & (e > -lim) & (e < lim) & (t > -lim) & (t < lim));
  sym_assume((t < s) | (t > e));
  float v;
  sym_assert(!At(Make(kind, sym_i16("start_point"), sym_i16("control_point"), sym_i16("end_point"), sym_u8("relative_time")), s, e, t, v).ok(),
             "times outside the animation are rejected");
  sym_reach("outside");
}
static void Values(int kind, int64_t n) {
  const int16_t p0 = sym_i16("start_point"), p1 = sym_i16("control_point"), p2 = sym_i16("end_point");
  static const uint8_t kRel[] = {128, 0, 255, 64, 1, 192, 127, 254};
  const unsigned r = kind == 2 ? sym_choose("relative_time", RELS) : 0;
  const uint8_t rel = RELS == 64 ? (uint8_t)(r * 4 + 3) : kRel[r];
  const int64_t base = sym_choose("later", 2) ? 0x123456789all : 0;
  const int64_t kTargets[] = {0, n, n - 1, n / 2, 1, n / 3, n - n / 3, n / 16};
  const int64_t t = kTargets[sym_choose("target", TARGETS)];
  const MixGainParameterData d = Make(kind, p0, p1, p2, rel);
  float v = NAN;
  sym_assert(At(d, base, base + n, base + t, v).ok(), "times inside the animation are accepted");
  const float f0 = (float)p0 / 256.0f, f1 = (float)p1 / 256.0f, f2 = (float)p2 / 256.0f;
  if (t == 0) {
    sym_assert(v == f0, "the value at the start is the start point");
    sym_reach("start");
    return;
  }
  if (t == n) {
    sym_assert(v == f2, "the value at the end is the end point");
    sym_reach("end");
    return;
  }
  const float e = 0.001f;
  bool below = (v < f0 - e) & (v < f2 - e), above = (v > f0 + e) & (v > f2 + e);
  if (kind == 2) { below &= v < f1 - e; above &= v > f1 + e; }
  sym_assert(!below, "values in between are not below all control points");
  sym_assert(!above, "values in between are not above all control points");
  // The point of the curve whose time coordinate is t.
  const int64_t n1 = (2 * n * rel + 256) / 512;
  double a = (double)t / (double)n;
  if (kind == 2) {
    double x = 0, y = 1;
    for (int i = 0; i < 50; i++) {
      a = (x + y) / 2;
      if (2 * (1 - a) * a * (double)n1 + a * a * (double)n < (double)t) x = a; else y = a;
    }
  }
  const double w0 = kind == 2 ? (1 - a) * (1 - a) : 1 - a, w1 = kind == 2 ? 2 * (1 - a) * a : 0, w2 = kind == 2 ? a * a : a;
  const double want = w0 * f0 + w1 * f1 + w2 * f2;
  sym_assert((v > want - 0.02) & (v < want + 0.02), "the value is that of the curve at the given time");
  sym_reach("between");
}
static void Instant() {
  // An animation without length has only its start.
  const int kind = (int)sym_choose("kind", 3);
  const int16_t p0 = sym_i16("start_point");
  const uint8_t rel = kind == 2 ? (uint8_t)sym_concretize(sym_choose("r", 3) * 100) : 0;
  const int64_t at = sym_choose("later", 2) ? 0x123456789all : 0;
  float v = NAN;
  sym_assert(At(Make(kind, p0, sym_i16("control_point"), sym_i16("end_point"), rel), at, at, at, v).ok(), "the only time is accepted");
  sym_assert(v == (float)p0 / 256.0f, "the value at the start is the start point");
  sym_reach("instant");
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c == 0) return Times();
  if (c == 1) return Outside();
  if (c == 2) return Instant();
  const int k = c - 3;
  Values(1 + k / 12, kDurations[k % 12]);
}
