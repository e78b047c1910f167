// Parameter definitions: schedules, type-specific fields, validation.
#include "obu_common.h"
#include "schedule_common.h"
#include "iamf/obu/param_definitions/cart16_param_definition.h"
#include "iamf/obu/param_definitions/cart8_param_definition.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/dual_cart16_param_definition.h"
#include "iamf/obu/param_definitions/dual_cart8_param_definition.h"
#include "iamf/obu/param_definitions/dual_polar_param_definition.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/polar_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/param_definitions/subblock_schedule.h"
using namespace vh;
using Args = ParamDefinition::BaseArgs;
static const int kTail[9] = {2, 2, 0, 3, 3, 6, 6, 6, 12};
static std::unique_ptr<ParamDefinition> Make(int type, const Args& a) {
  switch (type) {
    case 0: return std::make_unique<MixGainParamDefinition>(a);
    case 1: return std::make_unique<DemixingParamDefinition>(a);
    case 2: return std::make_unique<ReconGainParamDefinition>(a, 77);
    case 3: return std::make_unique<PolarParamDefinition>(a);
    case 4: return std::make_unique<Cart8ParamDefinition>(a);
    case 5: return std::make_unique<Cart16ParamDefinition>(a);
    case 6: return std::make_unique<DualPolarParamDefinition>(a);
    case 7: return std::make_unique<DualCart8ParamDefinition>(a);
    default: return std::make_unique<DualCart16ParamDefinition>(a);
  }
}
static int Clip(int v, int m) { return v > m ? m : v < -m ? -m : v; }
static int S9(const uint8_t* t, int bit) {
  int v = 0;
  for (int i = 0; i < 9; i++) v = v << 1 | ((t[(bit + i) / 8] >> (7 - (bit + i) % 8)) & 1);
  return v >= 256 ? v - 512 : v;
}
static int S8(const uint8_t* t, int bit) {
  int v = 0;
  for (int i = 0; i < 8; i++) v = v << 1 | ((t[(bit + i) / 8] >> (7 - (bit + i) % 8)) & 1);
  return v >= 128 ? v - 256 : v;
}
static int S16(const uint8_t* t, int byte) { return (int16_t)(t[byte] << 8 | t[byte + 1]); }
// The type-specific fields hold what the tail bytes say.  Returns whether the
// tail is what the writer would produce (positions inside their range).
static bool CheckTail(int type, const ParamDefinition& d, const uint8_t* t) {
  switch (type) {
    case 0: {
      auto& p = static_cast<const MixGainParamDefinition&>(d);
      sym_assert(p.default_mix_gain_.GetQ7_8() == S16(t, 0), "default mix gain");
      return true;
    }
    case 1: {
      auto& p = static_cast<const DemixingParamDefinition&>(d).default_demixing_info_parameter_data_;
      sym_assert((p.dmixp_mode == t[0] >> 5) & (p.reserved == (t[0] & 31)) & (p.default_w == t[1] >> 4) & (p.reserved_for_future_use == (t[1] & 15)), "default demixing info");
      return true;
    }
    case 2: return true;
    case 3: {
      auto& p = static_cast<const PolarParamDefinition&>(d);
      const int az = S9(t, 0), el = S8(t, 9);
      sym_assert((p.default_azimuth_ == Clip(az, 180)) & (p.default_elevation_ == Clip(el, 90)) & (p.default_distance_ == (t[2] & 127)), "polar position");
      return (az == Clip(az, 180)) & (el == Clip(el, 90));
    }
    case 6: {
      auto& p = static_cast<const DualPolarParamDefinition&>(d);
      const int az = S9(t, 0), el = S8(t, 9), az2 = S9(t, 24), el2 = S8(t, 33);
      sym_assert((p.default_first_azimuth_ == Clip(az, 180)) & (p.default_first_elevation_ == Clip(el, 90)) & (p.default_first_distance_ == (t[2] & 127)), "first polar position");
      sym_assert((p.default_second_azimuth_ == Clip(az2, 180)) & (p.default_second_elevation_ == Clip(el2, 90)) & (p.default_second_distance_ == (t[5] & 127)), "second polar position");
      return (az == Clip(az, 180)) & (el == Clip(el, 90)) & (az2 == Clip(az2, 180)) & (el2 == Clip(el2, 90));
    }
    case 4: {
      auto& p = static_cast<const Cart8ParamDefinition&>(d);
      sym_assert((p.default_x_ == S8(t, 0)) & (p.default_y_ == S8(t, 8)) & (p.default_z_ == S8(t, 16)), "position");
      return true;
    }
    case 5: {
      auto& p = static_cast<const Cart16ParamDefinition&>(d);
      sym_assert((p.default_x_ == S16(t, 0)) & (p.default_y_ == S16(t, 2)) & (p.default_z_ == S16(t, 4)), "position");
      return true;
    }
    case 7: {
      auto& p = static_cast<const DualCart8ParamDefinition&>(d);
      sym_assert((p.default_first_x_ == S8(t, 0)) & (p.default_first_y_ == S8(t, 8)) & (p.default_first_z_ == S8(t, 16)), "first position");
      sym_assert((p.default_second_x_ == S8(t, 24)) & (p.default_second_y_ == S8(t, 32)) & (p.default_second_z_ == S8(t, 40)), "second position");
      return true;
    }
    default: {
      auto& p = static_cast<const DualCart16ParamDefinition&>(d);
      sym_assert((p.default_first_x_ == S16(t, 0)) & (p.default_first_y_ == S16(t, 2)) & (p.default_first_z_ == S16(t, 4)), "first position");
      sym_assert((p.default_second_x_ == S16(t, 6)) & (p.default_second_y_ == S16(t, 8)) & (p.default_second_z_ == S16(t, 10)), "second position");
      return true;
    }
  }
}
// The arithmetic consequences of the schedule formula are checked where the
// durations are small or listed one by one; the formula itself everywhere.
static bool g_small = true;
static bool TypeOk(int type, bool has_schedule, const RefSchedule& s) {
  return (type != 1 && type != 2) || (has_schedule && s.duration != 0 && s.constant == s.duration);
}
static void CheckGetters(const ParamDefinition& d, int type, uint32_t id, uint32_t rate, uint8_t reserved, bool sched, const RefSchedule& s) {
  sym_assert((d.GetParameterId() == id) & (d.GetParameterRate() == rate) & (d.GetReserved() == reserved) & ((int)d.GetType() == type), "id, rate and reserved bits");
  sym_assert((int)d.GetParamDefinitionMode() == (sched ? 0 : 1) && d.GetSchedule().has_value() == sched, "mode");
  sym_assert(d.GetDuration() == (sched ? s.duration : 0) && d.GetConstantSubblockDuration() == (sched ? s.constant : 0) && d.GetNumSubblocks() == (sched ? s.num : 0), "schedule");
  if (!sched || !d.GetSchedule().has_value()) return;
  uint64_t sum = 0;
  for (uint32_t i = 0; i < s.num; i++) {
    auto x = d.GetSchedule()->GetSubblockDuration(i);
    sym_assert(x.ok(), "every subblock has a duration");
    if (!x.ok()) return;
    sym_assert(*x == RefSubblock(s, i), "subblock duration");
    if (g_small) sym_assert(*x != 0, "subblock duration is not zero");
    sum += *x;
  }
  if (g_small) sym_assert(sum == s.duration, "subblocks add up to the duration");
  sym_assert(!d.GetSchedule()->GetSubblockDuration(s.num).ok() && !d.GetSchedule()->GetSubblockDuration(-1).ok(), "only existing subblocks have a duration");
}
static bool PutLeb(Bytes& b, int size) {
  uint8_t any = 0;
  for (int i = 0; i < size; i++) {
    const uint8_t x = sym_u8("leb");
    b.push_back(i + 1 < size ? x | 128 : x & 127);
    any |= x & 127;
  }
  return any != 0;
}
static void Read(int type, const Bytes& b);
// Fixed encoded sizes, symbolic contents.
static const int kLayouts = 9;
static void ReadLayout(int type, int layout) {
  static const uint8_t kId[] = {1, 5, 1, 1, 4, 1, 1, 2, 1}, kRate[] = {1, 5, 1, 1, 2, 1, 1, 5, 1}, kDur[] = {0, 0, 1, 5, 3, 1, 1, 5, 2}, kConst[] = {0, 0, 1, 5, 2, 1, 1, 1, 1}, kNum[] = {0, 0, 0, 0, 0, 1, 2, 2, 3}, kSub[] = {0, 0, 0, 0, 0, 1, 1, 5, 1};
  Bytes b;
  g_small = layout != 3 && layout != 4;
#ifndef THOROUGH
  if (!g_small && type != 0 && type != 1) return;  // The schedule code is shared.
#endif
  PutLeb(b, kId[layout]);
  PutLeb(b, kRate[layout]);
  b.push_back((kDur[layout] ? 0 : 128) | (sym_u8("reserved") & 127));
  if (kDur[layout]) {
    PutLeb(b, kDur[layout]);
    if (kNum[layout]) {
      b.push_back(0);
      b.push_back(kNum[layout]);
      for (int i = 0; i < kNum[layout]; i++) PutLeb(b, kSub[layout]);
    } else sym_assume(PutLeb(b, kConst[layout]));
  }
  // One byte more than needed, or one less.
  const int extra = (int)sym_choose("extra", 3) - 1;
  if (kTail[type] + extra < 0) return;
  Bytes tail = SymBytes(kTail[type] + extra, "tail");
  b.insert(b.end(), tail.begin(), tail.end());
  Read(type, b);
}
static void Read(int type, const Bytes& b) {
  size_t p = 0;
  uint32_t id = 0, rate = 0;
  bool minimal = true;
  bool ok = RefUleb(b, p, id, &minimal) && RefUleb(b, p, rate, &minimal) && p < b.size();
  RefSchedule s;
  bool sched = false;
  uint8_t reserved = 0;
  if (ok) {
    sched = !(b[p] & 128);
    reserved = b[p] & 127;
    p++;
    if (sched) ok = RefReadSchedule(b, p, s, 4) && rate != 0 && TypeOk(type, true, s);
  }
  const size_t tail = p;
  ok = ok && p + kTail[type] <= b.size();
  if (ok && type == 1) ok = (b[p] >> 5) != 3 && (b[p] >> 5) != 7;
  auto d = Make(type, Args{});
  auto rb = Reader(b);
  const bool read = d->ReadAndValidate(*rb).ok();
  sym_assert(read == ok, "a definition is accepted exactly when it is complete and consistent");
  if (!read || !ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * (int64_t)(tail + kTail[type]), "exactly the definition is consumed");
  CheckGetters(*d, type, id, rate, reserved, sched, s);
  const bool canonical = CheckTail(type, *d, b.data() + tail);
  WriteBitBuffer wb(0);
  const bool written = d->ValidateAndWrite(wb).ok();
  // Definitions whose schedule is carried by the parameter blocks are not
  // validated when read, only when written.
  sym_assert(written == (rate != 0 && TypeOk(type, sched, s)), "what was read is written back when it is valid");
  if (!written) { sym_reach("read_only"); return; }
  const Bytes& w = wb.bit_buffer();
  const size_t used = tail + kTail[type];
  sym_assert(w.size() <= used, "not longer");
  if (w.size() == used) {
    Bytes in(b.begin(), b.begin() + used);
    bool same = SamePrefix(w, in, tail) & (!canonical | SameBytes(w, in));
    sym_assert(same, "written back byte-identically");
    sym_reach("identical");
  }
  auto again = Make(type, Args{});
  auto rb2 = Reader(w);
  sym_assert(again->ReadAndValidate(*rb2).ok() && rb2->Tell() == 8 * (int64_t)w.size(), "reads back");
  WriteBitBuffer wb2(0);
  sym_assert(again->ValidateAndWrite(wb2).ok() && SameBytes(wb2.bit_buffer(), w), "stable");
  sym_reach(sched ? (s.constant ? "constant" : "variable") : "in_block");
  sym_observe(id);
  sym_observe(s.num);
}
static void Write(int type, int kind) {  // kind 0: none, 1: constant, 2..: variable
  Args a;
  a.parameter_id = sym_u32("id");
  a.parameter_rate = sym_u32("rate");
  a.reserved = sym_u8("reserved");
  if (kind) sym_assume((a.parameter_id < 128) & (a.parameter_rate < 128));
  RefSchedule s;
  g_small = kind != 1;
  if (kind == 1) {
    s.duration = sym_u32("duration");
    s.constant = sym_u32("constant");
    const bool ok = RefConstant(s.duration, s.constant, s.num);
    sym_assume(!ok || s.num <= 4);
    auto x = SubblockSchedule::CreateWithConstantSubblockDuration(s.duration, s.constant);
    sym_assert(x.ok() == ok, "a constant schedule is accepted exactly when it is consistent");
    if (!ok || !x.ok()) { sym_reach("bad_schedule"); return; }
    s.num = (uint32_t)sym_concretize(s.num);
    a.schedule = *x;
  } else if (kind >= 2) {
    uint64_t sum = 0;
    bool zero = false;
    for (int i = 2; i < kind; i++) {
      s.durations.push_back(sym_u32("d"));
      if (kind > 4) sym_assume(s.durations.back() < 128);
      sum += s.durations.back();
      zero |= s.durations.back() == 0;
    }
    s.num = kind - 2;
    s.duration = (uint32_t)sum;
    auto x = SubblockSchedule::CreateWithVariableSubblockDuration(s.durations);
    const bool ok = s.num > 0 && !zero && sum <= 0xffffffffu;
    sym_assert(x.ok() == ok, "a variable schedule is accepted exactly when its durations are non-zero and their sum fits");
    if (!ok || !x.ok()) { sym_reach("bad_schedule"); return; }
    a.schedule = *x;
  }
  auto d = Make(type, a);
  uint8_t t[12];
  sym_make(t, 12, "fields");
  bool fits = true;
  switch (type) {
    case 0: static_cast<MixGainParamDefinition&>(*d).default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8(S16(t, 0)); break;
    case 1: {
      auto& p = static_cast<DemixingParamDefinition&>(*d).default_demixing_info_parameter_data_;
      p.dmixp_mode = (DemixingInfoParameterData::DMixPMode)(t[0] >> 4);
      p.reserved = t[1] & 63;
      p.default_w = t[2] & 31;
      p.reserved_for_future_use = t[3] & 31;
      fits = (t[0] >> 4) < 7 && (t[0] >> 4) != 3 && p.reserved < 32 && p.default_w < 16 && p.reserved_for_future_use < 16;
      t[0] = (uint8_t)(t[0] >> 4 << 5 | p.reserved);
      t[1] = (uint8_t)(p.default_w << 4 | p.reserved_for_future_use);
      break;
    }
    case 4: {
      auto& p = static_cast<Cart8ParamDefinition&>(*d);
      p.default_x_ = t[0]; p.default_y_ = t[1]; p.default_z_ = t[2];
      break;
    }
    case 3: {
      auto& p = static_cast<PolarParamDefinition&>(*d);
      const int16_t az = S16(t, 4);
      const int8_t el = t[6];
      p.default_azimuth_ = az; p.default_elevation_ = el; p.default_distance_ = t[7];
      fits = t[7] < 128;
      const uint32_t v = (uint32_t)(Clip(az, 180) & 511) << 15 | (uint32_t)(Clip(el, 90) & 255) << 7 | t[7];
      t[0] = v >> 16; t[1] = v >> 8; t[2] = v;
      break;
    }
    case 5: {
      auto& p = static_cast<Cart16ParamDefinition&>(*d);
      p.default_x_ = S16(t, 0); p.default_y_ = S16(t, 2); p.default_z_ = S16(t, 4);
      break;
    }
    default: break;
  }
  WriteBitBuffer wb(0);
  const bool written = d->ValidateAndWrite(wb).ok();
  const bool valid = a.parameter_rate != 0 && a.reserved < 128 && TypeOk(type, kind != 0, s) && fits;
  sym_assert(written == valid, "a definition is written exactly when it is consistent");
  if (!written || !valid) { sym_reach("refused"); return; }
  Bytes e;
  PutUleb(e, a.parameter_id);
  PutUleb(e, a.parameter_rate);
  e.push_back((kind ? 0 : 128) | a.reserved);
  if (kind) {
    PutUleb(e, s.duration);
    PutUleb(e, s.constant);
    if (!s.constant) {
      PutUleb(e, s.num);
      for (uint32_t x : s.durations) PutUleb(e, x);
    }
  }
  e.insert(e.end(), t, t + kTail[type]);
  sym_assert(SameBytes(wb.bit_buffer(), e), "written bytes");
  auto again = Make(type, Args{});
  auto rb = Reader(e);
  const bool read = again->ReadAndValidate(*rb).ok();
  sym_assert(read, "a written definition reads back");
  if (!read) return;
  CheckGetters(*again, type, a.parameter_id, a.parameter_rate, a.reserved, kind != 0, s);
  CheckTail(type, *again, t);
  sym_reach("written");
}
static void Extended(int n) {
  Bytes b = SymBytes(n, "bytes");
  size_t p = 0;
  uint32_t size = 0;
  bool ok = RefUleb(b, p, size) && p + (uint64_t)size <= b.size();
  ExtendedParamDefinition d((ParamDefinition::ParameterDefinitionType)sym_u32("type"), Args{});
  auto rb = Reader(b);
  const bool read = d.ReadAndValidate(*rb).ok();
  sym_assert(read == ok, "an extension definition is accepted exactly when complete");
  if (!read || !ok) return;
  sym_assert(rb->Tell() == 8 * (int64_t)(p + size), "exactly the definition is consumed");
  sym_assert(SameBytes(d.param_definition_bytes_, Bytes(b.begin() + p, b.begin() + p + size)), "contents are kept");
  WriteBitBuffer wb(0);
  sym_assert(d.ValidateAndWrite(wb).ok(), "written");
  Bytes e;
  PutUleb(e, size);
  e.insert(e.end(), b.begin() + p, b.begin() + p + size);
  sym_assert(SameBytes(wb.bit_buffer(), e), "written bytes");
  sym_reach("extended");
}
#ifndef MAXN
#define MAXN 6
#endif
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 9 * kLayouts) { ReadLayout(c % 9, c / 9); return; }
  c -= 9 * kLayouts;
  if (c < 3 * MAXN) { Read(c % 3, SymBytes(c / 3 + 1, "bytes")); return; }
  c -= 3 * MAXN;
  if (c < 36) {
    if (c / 6 != 1 || c % 6 < 2) Write(c % 6, c / 6);
    return;
  }
  Extended(c - 36);
}
