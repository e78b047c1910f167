// Parameter blocks: schedule, per-subblock data, re-serialisation, and the
// interval each subblock covers.
#include <cmath>
#include "obu_common.h"
#include "obu_roundtrip.h"
#include "schedule_common.h"
#include "iamf/obu/demixing_info_parameter_data.h"
#include "iamf/obu/extension_parameter_data.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/parameter_block.h"
#include "iamf/obu/recon_gain_info_parameter_data.h"
using namespace vh;
using Args = ParamDefinition::BaseArgs;
static const uint32_t kId = 5;
// What the bytes of one subblock mean.
struct RefData {
  uint32_t a = 0;                         // animation type, or demixing mode
  int16_t p[3] = {0, 0, 0};               // mix gain control points
  uint8_t t = 0;                          // relative time, or reserved bits
  std::vector<std::pair<bool, std::pair<uint32_t, Bytes>>> layers;  // recon gain
  Bytes bytes;                            // extension
};
static int16_t Be16(const Bytes& b, size_t p) { return (int16_t)(b[p] << 8 | b[p + 1]); }
static bool RefReadData(int type, const std::vector<bool>& flags, const Bytes& b, size_t& p, RefData& d) {
  switch (type) {
    case 0: {
      if (!RefUleb(b, p, d.a) || d.a > 2) return false;
      d.a = (uint32_t)sym_concretize(d.a);
      const int n = (int)d.a + 1;
      if (p + 2 * n + (d.a == 2) > b.size()) return false;
      for (int i = 0; i < n; i++, p += 2) d.p[i] = Be16(b, p);
      if (d.a == 2) d.t = b[p++];
      return true;
    }
    case 1:
      if (p >= b.size()) return false;
      d.a = b[p] >> 5;
      d.t = b[p] & 31;
      p++;
      return d.a != 3 && d.a != 7;
    case 2:
      for (bool f : flags) {
        uint32_t flag = 0;
        Bytes gains(12);
        if (f) {
          if (!RefUleb(b, p, flag)) return false;
          for (int j = 0; j < 12; j++)
            if (flag >> j & 1) {
              if (p >= b.size()) return false;
              gains[j] = b[p++];
            }
        }
        d.layers.push_back({f, {flag, gains}});
      }
      return true;
    default: {
      uint32_t size = 0;
      if (!RefUleb(b, p, size) || p + (uint64_t)size > b.size()) return false;
      size = (uint32_t)sym_concretize(size);
      d.bytes.assign(b.begin() + p, b.begin() + p + size);
      p += size;
      return true;
    }
  }
}
static bool SameData(int type, const ParameterData* got, const RefData& e) {
  if (got == nullptr) return false;
  switch (type) {
    case 0: {
      auto& m = static_cast<const MixGainParameterData&>(*got);
      if (m.GetAnimationType() != e.a) return false;
      if (auto* s = std::get_if<AnimationStepInt16>(&m.param_data)) return s->start_point_value == e.p[0];
      if (auto* s = std::get_if<AnimationLinearInt16>(&m.param_data)) return (s->start_point_value == e.p[0]) & (s->end_point_value == e.p[1]);
      auto& s = std::get<AnimationBezierInt16>(m.param_data);
      return (s.start_point_value == e.p[0]) & (s.end_point_value == e.p[1]) & (s.control_point_value == e.p[2]) & (s.control_point_relative_time == e.t);
    }
    case 1: {
      auto& m = static_cast<const DemixingInfoParameterData&>(*got);
      return (m.dmixp_mode == e.a) & (m.reserved == e.t);
    }
    case 2: {
      auto& m = static_cast<const ReconGainInfoParameterData&>(*got);
      if (m.recon_gain_elements.size() != e.layers.size()) return false;
      for (size_t i = 0; i < e.layers.size(); i++) {
        auto& x = m.recon_gain_elements[i];
        if (x.has_value() != e.layers[i].first) return false;
        if (!x) continue;
        bool same = x->recon_gain_flag == e.layers[i].second.first;
        for (int j = 0; j < 12; j++) same &= x->recon_gain[j] == e.layers[i].second.second[j];
        if (!same) return false;
      }
      return true;
    }
    default: return SameBytes(static_cast<const ExtensionParameterData&>(*got).parameter_data_bytes, e.bytes);
  }
}
static std::unique_ptr<ParamDefinition> Definition(int type, const Args& a, const std::vector<bool>& flags) {
  switch (type) {
    case 0: return std::make_unique<MixGainParamDefinition>(a);
    case 1: return std::make_unique<DemixingParamDefinition>(a);
    case 2: {
      auto d = std::make_unique<ReconGainParamDefinition>(a, 9);
      for (bool f : flags) d->aux_data_.push_back({f, {}});
      return d;
    }
    default: return std::make_unique<ExtendedParamDefinition>((ParamDefinition::ParameterDefinitionType)9, a);
  }
}
// The definition's own schedule: none (carried by the block), one constant
// subblock, three constant ones (the last shorter), or two listed ones.
static bool Schedule(int kind, Args& a, RefSchedule& s) {
  a.parameter_id = kId;
  a.parameter_rate = sym_u32("rate");
  if (kind == 0) return false;
  if (kind == 3) {
    s.num = 2;
    s.durations = {3, 70000};
    s.duration = 70003;
    a.schedule = *SubblockSchedule::CreateWithVariableSubblockDuration(s.durations);
  } else {
    s.duration = kind == 1 ? 960 : 10;
    s.constant = kind == 1 ? 960 : 4;
    s.num = kind == 1 ? 1 : 3;
    a.schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(s.duration, s.constant);
  }
  return true;
}
static void Block(int type, int kind, const std::vector<bool>& flags, const Bytes& b) {
  Args a;
  RefSchedule s;
  const bool in_def = Schedule(kind, a, s);
  auto def = Definition(type, a, flags);
  size_t p = 0;
  uint32_t id = 0;
  std::vector<RefData> data;
  bool minimal = true;
  bool ok = a.parameter_rate != 0 && RefUleb(b, p, id, &minimal) && id == kId;
  // A definition of this type must carry exactly one subblock's schedule.
  if (ok && (type == 1 || type == 2)) ok = in_def && s.constant == s.duration;
  auto one = [&] {
    data.push_back({});
    return RefReadData(type, flags, b, p, data.back());
  };
  if (ok && in_def) {
    for (uint32_t i = 0; ok && i < s.num; i++) ok = one();
  } else if (ok) {
    ok = RefUleb(b, p, s.duration) && RefUleb(b, p, s.constant);
    if (ok && s.constant != 0) {
      ok = RefConstant(s.duration, s.constant, s.num);
      if (ok) {
        sym_assume(s.num <= 4);
        s.num = (uint32_t)sym_concretize(s.num);
        for (uint32_t i = 0; ok && i < s.num; i++) ok = one();
      }
    } else if (ok) {
      ok = RefUleb(b, p, s.num) && s.duration != 0 && s.num >= 1 && s.num <= 192000 && s.num <= s.duration;
      uint64_t sum = 0;
      bool zero = false;
      for (uint32_t i = 0; ok && i < s.num; i++) {
        uint32_t d = 0;
        ok = RefUleb(b, p, d) && one();
        sum += d;
        zero |= d == 0;
        s.durations.push_back(d);
      }
      ok = ok && !zero && sum == s.duration;
    }
  }
  ObuHeader h = Hdr(kObuIaParameterBlock);
  auto rb = Reader(b);
  auto got = ParameterBlockObu::CreateFromBuffer(h, b.size(), *def, *rb);
  sym_assert(got.ok() == ok, "a block is accepted exactly when it is complete and its schedule is consistent");
  if (!ok || !got.ok()) { sym_reach("rejected"); return; }
  const ParameterBlockObu& o = **got;
  sym_assert(o.parameter_id_ == kId && o.GetDuration() == s.duration && o.GetConstantSubblockDuration() == s.constant && o.GetNumSubblocks() == s.num, "schedule");
  sym_assert(o.subblocks_.size() == s.num, "one set of data per subblock");
  if (o.subblocks_.size() != s.num) return;
  uint64_t sum = 0;
  for (uint32_t i = 0; i < s.num; i++) {
    auto x = o.GetSubblockDuration(i);
    sym_assert(x.ok(), "every subblock has a duration");
    if (!x.ok()) return;
    sym_assert(*x == RefSubblock(s, i), "subblock duration");
    sum += *x;
    sym_assert(SameData(type, o.subblocks_[i].get(), data[i]), "data of the subblock");
  }
  if (in_def || s.constant == 0) sym_assert(sum == s.duration, "the subblocks add up to the duration");
  sym_assert(!o.GetSubblockDuration(s.num).ok() && !o.GetSubblockDuration(-1).ok(), "only existing subblocks have a duration");
  sym_reach(in_def ? "mode0" : s.constant ? "mode1_constant" : "mode1_variable");
  RoundTrip(h, b, false, [&](const ObuHeader& hh, int64_t n, ReadBitBuffer& r) { return ParameterBlockObu::CreateFromBuffer(hh, n, *def, r); }, 0);
}
static bool PutLeb(Bytes& b, int size) {
  uint8_t any = 0;
  for (int i = 0; i < size; i++) {
    const uint8_t x = sym_u8("leb");
    b.push_back(i + 1 < size ? x | 128 : x & 127);
    any |= x & 127;
  }
  return any != 0;
}
static void PutData(int type, int variant, const std::vector<bool>& flags, Bytes& b) {
  switch (type) {
    case 0: {
      b.push_back(variant % 3);
      Bytes x = SymBytes(variant % 3 == 0 ? 2 : variant % 3 == 1 ? 4 : 7, "points");
      b.insert(b.end(), x.begin(), x.end());
      return;
    }
    case 1: b.push_back(sym_u8("mode")); return;
    case 2:
      for (size_t i = 0; i < flags.size(); i++)
        if (flags[i]) {
          // Which channels: fixed patterns, with symbolic gains.
          static const uint16_t kPattern[] = {0x000, 0xfff, 0x801, 0x0aa, 0x555, 0x07f, 0x400};
          const uint16_t f = kPattern[(variant + i) % 7];
          const uint8_t hi = sym_u8("hi");  // Bits above the twelve channels are kept.
          b.push_back((f & 127) | 128);
          b.push_back((f >> 7) | 128);
          b.push_back(hi & 127);
          for (int j = 0; j < 12; j++)
            if (f >> j & 1) b.push_back(sym_u8("gain"));
        }
      return;
    default: {
      b.push_back(variant);
      Bytes x = SymBytes(variant, "ext");
      b.insert(b.end(), x.begin(), x.end());
    }
  }
}
// Fixed encoded sizes, symbolic contents; a byte more or less at the end.
static void Layout(int type, int kind, int variant) {
  std::vector<bool> flags;
  if (type == 2)
    for (int i = 0; i < 3; i++) flags.push_back((variant + 1) >> i & 1);
  Bytes b;
  b.push_back(kId);
  if (kind == 0) {  // Schedule in the block.
    const bool constant = variant & 1;
    PutLeb(b, constant ? 1 : 2);
    if (constant) {
      sym_assume(PutLeb(b, 1));
      PutData(type, variant, flags, b);
      PutData(type, variant / 2, flags, b);
    } else {
      const int num = 1 + variant / 2 % 3;
      b.push_back(0);
      b.push_back(num);
      for (int i = 0; i < num; i++) {
        PutLeb(b, 2);
        PutData(type, variant + i, flags, b);
      }
    }
  } else {
    const int num = kind == 1 ? 1 : kind == 2 ? 3 : 2;
    for (int i = 0; i < num; i++) PutData(type, variant + i, flags, b);
  }
  const int extra = (int)sym_choose("extra", 3) - 1;
  if (extra < 0) b.pop_back();
  if (extra > 0) b.push_back(sym_u8("more"));
  Block(type, kind, flags, b);
}
// Every tick inside a subblock gets that subblock's gain.
static void Ticks(int kind) {
  Args a;
  a.parameter_id = 1;
  a.parameter_rate = 48000;
  std::vector<uint32_t> d;
  SubblockSchedule sched = *SubblockSchedule::CreateWithConstantSubblockDuration(1, 1);
  if (kind & 1) {
    const uint32_t total = 1 + (uint32_t)sym_choose("total", 8), c = 1 + (uint32_t)sym_choose("c", 4);
    if (c > total) return;
    for (uint32_t t = 0; t < total; t += c) d.push_back(total - t < c ? total - t : c);
    sched = *SubblockSchedule::CreateWithConstantSubblockDuration(total, c);
  } else {
    const int n = 1 + (int)sym_choose("n", 3);
    for (int i = 0; i < n; i++) {
      const uint32_t x = sym_u32("d");
      sym_assume((x >= 1) & (x <= 4));
      d.push_back((uint32_t)sym_concretize(x));
    }
    sched = *SubblockSchedule::CreateWithVariableSubblockDuration(d);
  }
  if (kind & 2) a.schedule = sched;
  MixGainParamDefinition def(a);
  auto o = kind & 2 ? ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), def) : ParameterBlockObu::CreateMode1(Hdr(kObuIaParameterBlock), def, sched);
  if (o == nullptr) { sym_fail("a block is created for its own mode"); return; }
  sym_assert((kind & 2 ? ParameterBlockObu::CreateMode1(Hdr(kObuIaParameterBlock), def, sched) : ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), def)) == nullptr, "no block of the other mode");
  sym_assert(o->subblocks_.size() == d.size(), "one entry per subblock");
  if (o->subblocks_.size() != d.size()) return;
  std::vector<float> out(6, -1.0f), expect(6, -1.0f);
  sym_assert(!o->GetLinearMixGains(out).ok(), "missing data is an error");
  size_t t = 0;
  for (size_t i = 0; i < d.size(); i++) {
    const int16_t q = (int16_t)(256 * ((int)i + 1));
    // Alternate between a line and a step.
    const int16_t end = i % 2 ? q : (int16_t)(q + 512);
    if (i % 2) o->subblocks_[i] = std::make_unique<MixGainParameterData>(AnimationStepInt16{q});
    else o->subblocks_[i] = std::make_unique<MixGainParameterData>(AnimationLinearInt16{q, end});
    for (uint32_t k = 0; k < d[i]; k++, t++)
      if (t < expect.size()) expect[t] = std::pow(10.0f, ((float)(i + 1) + 2.0f * (i % 2 == 0) * (float)k / (float)d[i]) / 20.0f);
  }
  out.assign(6, -1.0f);
  sym_assert(o->GetLinearMixGains(out).ok(), "gains of a complete block");
  bool same = out.size() == 6;
  for (size_t i = 0; same && i < 6; i++) same = std::fabs(out[i] - expect[i]) < 1e-5f;
  sym_assert(same, "every tick gets the gain of the subblock that covers it, and no other tick is touched");
  sym_reach("ticks");
  // A block that is not about mix gain has none.
  Args b1;
  b1.parameter_id = 1;
  b1.parameter_rate = 1;
  b1.schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(4, 4);
  DemixingParamDefinition other(b1);
  auto o2 = ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), other);
  sym_assert(o2 != nullptr && !o2->GetLinearMixGains(out).ok(), "only mix-gain blocks have gains");
}
#ifndef MAXN
#define MAXN 9
#endif
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 4) { Ticks(c); return; }
  c -= 4;
  static const int kKinds[][2] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 1}, {2, 1}, {3, 0}, {3, 1}, {3, 2}, {1, 0}, {1, 2}, {2, 2}, {2, 0}};
  if (c < 7 * 13) { Layout(kKinds[c / 7][0], kKinds[c / 7][1], c % 7); return; }
  c -= 7 * 13;
  // Any bytes.
  static const int kAny[][2] = {{0, 0}, {0, 1}, {1, 1}, {2, 1}, {3, 0}};
  Block(kAny[c % 5][0], kAny[c % 5][1], {true, true}, SymBytes(c / 5, "bytes"));
}
