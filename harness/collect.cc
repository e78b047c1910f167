// Definitions of parameters: each id once, conflicting definitions refused.
#include "desc_common.h"
#include "iamf/cli/cli_util.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/rendering_config.h"
using namespace vh;
using D = DemixingInfoParameterData;
enum Kind { kGain, kOutGain, kDemix, kRecon, kPolar, kCart16, kUnknown, kKinds };
struct Def {
  int kind = kGain;
  uint32_t id = 0, rate = 48000;
  uint8_t reserved = 0;
  int schedule = 0;  // None, constant, variable.
  uint32_t d0 = 0, d1 = 0;
  int64_t values[4] = {};  // Depending on the kind.
  bool gain() const { return kind <= kOutGain; }
};
static bool Same(const Def& a, const Def& b) {
  bool same = (a.kind == b.kind || (a.gain() && b.gain())) && a.schedule == b.schedule;
  same &= (a.id == b.id) & (a.rate == b.rate) & (a.reserved == b.reserved);
  if (a.schedule) same &= (a.d0 == b.d0) & (a.d1 == b.d1);
  for (int i = 0; i < 4; i++) same &= a.values[i] == b.values[i];
  return same;
}
static ParamDefinition::BaseArgs Args(const Def& d) {
  ParamDefinition::BaseArgs a{d.id, d.rate, d.reserved, {}};
  if (d.schedule == 1) a.schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(d.d0, d.d1);
  const DecodedUleb128 durations[] = {d.d0, d.d1};
  if (d.schedule == 2) a.schedule = *SubblockSchedule::CreateWithVariableSubblockDuration(absl::MakeConstSpan(durations));
  return a;
}
static Def Fresh(uint32_t id) { Def d; d.id = id; return d; }
static Def Anything(int kind, uint32_t id, int focus) {
  Def d;
  d.kind = kind;
  d.id = id;
  // What differs, if anything, is in one place.
  if (focus == 0) { d.rate = sym_u32("rate"); d.reserved = sym_u8("reserved"); }
  if (focus == 1) d.schedule = (int)sym_choose("schedule", 3);
  if (d.schedule == 1) { d.d0 = 6 + (uint32_t)sym_choose("d0", 2); d.d1 = 3 + (uint32_t)sym_choose("d1", 2); }
  if (d.schedule == 2) { d.d0 = 1 + (uint32_t)sym_choose("d0", 2); d.d1 = 1 + (uint32_t)sym_choose("d1", 2); }
  const bool any = focus == 2;
  switch (kind) {
    case kGain: case kOutGain: d.values[0] = any ? (int)sym_choose("gain", 3) - 1 : 0; break;
    case kDemix: d.values[0] = any ? sym_choose("mode", 3) : 0; d.values[1] = any ? sym_choose("w", 3) : 0; break;
    case kRecon: if (any) { d.values[0] = 1 + sym_choose("element", 2); d.values[1] = sym_choose("present", 2); d.values[2] = sym_choose("surround", 2); d.values[3] = sym_choose("bottom", 2); } else d.values[0] = 1; break;
    case kPolar: if (any) { d.values[0] = sym_i16("azimuth"); d.values[1] = sym_i16("elevation"); d.values[2] = sym_u8("distance"); } break;
    case kCart16: if (any) for (int i = 0; i < 3; i++) d.values[i] = sym_i16("at"); break;
  }
  return d;
}
static MixGainParamDefinition Gain(const Def& d) {
  MixGainParamDefinition g(Args(d));
  g.default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8((int16_t)(256 * d.values[0]));
  return g;
}
static bool Is(const ParamDefinition& p, const Def& d) {
  bool same = (p.GetParameterId() == d.id) & (p.GetParameterRate() == d.rate) & (p.GetReserved() == d.reserved);
  same &= p.GetParamDefinitionMode() == (d.schedule ? ParamDefinition::kModeScheduleInParamDefinition : ParamDefinition::kModeScheduleInParameterBlock);
  if (d.schedule == 1) same &= p.GetDuration() == d.d0 && p.GetConstantSubblockDuration() == d.d1;
  if (d.schedule == 2) same &= p.GetDuration() == d.d0 + d.d1 && p.GetConstantSubblockDuration() == 0 && p.GetNumSubblocks() == 2;
  return same;
}
static bool Is(const ParamDefinitionVariant& v, const Def& d) {
  const auto* v0 = d.values;
  switch (d.kind) {
    case kGain: case kOutGain: { auto* p = std::get_if<MixGainParamDefinition>(&v); return p && Is(*p, d) && p->default_mix_gain_.GetQ7_8() == 256 * v0[0]; }
    case kDemix: { auto* p = std::get_if<DemixingParamDefinition>(&v); return p && Is(*p, d) && p->default_demixing_info_parameter_data_.dmixp_mode == (D::DMixPMode)v0[0] && p->default_demixing_info_parameter_data_.default_w == v0[1]; }
    case kRecon: {
      auto* p = std::get_if<ReconGainParamDefinition>(&v);
      if (!p || !Is(*p, d) || p->audio_element_id_ != v0[0] || p->aux_data_.size() != 2) return false;
      const auto& a = p->aux_data_;
      return !a[0].recon_gain_is_present_flag && a[1].recon_gain_is_present_flag == (bool)v0[1] && a[0].channel_numbers_for_layer == ChannelNumbers{2, 0, 0, 0} && a[1].channel_numbers_for_layer == ChannelNumbers{5 + (int)v0[2], 1, 2, (int)v0[3]};
    }
    case kPolar: { auto* p = std::get_if<PolarParamDefinition>(&v); return p && Is(*p, d) && p->default_azimuth_ == v0[0] && p->default_elevation_ == v0[1] && p->default_distance_ == v0[2]; }
    case kCart16: { auto* p = std::get_if<Cart16ParamDefinition>(&v); return p && Is(*p, d) && p->default_x_ == v0[0] && p->default_y_ == v0[1] && p->default_z_ == v0[2]; }
  }
  return false;
}
static AudioElementWithData Element(uint32_t id, const Def* d) {
  ScalableChannelLayoutConfig config;
  for (int l = 0; l < 2; l++) {
    ChannelAudioLayerConfig c{};
    c.loudspeaker_layout = l ? ChannelAudioLayerConfig::kLayout5_1_2_ch : ChannelAudioLayerConfig::kLayoutStereo;
    c.substream_count = l ? 4 : 1;
    c.coupled_substream_count = l ? 2 : 1;
    c.recon_gain_is_present_flag = l && d && d->kind == kRecon && d->values[1];
    config.channel_audio_layer_configs.push_back(c);
  }
  const Ids ids = {id * 10, id * 10 + 1, id * 10 + 2, id * 10 + 3, id * 10 + 4};
  auto obu = AudioElementObu::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), config);
  AudioElementWithData e{*obu, nullptr, {}, {}, {{2, 0, 0, 0}, {5, 1, 2, 0}}};
  if (!d) return e;
  auto& params = e.obu.audio_element_params_;
  if (d->kind == kDemix) {
    DemixingParamDefinition p(Args(*d));
    p.default_demixing_info_parameter_data_ = DefaultDemixingInfoParameterData((D::DMixPMode)d->values[0], 0, (uint8_t)d->values[1], 0);
    params.push_back(AudioElementParam{p});
  } else if (d->kind == kRecon) {
    params.push_back(AudioElementParam{ReconGainParamDefinition(Args(*d), (uint32_t)d->values[0])});
    e.channel_numbers_for_layers[1] = {5 + (int)d->values[2], 1, 2, (int)d->values[3]};
  } else if (d->kind == kUnknown) {
    params.push_back(AudioElementParam{ExtendedParamDefinition((ParamDefinition::ParameterDefinitionType)9, {})});
  }
  return e;
}
static SubMixAudioElement SubElement(uint32_t id, const Def& gain, const Def* position) {
  SubMixAudioElement e;
  e.audio_element_id = id;
  e.element_mix_gain = Gain(gain);
  if (position && position->kind == kPolar) {
    PolarParamDefinition p(Args(*position));
    p.default_azimuth_ = (int16_t)position->values[0];
    p.default_elevation_ = (int8_t)position->values[1];
    p.default_distance_ = (uint8_t)position->values[2];
    e.rendering_config.rendering_config_param_definitions.push_back(RenderingConfigParamDefinition::Create(p, {}));
  } else if (position && position->kind == kCart16) {
    Cart16ParamDefinition p(Args(*position));
    p.default_x_ = (int16_t)position->values[0];
    p.default_y_ = (int16_t)position->values[1];
    p.default_z_ = (int16_t)position->values[2];
    e.rendering_config.rendering_config_param_definitions.push_back(RenderingConfigParamDefinition::Create(p, {}));
  }
  return e;
}
static void Collect(int first, int second, int focus, bool same_mix) {
  const bool same_id = !sym_choose("other_id", 2);
  Def d[2] = {Anything(first, 0x80000005u, focus), Anything(second, same_id ? 0x80000005u : 5u, focus)};
  if (d[0].kind == kPolar) d[0].values[1] = (int8_t)d[0].values[1];
  if (d[1].kind == kPolar) d[1].values[1] = (int8_t)d[1].values[1];
  std::vector<Def> all = {d[0], d[1]};
  DescriptorObus::AudioElementsById elements;
  DescriptorObus::MixPresentationObus mixes;
  std::vector<MixPresentationSubMix> subs;
  for (int i = 0; i < 2; i++) {
    elements.emplace(i + 1, Element(i + 1, &d[i]));
    MixPresentationSubMix sub;
    const Def element_gain = d[i].kind == kGain ? d[i] : Fresh(100 + i), output_gain = d[i].kind == kOutGain ? d[i] : Fresh(200 + i);
    sub.audio_elements.push_back(SubElement(i + 1, element_gain, &d[i]));
    if (!same_mix) sub.audio_elements.push_back(SubElement(2 - i, Fresh(300), nullptr));
    sub.output_mix_gain = Gain(output_gain);
    if (d[i].kind != kGain) all.push_back(element_gain);
    if (d[i].kind != kOutGain) all.push_back(output_gain);
    subs.push_back(sub);
    if (!same_mix || i == 1) {
      mixes.push_back(MixPresentationObu(Hdr(kObuIaMixPresentation), 40 + i, 0, {}, {}, subs));
      subs.clear();
    }
  }
  if (!same_mix) all.push_back(Fresh(300));
  absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> got;
  got.insert({77, Gain(Fresh(77))});
  const bool ok = CollectAndValidateParamDefinitions(elements, mixes, got).ok();
  const bool counted = d[0].kind != kUnknown && d[1].kind != kUnknown;
  bool conflict = false;
  if (counted && same_id) conflict = !Same(d[0], d[1]);
  sym_assert(ok == !conflict, "refused exactly if two definitions of an id differ");
  if (!ok) { sym_reach("conflict"); return; }
  size_t distinct = 0;
  for (size_t i = 0; i < all.size(); i++) {
    if (all[i].kind == kUnknown || (i == 1 && counted && same_id)) continue;
    distinct++;
    const auto it = got.find(all[i].id);
    sym_assert(it != got.end(), "every definition is collected");
    if (it != got.end()) sym_assert(Is(it->second, all[i]), "the definition is what the descriptors say");
  }
  sym_assert(got.size() == distinct, "nothing else is collected");
  if (counted && same_id) sym_reach("shared");
  if (!counted) sym_reach("ignored");
}
static void Common() {
  // Properties common to all codecs.
  absl::flat_hash_set<uint32_t> rates;
  absl::flat_hash_set<uint8_t> depths;
  std::vector<uint32_t> r;
  std::vector<uint8_t> b;
  const int nr = (int)sym_choose("rates", 4), nb = (int)sym_choose("depths", 4);
  for (int i = 0; i < nr; i++) rates.insert(r.emplace_back(sym_u32("rate")));
  for (int i = 0; i < nb; i++) depths.insert(b.emplace_back(sym_u8("depth")));
  uint32_t rate = 1;
  uint8_t depth = 1;
  bool resample = true;
  const bool ok = GetCommonSampleRateAndBitDepth(rates, depths, rate, depth, resample).ok();
  sym_assert(ok == (nr && nb), "some rate and depth are needed");
  if (!ok) return;
  bool one_rate = true, one_depth = true;
  for (auto x : r) one_rate &= x == r[0];
  for (auto x : b) one_depth &= x == b[0];
  sym_assert(resample == !one_rate, "resampling is needed exactly for different rates");
  sym_assert(rate == (one_rate ? r[0] : 48000u), "the rate is the common one or 48 kHz");
  sym_assert(depth == (one_depth ? b[0] : 16), "the depth is the common one or 16 bits");
  sym_reach("common");
}
static void Frames() {
  DescriptorObus::CodecConfigsById codecs;
  const int n = (int)sym_choose("codecs", 4);
  std::vector<uint32_t> sizes;
  for (int i = 0; i < n; i++) {
    sizes.push_back(sym_u32("frame"));
    auto c = Lpcm(i * 7, sizes.back());
    if (!c.ok()) return;
    codecs.emplace(i * 7, *c);
  }
  uint32_t common = 99;
  const bool ok = GetCommonSamplesPerFrame(codecs, common).ok();
  bool same = true;
  for (auto s : sizes) same &= s == sizes[0];
  sym_assert(ok == same, "frame sizes must agree");
  if (ok) sym_assert(common == (n ? sizes[0] : 99u), "the frame size is the common one");
  sym_reach(ok ? "frames" : "mixed_frames");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c == 0) return Common();
  if (c == 1) return Frames();
  c -= 2;
  // Kinds which can meet: the same one or different ones.
  static const int k[][2] = {{kGain, kGain}, {kGain, kOutGain}, {kOutGain, kOutGain}, {kDemix, kDemix}, {kRecon, kRecon}, {kPolar, kPolar}, {kCart16, kCart16},
                             {kGain, kDemix}, {kRecon, kDemix}, {kPolar, kCart16}, {kOutGain, kRecon}, {kGain, kPolar}, {kUnknown, kDemix}, {kRecon, kUnknown}};
  Collect(k[c / 6][0], k[c / 6][1], c % 3, c / 3 % 2);
}
