// Mixing of sub-mixes: gains, post-processing, loudness and the protocol of the
// finalizer.
#include <algorithm>
#include <cmath>
#include <list>
#include <map>
#include "desc_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/layout_renderer_factory.h"
#include "iamf/cli/loudness_calculator_base.h"
#include "iamf/cli/loudness_calculator_factory_base.h"
#include "iamf/cli/obu_with_data_generator.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/rendering_mix_presentation_finalizer.h"
#include "iamf/cli/sample_processor_base.h"
#include "iamf/obu/mix_gain_parameter_data.h"
#include "iamf/obu/mix_presentation.h"
using namespace vh;
using namespace iamf_tools;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using SS = LoudspeakersSsConventionLayout;
using Config = ChannelAudioLayerConfig;
using Finalizer = RenderingMixPresentationFinalizer;
using Signals = std::vector<std::vector<double>>;  // By channel.
namespace {
constexpr int kTicks = 3;
constexpr uint32_t kRate = 48000;
// What is mixed: elements 0 (stereo) and 1 (mono), to layouts 0 (stereo), 1
// (mono), 2 (of a kind nobody can render), 3 (5.1).
struct Plan { std::vector<int> elements, layouts; };
using Mix = std::vector<Plan>;
std::vector<Mix> Mixes(int c) {
  switch (c) {
    case 0: return {{{{0}, {0}}}};
    case 1: return {{{{0, 1}, {0, 1}}}};
    case 2: return {{{{1, 0}, {2, 3, 0}}}};
    case 3: return {{{{0}, {0}}, {{1}, {1, 0}}}};
    case 4: return {{{{0, 1}, {2, 0}}, {{0}, {2}}}};
    case 5: return {{{{0, 1}, {2}}}};
    default: return {{{{1}, {0}}}, {{{0}, {1}}, {{0, 1}, {0}}}};
  }
}
constexpr int kPlans = 7;
int Channels(int layout) { return layout == 0 ? 2 : layout == 1 ? 1 : layout == 3 ? 6 : 0; }
Layout LayoutOf(int layout) {
  if (layout == 2) return {.layout_type = Layout::kLayoutTypeReserved0, .specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = 0}};
  static const int systems[] = {0, 12, 0, 1};
  return {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = SS{.sound_system = (SS::SoundSystem)systems[layout]}};
}
Signals Gains(int element, int layout) {
  static const char* names[] = {"0+2+0", "0+1+0", "", "0+5+0"};
  if (element == layout) { Signals g(element ? 1 : 2, std::vector<double>(element ? 1 : 2, 0.0)); for (size_t i = 0; i < g.size(); i++) g[i][i] = 1.0; return g; }
  const auto g = GetGainsForLayoutPair(names[element], names[layout]);
  sym_assert(g.ok(), "the gains are known");
  return g.ok() ? *g : Signals();
}
uint32_t MixId(int m) { return 7 + 2 * m; }
uint32_t ElementId(int e) { return 101 - e; }
uint32_t ElementGain(int m, int s, int i) { return 1000 + 100 * m + 10 * s + i; }
uint32_t OutputGain(int m, int s) { return 2000 + 10 * m + s; }
// Natively, without the freedom the solver may use to stay just outside.
bool Close(double a, double b) { const double d = a - b, e = sym_engine() ? 1e-4 : 1e-5; return d <= e && d >= -e; }
void Compare(const Signals& a, const Signals& b, const char* what) {
  sym_assert(a.size() == b.size(), what);
  for (size_t c = 0; c < a.size() && c < b.size(); c++) {
    sym_assert(a[c].size() == b[c].size(), what);
    for (size_t t = 0; t < a[c].size() && t < b[c].size(); t++) sym_assert(Close(a[c][t], b[c][t]), what);
  }
}
Signals Copy(absl::Span<const absl::Span<const InternalSampleType>> x) {
  Signals s;
  for (auto& c : x) s.push_back(std::vector<double>(c.begin(), c.end()));
  return s;
}
// What the recorders were given, by (mix, sub-mix, layout).
struct Key {
  uint32_t mix; size_t sub, layout;
  bool operator<(const Key& o) const { return mix != o.mix ? mix < o.mix : sub != o.sub ? sub < o.sub : layout < o.layout; }
};
struct Log { std::vector<Signals> processed, measured; int flushed = 0; };
std::map<Key, Log> gLog;
std::map<Key, LoudnessInfo> gMeasured;
std::vector<Key> gCalculators;  // In the order of creation.
std::vector<Key> gWanted;
int gFailing = -1;  // Which loudness query fails.
class Processor : public SampleProcessorBase {
 public:
  Processor(Key k, size_t frame, size_t channels) : SampleProcessorBase(frame, channels, frame), key(k) {}
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const InternalSampleType>> x) override {
    gLog[key].processed.push_back(Copy(x));
    // Keep one marked sample.
    for (size_t c = 0; c < x.size(); c++) output_channel_time_samples_[c].assign(1, 100.0 + c);
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override {
    gLog[key].flushed++;
    for (auto& c : output_channel_time_samples_) c.assign(2, 200.0);
    return absl::OkStatus();
  }
  const Key key;
};
class Calculator : public LoudnessCalculatorBase {
 public:
  explicit Calculator(Key k, int n) : key(k), number(n) {}
  absl::Status AccumulateLoudnessForSamples(absl::Span<const absl::Span<const InternalSampleType>> x) override { gLog[key].measured.push_back(Copy(x)); return absl::OkStatus(); }
  absl::StatusOr<LoudnessInfo> QueryLoudness() const override {
    if (number == gFailing) return absl::UnknownError("");
    return gMeasured.at(key);
  }
  const Key key;
  const int number;
};
class Calculators : public LoudnessCalculatorFactoryBase {
 public:
  std::unique_ptr<LoudnessCalculatorBase> CreateLoudnessCalculator(const MixPresentationLayout& l, uint32_t frame, int32_t rate) const override {
    // The layouts are visited in order.
    const size_t n = gCalculators.size();
    sym_assert(n < gWanted.size() && frame == kTicks && rate == (int)kRate, "a calculator for every layout, with the properties of the sub-mix");
    if (n >= gWanted.size()) return nullptr;
    gCalculators.push_back(gWanted[n]);
    if (skip == (int)n) return nullptr;
    return std::make_unique<Calculator>(gWanted[n], (int)n);
  }
  int skip = -1;
};
LoudnessInfo SymLoudness(const char* name) {
  LoudnessInfo l{};
  l.info_type = sym_choose("peak", 2) ? LoudnessInfo::kTruePeak : 0;
  l.integrated_loudness = sym_i16(name);
  l.digital_peak = sym_i16(name);
  l.true_peak = sym_i16(name);
  return l;
}
double Db(int q78) { return q78 / 256.0; }
float Linear(int q78) { return std::pow(10.0f, (float)Db(q78) / 20.0f); }
int DefaultGain(uint32_t id) { return (int)(id % 7) * 256 - 512; }
MixGainParamDefinition Gain(uint32_t id, uint32_t rate) {
  MixGainParamDefinition d(ParamArgs(id, rate, 0));
  d.default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8((int16_t)DefaultGain(id));
  return d;
}
struct World {
  CodecConfigObu codec;
  DescriptorObus::AudioElementsById elements;
  DescriptorObus::MixPresentationObus mixes;
};
AudioElementWithData Element(int e, const CodecConfigObu* codec) {
  ScalableChannelLayoutConfig config;
  Config l{};
  l.loudspeaker_layout = e ? Config::kLayoutMono : Config::kLayoutStereo;
  l.substream_count = 1;
  l.coupled_substream_count = e ? 0 : 1;
  config.channel_audio_layer_configs.push_back(l);
  const Ids ids{(DecodedUleb128)e};
  auto obu = AudioElementObu::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), ElementId(e), 0, 1, absl::MakeConstSpan(ids), config);
  sym_assert(obu.ok(), "the element is made");
  DescriptorObus::CodecConfigsById codecs;
  codecs.insert({1, *codec});
  auto data = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *obu);
  sym_assert(data.ok(), "the element has its labels");
  data->codec_config = codec;
  return std::move(*data);
}
bool gSymLoudness = false;
void Build(World& w, const std::vector<Mix>& plan, uint32_t odd_rate, bool shared) {
  for (int e = 0; e < 2; e++) w.elements.emplace(ElementId(e), Element(e, &w.codec));
  for (size_t m = 0; m < plan.size(); m++) {
    std::vector<MixPresentationSubMix> subs;
    for (size_t s = 0; s < plan[m].size(); s++) {
      MixPresentationSubMix sub;
      for (size_t i = 0; i < plan[m][s].elements.size(); i++) {
        SubMixAudioElement e;
        e.audio_element_id = ElementId(plan[m][s].elements[i]);
        e.rendering_config.headphones_rendering_mode = RenderingConfig::kHeadphonesRenderingModeStereo;
        const uint32_t id = shared ? OutputGain(m, s) : ElementGain(m, s, i);
        e.element_mix_gain = Gain(id, id == odd_rate ? 16000 : kRate);
        sub.audio_elements.push_back(e);
      }
      const uint32_t id = OutputGain(m, s);
      sub.output_mix_gain = Gain(id, id == odd_rate ? 16000 : kRate);
      for (size_t l = 0; l < plan[m][s].layouts.size(); l++) {
        MixPresentationLayout layout{.loudness_layout = LayoutOf(plan[m][s].layouts[l]), .loudness = {}};
        if (gSymLoudness) layout.loudness = SymLoudness("said");
        else layout.loudness.integrated_loudness = 5;
        sub.layouts.push_back(layout);
        const Key k{MixId(m), s, l};
        if (plan[m][s].layouts[l] != 2) gWanted.push_back(k);
      }
      subs.push_back(sub);
    }
    w.mixes.push_back(MixPresentationObu(Hdr(kObuIaMixPresentation), MixId(m), 0, {}, {}, subs));
  }
}
bool Rendered(const Mix& m) {
  for (auto& p : m) for (int l : p.layouts) if (l != 2) return true;
  return false;
}
// A block of step gains, one per tick.
int BlockGain(uint32_t id, int tick) { return DefaultGain(id) + 64 * (tick + 1) + (int)(id % 3) * 16; }
ParameterBlockWithData Block(uint32_t id, InternalTimestamp start, const MixGainParamDefinition& d, int covered) {
  auto b = ParameterBlockObu::CreateMode1(Hdr(kObuIaParameterBlock), d, *SubblockSchedule::CreateWithConstantSubblockDuration(covered, 1));
  sym_assert(b != nullptr, "the block is made");
  for (int t = 0; t < covered; t++) b->subblocks_[t] = std::make_unique<MixGainParameterData>(AnimationStepInt16{.start_point_value = (int16_t)BlockGain(id, t)});
  return ParameterBlockWithData{.obu = std::move(b), .start_timestamp = start, .end_timestamp = start + kTicks};
}
LabeledFrame Frame(int e, uint32_t start, uint32_t end) {
  LabeledFrame f{.samples_to_trim_at_end = end, .samples_to_trim_at_start = start};
  for (Label l : e ? std::vector<Label>{kMono} : std::vector<Label>{kL2, kR2}) {
    auto& s = f.label_to_samples[l];
    for (int t = 0; t < kTicks; t++) s.push_back(sym_real("sample", -1.0, 1.0));
  }
  return f;
}
// What the sub-mix sounds like.
Signals Expect(const Plan& p, int m, int s, int layout, const IdLabeledFrameMap& frames, const std::map<uint32_t, int>& blocks, bool shared, int trim_start, int trim_end) {
  Signals out(Channels(layout), std::vector<double>(kTicks - trim_start - trim_end, 0.0));
  auto gain = [&](uint32_t id, int t) { auto it = blocks.find(id); return it != blocks.end() && t < it->second ? Linear(BlockGain(id, t)) : Linear(DefaultGain(id)); };
  for (size_t i = 0; i < p.elements.size(); i++) {
    const int e = p.elements[i];
    const Signals g = Gains(e, layout);
    const auto& in = frames.at(ElementId(e)).label_to_samples;
    const std::vector<Label> labels = e ? std::vector<Label>{kMono} : std::vector<Label>{kL2, kR2};
    for (int t = trim_start; t < kTicks - trim_end; t++) {
      const double w = gain(shared ? OutputGain(m, s) : ElementGain(m, s, i), t);
      for (size_t c = 0; c < out.size(); c++) {
        double rendered = 0.0;
        for (size_t k = 0; k < labels.size(); k++)
          if (g[k][c] != 0.0) rendered += in.at(labels[k])[t] * g[k][c];
        out[c][t - trim_start] += rendered * w;
      }
    }
  }
  for (auto& c : out)
    for (size_t t = 0; t < c.size(); t++) c[t] *= gain(OutputGain(m, s), (int)t + trim_start);
  return out;
}
// Two frames through the whole mix; every layout's samples are compared.
void Sound(int c) {
  const auto plan = Mixes(c % kPlans);
  const int kind = c / kPlans;  // 0: trims, 1: parameter blocks, 2: all.
  World w{*Lpcm(1, kTicks)};
  const bool shared = kind && sym_choose("shared", 2);
  Build(w, plan, 0, shared);
  const TrimmingSettings trimming{.trim_beginning = kind != 1 && sym_choose("beginning", 2) != 0, .trim_end = kind == 0 ? sym_choose("ending", 2) != 0 : true};
  LayoutRendererFactory renderers(trimming);
  const int processed = kind == 0 ? (int)sym_choose("processed", 3) : 1;  // None, all, the second layouts.
  auto made = Finalizer::Create(&renderers, nullptr, w.elements,
      [&](DecodedUleb128 mix, size_t sub, size_t layout, const Layout& l, int channels, int rate, int depth, size_t frame) -> std::unique_ptr<SampleProcessorBase> {
        const Key k{mix, sub, layout};
        const Mix& m = plan[(mix - 7) / 2];
        sym_assert(l == LayoutOf(m[sub].layouts[layout]) && channels == Channels(m[sub].layouts[layout]) && rate == (int)kRate && depth == 16 && frame == kTicks, "a processor is made for what will be rendered");
        if (processed == 0 || (processed == 2 && layout == 0)) return nullptr;
        gLog[k];
        return std::make_unique<Processor>(k, frame, channels);
      }, w.mixes);
  sym_assert(made.ok(), "the mixes can be rendered");
  if (!made.ok()) return;
  Finalizer f = std::move(*made);
  uint32_t a = 0, z = 0;
  int which = 0;
  for (int n = 0; n < 2; n++) {
    const InternalTimestamp start = n * kTicks;
    // The second unit is different from the first, if it has choices.
    if (n == 0 || ALL) {
      a = kind != 1 ? sym_choose("start", 3) : 0;
      z = kind == 0 ? sym_choose("end", 2) : 0;
      which = kind ? (int)sym_choose("blocks", 4) : 0;
    } else {
      a = kind != 1 ? (a + 1) % 3 : 0;
      z = kind == 0 ? 1 - z : 0;
      which = (which + 1) % 4;
    }
    const int cut = trimming.trim_beginning ? (int)a : 0, tail = trimming.trim_end ? (int)z : 0;
    IdLabeledFrameMap frames;
    for (int e = 0; e < 2; e++) frames[ElementId(e)] = Frame(e, a, z);
    frames[555] = Frame(1, a, z);
    std::list<ParameterBlockWithData> list;
    std::map<uint32_t, int> blocks;
    if (kind) {
      const int covered = which == 3 ? 2 : kTicks;
      for (size_t m = 0; m < plan.size(); m++)
        for (size_t s = 0; s < plan[m].size(); s++) {
          const auto mix = std::next(w.mixes.begin(), m);
          if (which != 1) { const uint32_t id = OutputGain(m, s); list.push_back(Block(id, start, mix->sub_mixes_[s].output_mix_gain, covered)); blocks[id] = covered; }
          if (which != 2 && !shared)
            for (size_t i = which == 3; i < plan[m][s].elements.size(); i++) { const uint32_t id = ElementGain(m, s, i); list.push_back(Block(id, start, mix->sub_mixes_[s].audio_elements[i].element_mix_gain, covered)); blocks[id] = covered; }
        }
    }
    sym_assert(f.PushTemporalUnit(frames, start, start + kTicks, list).ok(), "the unit is rendered");
    for (size_t m = 0; m < plan.size(); m++) {
      for (size_t s = 0; s < plan[m].size(); s++)
        for (size_t l = 0; l < plan[m][s].layouts.size(); l++) {
          const int layout = plan[m][s].layouts[l];
          const auto got = f.GetPostProcessedSamplesAsSpan(MixId(m), s, l);
          if (!Rendered(plan[m])) { sym_assert(!got.ok(), "a mix that is not rendered has no samples"); sym_reach("nothing"); continue; }
          sym_assert(got.ok(), "the samples are available");
          if (!got.ok()) return;
          if (layout == 2) { sym_assert(got->empty(), "nothing is rendered for it"); continue; }
          const Signals want = Expect(plan[m][s], m, s, layout, frames, blocks, shared, cut, tail);
          const Key k{MixId(m), s, l};
          if (gLog.count(k)) {
            sym_assert((int)gLog[k].processed.size() == n + 1, "every unit is processed once");
            Compare(gLog[k].processed.back(), want, "what is processed is the mix");
            Compare(Copy(*got), [&] { Signals x; for (int ch = 0; ch < Channels(layout); ch++) x.push_back({100.0 + ch}); return x; }(), "the processed samples are given out");
          } else {
            Compare(Copy(*got), want, "the samples are the mix");
          }
          sym_reach("mixed");
        }
      sym_assert(!f.GetPostProcessedSamplesAsSpan(MixId(m), plan[m].size(), 0).ok() && !f.GetPostProcessedSamplesAsSpan(MixId(m), 0, plan[m][0].layouts.size()).ok(), "only sub-mixes and layouts there are");
    }
    sym_assert(!f.GetPostProcessedSamplesAsSpan(8, 0, 0).ok(), "only mixes there are");
  }
  sym_assert(f.FinalizePushingTemporalUnits().ok(), "the end");
  for (auto& [k, log] : gLog) {
    sym_assert(log.flushed == 1 && log.processed.size() == 2, "every processor is flushed once");
    const auto got = f.GetPostProcessedSamplesAsSpan(k.mix, k.sub, k.layout);
    sym_assert(got.ok() && !got->empty() && (*got)[0].size() == 2 && (*got)[0][0] == 200.0, "what the flush produced is given out");
  }
}
// Loudness: measured on what is rendered, and written where it belongs.
void Loudness(int c) {
  const auto plan = Mixes(c);
  gSymLoudness = true;
  World w{*Lpcm(1, kTicks)};
  Build(w, plan, 0, false);
  for (auto& k : gWanted) gMeasured[k] = SymLoudness("measured");
  LayoutRendererFactory renderers(TrimmingSettings{});
  Calculators calculators;
  const int extra = (int)sym_choose("special", 4);
  if (extra == 1) calculators.skip = (int)gWanted.size() - 1;
  if (extra == 2) gFailing = (int)gWanted.size() - 1;
  const bool validate = sym_choose("validate", 2), disabled = extra == 3;
  auto made = Finalizer::Create(disabled ? nullptr : &renderers, &calculators, w.elements, Finalizer::ProduceNoSampleProcessors, w.mixes);
  sym_assert(made.ok(), "the mixes can be rendered");
  if (!made.ok()) return;
  Finalizer f = std::move(*made);
  sym_assert(gCalculators.size() == (disabled ? 0 : gWanted.size()), "every layout that can be rendered is measured");
  IdLabeledFrameMap frames;
  for (int e = 0; e < 2; e++) frames[ElementId(e)] = Frame(e, 1, 0);
  sym_assert(f.PushTemporalUnit(frames, 0, kTicks, {}).ok(), "the unit is rendered");
  std::map<Key, Signals> heard;
  for (size_t n = 0; n < gCalculators.size(); n++) {
    const Key k = gWanted[n];
    const int m = (int)(k.mix - 7) / 2;
    const Signals want = Expect(plan[m][k.sub], m, (int)k.sub, plan[m][k.sub].layouts[k.layout], frames, {}, false, 1, 0);
    if (calculators.skip == (int)n) { sym_assert(!gLog.count(k), "no calculator, no measurement"); continue; }
    sym_assert(gLog[k].measured.size() == 1, "what is rendered is measured once");
    if (gLog[k].measured.size() == 1) Compare(gLog[k].measured[0], want, "what is measured is the mix");
  }
  sym_assert(f.FinalizePushingTemporalUnits().ok(), "the end");
  bool match = true, fails = false;
  std::list<MixPresentationObu> want(w.mixes.begin(), w.mixes.end());
  for (size_t n = 0; n < gCalculators.size(); n++) {
    const Key k = gWanted[n];
    if (calculators.skip == (int)n) continue;
    if (gFailing == (int)n) { fails = true; continue; }
    auto& said = std::next(want.begin(), (k.mix - 7) / 2)->sub_mixes_[k.sub].layouts[k.layout].loudness;
    const auto& is = gMeasured[k];
    match &= said.integrated_loudness == is.integrated_loudness;
    match &= said.digital_peak == is.digital_peak;
    if (is.info_type & LoudnessInfo::kTruePeak) match &= said.true_peak == is.true_peak;
    said = is;
  }
  const auto got = f.GetFinalizedMixPresentationObus(validate);
  sym_assert(got.ok() == (!fails && (match || !validate)), "an error exactly if a measurement fails or, when validating, differs from what was said");
  sym_reach(got.ok() ? "loudness" : "differs");
  if (!got.ok()) return;
  sym_assert(got->size() == want.size(), "every mix is there");
  auto a = got->begin();
  bool same = true;
  for (auto b = want.begin(); a != got->end() && b != want.end(); ++a, ++b) {
    same &= a->GetMixPresentationId() == b->GetMixPresentationId() && a->sub_mixes_.size() == b->sub_mixes_.size();
    for (size_t s = 0; same && s < b->sub_mixes_.size(); s++) {
      same &= a->sub_mixes_[s].layouts.size() == b->sub_mixes_[s].layouts.size() && a->sub_mixes_[s].audio_elements == b->sub_mixes_[s].audio_elements && a->sub_mixes_[s].output_mix_gain == b->sub_mixes_[s].output_mix_gain;
      for (size_t l = 0; same && l < b->sub_mixes_[s].layouts.size(); l++) {
        const auto &x = a->sub_mixes_[s].layouts[l], &y = b->sub_mixes_[s].layouts[l];
        same &= (x.loudness_layout == y.loudness_layout) & (x.loudness.info_type == y.loudness.info_type) & (x.loudness.integrated_loudness == y.loudness.integrated_loudness) & (x.loudness.digital_peak == y.loudness.digital_peak) & (x.loudness.true_peak == y.loudness.true_peak);
      }
    }
  }
  sym_assert(same, "only the measured loudness is replaced");
}
// Calls in any order, and what cannot be mixed.
void Protocol(int c) {
  const auto plan = Mixes(0);
  World w{*Lpcm(1, kTicks)};
  Build(w, plan, 0, false);
  LayoutRendererFactory renderers(TrimmingSettings{});
  auto made = Finalizer::Create(c ? &renderers : nullptr, nullptr, w.elements, [&](DecodedUleb128 mix, size_t sub, size_t layout, const Layout&, int channels, int, int, size_t frame) -> std::unique_ptr<SampleProcessorBase> {
    const Key k{mix, sub, layout};
    gLog[k];
    return std::make_unique<Processor>(k, frame, channels);
  }, w.mixes);
  sym_assert(made.ok(), "made");
  if (!made.ok()) return;
  Finalizer f = std::move(*made);
  IdLabeledFrameMap frames;
  for (int e = 0; e < 2; e++) frames[ElementId(e)] = Frame(e, 0, 0);
  int state = 0, pushed = 0;
  for (int n = 0; n < OPS; n++) {
    const int op = (int)sym_choose("op", 4);
    if (op == 0) {
      sym_assert(f.PushTemporalUnit(frames, 0, kTicks, {}).ok() == (state == 0), "units are taken until the end");
      pushed += state == 0;
    } else if (op == 1) {
      sym_assert(f.FinalizePushingTemporalUnits().ok() == (state == 0), "there is one end");
      if (state == 0) state = 1;
    } else if (op == 2) {
      const auto got = f.GetFinalizedMixPresentationObus(sym_choose("validate", 2));
      sym_assert(got.ok() == (state == 1), "the mixes are given out once, after the end");
      if (got.ok()) { sym_assert(got->size() == 1 && got->front().sub_mixes_.size() == 1, "all of them"); state = 2; }
    } else {
      // A block that is not of this unit.
      std::list<ParameterBlockWithData> list;
      const int which = (int)sym_choose("late", 2);
      const int64_t shift = sym_i64("shift");
      sym_assume(shift != 0 && shift > -1000000 && shift < 1000000);
      list.push_back(Block(OutputGain(0, 0), 0, w.mixes.front().sub_mixes_[0].output_mix_gain, kTicks));
      if (which) list.back().end_timestamp += shift; else list.back().start_timestamp += shift;
      sym_assert(!f.PushTemporalUnit(frames, 0, kTicks, list).ok(), "parameters have the times of their unit");
    }
    for (auto& [k, log] : gLog) sym_assert((int)log.processed.size() == pushed && log.flushed == (state > 0), "refused units reach nothing");
  }
  sym_reach("protocol");
}
void Refused(int c) {
  auto plan = Mixes(1);
  World w{*Lpcm(1, kTicks)};
  const CodecConfigObu other = *Lpcm(2, c == 0 ? kTicks + 1 : kTicks, c == 1 ? 16000 : kRate, c == 2 ? 24 : 16);
  Build(w, plan, c == 3 ? ElementGain(0, 0, 1) : c == 4 ? OutputGain(0, 0) : 0, false);
  if (c < 3) w.elements.at(ElementId(1)).codec_config = &other;
  if (c == 5) w.elements.erase(ElementId(1));
  if (c == 6) w.mixes.front().sub_mixes_[0].audio_elements.clear();
  LayoutRendererFactory renderers(TrimmingSettings{});
  int depth = 0;
  auto made = Finalizer::Create(&renderers, nullptr, w.elements, [&](DecodedUleb128, size_t, size_t, const Layout&, int, int, int d, size_t) { depth = d; return nullptr; }, w.mixes);
  sym_assert(made.ok() == (c >= 2 && c <= 4), "elements of a sub-mix are known, and of the same frame size and rate");
  if (c == 2) sym_assert(depth == 16, "different sample sizes are rendered with 16 bits");
  sym_reach("refused");
  if (c < 3 || c > 4 || !made.ok()) return;
  IdLabeledFrameMap frames;
  for (int e = 0; e < 2; e++) frames[ElementId(e)] = Frame(e, 0, 0);
  sym_assert(!made->PushTemporalUnit(frames, 0, kTicks, {}).ok(), "gains at another rate are refused");
}
}  // namespace
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 3 * kPlans) { Sound(c); return; }
  c -= 3 * kPlans;
  if (c < kPlans) { Loudness(c); return; }
  c -= kPlans;
  if (c < 2) { Protocol(c); return; }
  Refused(c - 2);
}
