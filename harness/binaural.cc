// Binaural rendering: the third-party renderer is set up for the element, gets
// exactly the samples of the frame, and what it returns is what comes out.
#include <algorithm>
#include <map>
#include "obu_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/renderer/audio_element_renderer_binaural.h"
#include "iamf/obu/ambisonics_config.h"
#include "iamf/obu/audio_element.h"
#include "obr/renderer/obr_impl.h"
using namespace vh;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using Labels = std::vector<Label>;
using Config = ChannelAudioLayerConfig;
using Type = obr::AudioElementType;
using Signal = std::vector<double>;
namespace {
constexpr int kTicks = 32;
// What the stand-in saw.
int made, frames_said, rate_said, added, processed;
Type type_said;
bool refuse, misuse;
size_t inputs;
std::vector<Signal> heard, said;
const Labels k7{kL7, kR7, kCentre, kLFE, kLss7, kRss7, kLrs7, kRrs7}, k5{kL5, kR5, kCentre, kLFE, kLs5, kRs5};
Labels Plus(Labels a, std::initializer_list<Label> b) { a.insert(a.end(), b); return a; }
struct Known { Type type; Labels labels; };
Known Layout(int layout) {
  switch (layout) {
    case 0: return {Type::kLayoutMono, {kMono}};
    case 1: return {Type::kLayoutStereo, {kL2, kR2}};
    case 2: return {Type::kLayout5_1_0_ch, k5};
    case 3: return {Type::kLayout5_1_2_ch, Plus(k5, {kLtf2, kRtf2})};
    case 4: return {Type::kLayout5_1_4_ch, Plus(k5, {kLtf4, kRtf4, kLtb4, kRtb4})};
    case 5: return {Type::kLayout7_1_0_ch, k7};
    case 6: return {Type::kLayout7_1_2_ch, Plus(k7, {kLtf2, kRtf2})};
    case 7: return {Type::kLayout7_1_4_ch, Plus(k7, {kLtf4, kRtf4, kLtb4, kRtb4})};
    case 8: return {Type::kLayout3_1_2_ch, {kL3, kR3, kCentre, kLFE, kLtf3, kRtf3}};
    default: return {Type::kInvalidType, {}};
  }
}
// Samples are free near both ends of the frame.
double Sample(int c, int t) { return t < 2 || t >= kTicks - 2 ? sym_real("sample", -1.0, 1.0) : (c * kTicks + t + 1) / 2048.0; }
bool Close(double a, double b) { const double d = a - b, e = sym_engine() ? 1e-5 : 1e-6; return d <= e && d >= -e; }
}  // namespace
namespace obr {
ObrImpl::ObrImpl(int frames, int rate) {
  made++;
  frames_said = frames;
  rate_said = rate;
}
absl::Status ObrImpl::AddAudioElement(AudioElementType type) {
  added++;
  type_said = type;
  return refuse ? absl::UnimplementedError("type") : absl::OkStatus();
}
size_t ObrImpl::GetNumberOfInputChannels() const { return inputs; }
size_t ObrImpl::GetNumberOfOutputChannels() const { return 2; }
void ObrImpl::Process(const AudioBuffer& input, AudioBuffer* output) {
  processed++;
  misuse = misuse || input.num_channels() != inputs || input.num_frames() != (size_t)frames_said || output->num_channels() != 2 || output->num_frames() != (size_t)frames_said;
  heard.clear();
  said.assign(2, {});
  if (misuse) return;
  for (size_t c = 0; c < inputs; c++) heard.emplace_back(input[c].begin(), input[c].end());
  for (int c = 0; c < 2; c++)
    for (int t = 0; t < frames_said; t++) {
      said[c].push_back(t < 2 || t == frames_said - 1 ? sym_real("ear", -2.0, 2.0) : (processed * 64 + c * 32 + t) / 512.0);
      (*output)[c][t] = (float)said[c][t];
    }
}
}  // namespace obr
namespace {
// `matrix[i][o]` is the gain of input channel i on the renderer's channel o.
void Run(AudioElementRendererBinaural& r, const Labels& order, const std::vector<std::vector<double>>& matrix) {
  std::vector<Signal> out;
  std::vector<Signal> want(2);
  const int calm = (int)sym_choose("calm", 2);  // The frame which is trimmed.
  for (int round = 0; round < 2; round++) {
    std::map<Label, Signal> in;
    LabeledFrame f{};
    if (round == calm) {
      static const int kStart[] = {0, 1, 0, 2, 30, 32}, kEnd[] = {0, 0, 1, 29, 1, 0};
      const int k = (int)sym_choose("trim", 6);
      f.samples_to_trim_at_start = kStart[k];
      f.samples_to_trim_at_end = kEnd[k];
    }
    int at = 0;
    for (Label l : order) {
      if (l == kOmitted || in.count(l)) continue;
      Signal s(kTicks);
      for (int t = 0; t < kTicks; t++) s[t] = Sample(at, t);
      at++;
      in[l] = s;
      f.label_to_samples[l] = s;
    }
    const int start = (int)f.samples_to_trim_at_start, n = kTicks - start - (int)f.samples_to_trim_at_end;
    const int before = processed;
    const auto got = r.RenderLabeledFrame(f);
    sym_assert(got.ok() && (int)*got == n, "a frame is rendered without its trimmed samples");
    if (!got.ok()) return;
    sym_assert(!misuse && processed == before + 1, "the renderer is given one frame of the size it was made for");
    if (misuse || processed != before + 1) return;
    bool same = true, silent = true;
    for (size_t o = 0; o < inputs; o++)
      for (int t = 0; t < kTicks; t++) {
        double v = 0.0;
        for (size_t i = 0; i < order.size() && t < n; i++)
          if (order[i] != kOmitted && matrix[i][o] != 0.0) v += in[order[i]][start + t] * matrix[i][o];
        if (t < n) same = same & Close(heard[o][t], v);
        else silent = silent & Close(heard[o][t], 0.0);
      }
    sym_assert(same, "the renderer gets the samples of the frame, each on its channel");
    sym_assert(silent, "nothing of other frames is rendered behind a trimmed one");
    for (int e = 0; e < 2; e++) want[e].insert(want[e].end(), said[e].begin(), said[e].begin() + n);
    r.Flush(out);
    sym_reach(n == kTicks ? "whole" : "trimmed");
  }
  sym_assert(out.size() == 2 && out[0].size() == want[0].size() && out[1].size() == want[1].size(), "two channels of the samples not trimmed");
  if (out.size() != 2 || out[0].size() != want[0].size() || out[1].size() != want[1].size()) return;
  bool same = true;
  for (int e = 0; e < 2; e++)
    for (size_t t = 0; t < want[e].size(); t++) same = same & Close(out[e][t], want[e][t]);
  sym_assert(same, "what the renderer returns is what comes out");
}
std::vector<std::vector<double>> Identity(const Labels& order) {
  std::vector<std::vector<double>> m(order.size(), std::vector<double>(order.size(), 0.0));
  for (size_t i = 0; i < order.size(); i++) m[i][i] = 1.0;
  return m;
}
// Which sizes and rates are supported.
void Arguments(int which) {
  static const size_t kSizes[] = {0, 31, 32, 33, 16384, 16385, (size_t)-1};
  const size_t size = kSizes[which % 7];
  const size_t rate = sym_choose("rate", 2) ? 48000 : 0;
  refuse = sym_choose("refuse", 2);
  inputs = 1;
  Config l{};
  l.loudspeaker_layout = Config::kLayoutMono;
  std::unique_ptr<AudioElementRendererBinaural> r;
  if (which < 7) {
    r = AudioElementRendererBinaural::CreateFromScalableChannelLayoutConfig(ScalableChannelLayoutConfig{.channel_audio_layer_configs = {l}}, size, rate);
  } else {
    inputs = 4;
    std::vector<uint8_t> mapping{0, 1, 2, 3};
    auto m = AmbisonicsMonoConfig::Create(4, mapping);
    SubstreamIdLabelsMap labels;
    std::vector<DecodedUleb128> ids;
    for (int i = 0; i < 4; i++) { ids.push_back(i); labels[i] = {*ChannelLabel::AmbisonicsChannelNumberToLabel(i)}; }
    r = AudioElementRendererBinaural::CreateFromAmbisonicsConfig(AmbisonicsConfig{.ambisonics_config = *m}, ids, labels, size, rate);
  }
  const bool fits = size >= 32 && size <= 16384 && rate > 0;
  sym_assert((r != nullptr) == (fits && !refuse), "a renderer is made exactly for supported sizes, rates and elements");
  if (r) sym_assert(made == 1 && (size_t)frames_said == size && (size_t)rate_said == rate, "it is set up for this size and rate");
  sym_reach(r ? "made" : "refused");
}
void Channels(int c) {
  Config l{}, lower{};
  l.loudspeaker_layout = (Config::LoudspeakerLayout)c;
  if (c == 15 && sym_choose("expanded", 2)) l.expanded_loudspeaker_layout = (Config::ExpandedLoudspeakerLayout)sym_choose("which", 13);
  lower.loudspeaker_layout = Config::kLayoutMono;
  ScalableChannelLayoutConfig config;
  if (c != 15 && sym_choose("layers", 2)) config.channel_audio_layer_configs.push_back(lower);
  config.channel_audio_layer_configs.push_back(l);
  const Known known = Layout(c);
  inputs = known.labels.size();
  auto r = AudioElementRendererBinaural::CreateFromScalableChannelLayoutConfig(config, kTicks, 44100);
  sym_assert((r != nullptr) == !known.labels.empty(), "a renderer is made exactly for supported sizes, rates and elements");
  if (!r || known.labels.empty()) { sym_reach("unsupported"); return; }
  sym_assert(made == 1 && added == 1 && type_said == known.type && frames_said == kTicks && rate_said == 44100, "the renderer is set up for the element");
  Run(*r, known.labels, Identity(known.labels));
  sym_reach("channels");
}
void Scene(int c) {
  const int order_n = c % 6, n = (order_n + 1) * (order_n + 1);
  const bool projection = c >= 6;
  std::vector<DecodedUleb128> ids;
  SubstreamIdLabelsMap labels;
  auto acn = [](int i) { auto l = ChannelLabel::AmbisonicsChannelNumberToLabel(i); return l.ok() ? *l : kOmitted; };
  Labels order;
  std::vector<std::vector<double>> gains;
  std::optional<AmbisonicsConfig> config;
  if (!projection) {
    const int shift = n > 1 ? (int)sym_choose("shift", 2) : 0, absent = n > 1 && sym_choose("absent", 2) ? n / 2 : -1;
    std::vector<uint8_t> mapping(n, 255);
    for (int k = 0; k < n; k++) {
      const int ch = (k + shift) % n;
      if (ch == absent) continue;
      mapping[ch] = (uint8_t)ids.size();
      labels[100 + ids.size()] = {acn(ch)};
      ids.push_back(100 + ids.size());
    }
    auto m = AmbisonicsMonoConfig::Create((uint8_t)ids.size(), mapping);
    sym_assert(m.ok(), "the configuration is valid");
    if (!m.ok()) return;
    config = AmbisonicsConfig{.ambisonics_config = *m};
    for (int k = 0; k < n; k++) order.push_back(k == absent ? kOmitted : acn(k));
    gains = Identity(order);
  } else {
    const int coupled = n > 1 ? 1 : 0, singles = 1, coded = 2 * coupled + singles;
    std::vector<int16_t> matrix;
    for (int i = 0; i < coded; i++) for (int k = 0; k < n; k++) matrix.push_back((int16_t)((i * 7919 + k * 4801 + 123) % 65536 - 32768));
    auto p = AmbisonicsProjectionConfig::Create((uint8_t)n, (uint8_t)(coupled + singles), (uint8_t)coupled, matrix);
    sym_assert(p.ok(), "the configuration is valid");
    if (!p.ok()) return;
    config = AmbisonicsConfig{.ambisonics_config = *p};
    int next = 0;
    for (int k = 0; k < coupled + singles; k++) {
      ids.push_back(20 - k);
      for (int j = 0; j < (k < coupled ? 2 : 1); j++) { labels[20 - k].push_back(acn(next)); order.push_back(acn(next++)); }
    }
    gains.assign(coded, std::vector<double>(n, 0.0));
    for (int i = 0; i < coded; i++) for (int k = 0; k < n; k++) gains[i][k] = matrix[i * n + k] / 32768.0;
  }
  inputs = n;
  auto r = AudioElementRendererBinaural::CreateFromAmbisonicsConfig(*config, ids, labels, kTicks, 96000);
  const bool supported = order_n >= 1 && order_n <= 4;
  sym_assert((r != nullptr) == supported, "a renderer is made exactly for supported sizes, rates and elements");
  if (!r || !supported) { sym_reach("unsupported"); return; }
  static const Type kTypes[] = {Type::k1OA, Type::k2OA, Type::k3OA, Type::k4OA};
  sym_assert(made == 1 && added == 1 && type_said == kTypes[order_n - 1] && frames_said == kTicks && rate_said == 96000, "the renderer is set up for the element");
  Run(*r, order, gains);
  sym_reach(projection ? "projection" : "scene");
}
}  // namespace
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 14) { Arguments(c); return; }
  c -= 14;
  if (c < 16) { Channels(c); return; }
  Scene(c - 16);
}
