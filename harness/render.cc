// Rendering of one audio element: every output channel is the sum of the input
// channels weighted with the gains of the layout pair.
#include <algorithm>
#include <map>
#include "obu_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/renderer/audio_element_renderer_base.h"
#include "iamf/cli/renderer/gains/get_gains.h"
#include "iamf/cli/renderer_factory.h"
#include "iamf/obu/ambisonics_config.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/rendering_config.h"
using namespace vh;
using namespace iamf_tools;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using Labels = std::vector<Label>;
using Matrix = std::vector<std::vector<double>>;
using SS = LoudspeakersSsConventionLayout;
using Config = ChannelAudioLayerConfig;
namespace {
constexpr int kTicks = 2;
// Where each layout's channels are, and its name in the table of gains.
struct Order { const char* key; Labels labels; };
const Labels k7{kL7, kR7, kCentre, kLFE, kLss7, kRss7, kLrs7, kRrs7}, k5{kL5, kR5, kCentre, kLFE, kLs5, kRs5};
Labels Plus(Labels a, std::initializer_list<Label> b) { a.insert(a.end(), b); return a; }
Order Known(int layout) {
  switch (layout) {
    case 0: return {"0+1+0", {kMono}};
    case 1: return {"0+2+0", {kL2, kR2}};
    case 2: return {"0+5+0", k5};
    case 3: return {"2+5+0", Plus(k5, {kLtf2, kRtf2})};
    case 4: return {"4+5+0", Plus(k5, {kLtf4, kRtf4, kLtb4, kRtb4})};
    case 5: return {"0+7+0", k7};
    case 6: return {"7.1.2", Plus(k7, {kLtf2, kRtf2})};
    case 7: return {"4+7+0", Plus(k7, {kLtf4, kRtf4, kLtb4, kRtb4})};
    case 8: return {"3.1.2", {kL3, kR3, kCentre, kLFE, kLtf3, kRtf3}};
    case 9: return {"", {kL2, kR2}};  // Binaural.
    case 20: return {"9.1.6", {kFL, kFR, kFC, kLFE, kBL, kBR, kFLc, kFRc, kSiL, kSiR, kTpFL, kTpFR, kTpBL, kTpBR, kTpSiL, kTpSiR}};
    case 21: return {"9+10+3", {kFL, kFR, kFC, kLFE, kBL, kBR, kFLc, kFRc, kBC, kLFE2, kSiL, kSiR, kTpFL, kTpFR, kTpFC, kTpC, kTpBL, kTpBR, kTpSiL, kTpSiR, kTpBC, kBtFC, kBtFL, kBtFR}};
    default: return {"7.1.5.4", Plus(k7, {kLtf4, kRtf4, kLtb4, kRtb4, kTpC, kBtFL, kBtFR, kBtBL, kBtBR})};
  }
}
// Expanded layouts: the layout they are a part of and the channels they have (none: all).
struct Part { int of; Labels labels; };
Part Expanded(int e) {
  switch (e) {
    case 0: return {7, {kLFE}};
    case 1: return {4, {kLs5, kRs5}};
    case 2: return {7, {kLss7, kRss7}};
    case 3: return {7, {kLrs7, kRrs7}};
    case 4: return {7, {kLtf4, kRtf4}};
    case 5: return {7, {kLtb4, kRtb4}};
    case 6: return {7, {kLtf4, kRtf4, kLtb4, kRtb4}};
    case 7: return {7, {kL7, kR7, kCentre}};
    case 8: return {20, {}};
    case 9: return {20, {kFL, kFR}};
    case 10: return {20, {kSiL, kSiR}};
    case 11: return {20, {kTpSiL, kTpSiR}};
    case 12: return {20, {kTpFL, kTpFR, kTpSiL, kTpSiR, kTpBL, kTpBR}};
    case 13: return {21, {}};
    case 14: return {21, {kLFE, kLFE2}};
    case 15: return {21, {kBtFC, kBtFL, kBtFR}};
    case 16: return {22, {}};
    case 17: return {22, {kBtFL, kBtFR, kBtBL, kBtBR}};
    case 18: return {22, {kTpC}};
    default: return {22, {kLtf4, kRtf4, kLtb4, kRtb4, kTpC}};
  }
}
struct Speakers { const char* key; int channels; int same; };  // `same`: the layout of the same loudspeakers.
const Speakers kSpeakers[] = {{"0+2+0", 2, 1}, {"0+5+0", 6, 2}, {"2+5+0", 8, 3}, {"4+5+0", 10, 4}, {"4+5+1", 11, -1}, {"3+7+0", 12, -1}, {"4+9+0", 14, -1}, {"9+10+3", 24, 21}, {"0+7+0", 8, 5}, {"4+7+0", 12, 7}, {"7.1.2", 10, 6}, {"3.1.2", 6, 8}, {"0+1+0", 1, 0}, {"9.1.6", 16, 20}, {"7.1.5.4", 17, 22}};
constexpr int kSystems = 15;
Layout SpeakerLayout(int s) { return {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = SS{.sound_system = (SS::SoundSystem)s}}; }
// Channels of the output: a system of loudspeakers, or stereo instead of headphones.
int PickOutput(Layout& layout, bool& headphones) {
  const int s = (int)sym_choose("system", kSystems + 1);
  headphones = s == kSystems;
  if (!headphones) { layout = SpeakerLayout(s); return s; }
  layout = {.layout_type = Layout::kLayoutTypeBinaural, .specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = 0}};
  return 0;
}
Matrix Identity(size_t n) {
  Matrix m(n, std::vector<double>(n, 0.0));
  for (size_t i = 0; i < n; i++) m[i][i] = 1.0;
  return m;
}
// Twelve channels to fewer of them with the parameters of the stream.
Matrix Downmix(const DownMixingParams& p, bool to_312) {
  if (!to_312) {
    Matrix m = Identity(10);
    m.push_back(std::vector<double>(10, 0.0)); m[10][8] = p.gamma;
    m.push_back(std::vector<double>(10, 0.0)); m[11][9] = p.gamma;
    return m;
  }
  Matrix m(12, std::vector<double>(6, 0.0));
  for (int i = 0; i < 4; i++) m[i][i] = 1.0;
  for (int i = 0; i < 2; i++) {
    m[4 + i][i] = p.alpha * p.delta; m[4 + i][4 + i] = p.alpha * p.w * p.delta;
    m[6 + i][i] = p.beta * p.delta; m[6 + i][4 + i] = p.beta * p.w * p.delta;
    m[8 + i][4 + i] = 1.0;
    m[10 + i][4 + i] = p.gamma;
  }
  return m;
}
using Signal = std::vector<double>;
std::map<Label, Signal> gIn;
LabeledFrame Frame(const Labels& labels, int trim_start, int trim_end) {
  LabeledFrame f{.samples_to_trim_at_end = (uint32_t)trim_end, .samples_to_trim_at_start = (uint32_t)trim_start};
  gIn.clear();
  for (Label l : labels) {
    if (l == kOmitted || gIn.count(l)) continue;
    Signal s(kTicks);
    for (auto& x : s) x = sym_real("sample", -1.0, 1.0);
    gIn[l] = s;
    f.label_to_samples[l] = s;
  }
  auto weight = [](const char* name) { return sym_real(name, 0.0, 1.0); };
  f.demixing_params = {.alpha = weight("alpha"), .beta = weight("beta"), .gamma = weight("gamma"), .delta = weight("delta"), .w_idx_offset = 1, .w_idx_used = 3, .w = weight("w"), .in_bitstream = false};
  return f;
}
// Natively, without the freedom the solver may use to stay just outside.
bool Close(double a, double b) { const double d = a - b, e = sym_engine() ? 1e-6 : 1e-7; return d <= e && d >= -e; }
// Renders two frames in a row; the second must not see anything of the first.
void Check(AudioElementRendererBase& r, const LabeledFrame& f, const Labels& order, const Matrix& gains, int channels, int trim_start, int trim_end) {
  const int n = kTicks - trim_start - trim_end;
  for (int round = 0; round < 2; round++) {
    const auto got = r.RenderLabeledFrame(f);
    sym_assert(got.ok() && (int)*got == n, "a frame is rendered without its trimmed samples");
    if (!got.ok()) return;
    Matrix out(channels);
    r.Flush(out);
    sym_assert((int)out.size() == channels, "every loudspeaker has a channel");
    if ((int)out.size() != channels) return;
    for (int c = 0; c < channels; c++) {
      sym_assert((int)out[c].size() == n, "every channel has all samples");
      if ((int)out[c].size() != n) return;
      for (int t = 0; t < n; t++) {
        double want = 0.0;
        for (size_t i = 0; i < order.size(); i++)
          if (order[i] != kOmitted && gains[i][c] != 0.0) want += gIn[order[i]][trim_start + t] * gains[i][c];
        sym_assert(Close(out[c][t], want), "every sample is the weighted sum of the input channels");
      }
    }
  }
}
RenderingConfig Rendering() { return {.headphones_rendering_mode = RenderingConfig::kHeadphonesRenderingModeStereo}; }
void Channels(int c) {
  const bool expanded = c >= 10;
  Layout layout;
  bool headphones;
  const int s = PickOutput(layout, headphones);
  const Part part = expanded ? Expanded(c - 10) : Part{c, {}};
  Order in = Known(part.of);
  const Labels all = in.labels;
  if (!part.labels.empty())
    for (auto& l : in.labels) if (std::find(part.labels.begin(), part.labels.end(), l) == part.labels.end()) l = kOmitted;
  ScalableChannelLayoutConfig config;
  Config layer{};
  layer.loudspeaker_layout = expanded ? Config::kLayoutExpanded : (Config::LoudspeakerLayout)c;
  if (expanded) layer.expanded_loudspeaker_layout = (Config::ExpandedLoudspeakerLayout)(c - 10);
  // A lower layer may be all that is needed.
  const bool two = !expanded && c > 1 && c < 9 && c != 8 && sym_choose("layers", 2);
  if (two) { Config lower{}; lower.loudspeaker_layout = Config::kLayoutStereo; config.channel_audio_layer_configs.push_back(lower); }
  config.channel_audio_layer_configs.push_back(layer);
  const int trim_start = (int)sym_choose("start", 2), trim_end = trim_start ? 0 : (int)sym_choose("end", 2);
  Labels present = in.labels;
  if (two) present = Plus(present, {kL2, kR2});
  LabeledFrame f = Frame(present, trim_start, trim_end);
  f.demixing_params.in_bitstream = sym_choose("params", 2) != 0;
  RendererFactory factory;
  auto r = factory.CreateRendererForLayout({}, {}, AudioElementObu::kAudioElementChannelBased, config, Rendering(), layout, kTicks, 48000);
  Matrix gains;
  Labels order = in.labels;
  const bool binaural_element = c == 9;
  if (binaural_element && s == 0) gains = Identity(2);
  else if (kSpeakers[s].same == part.of) gains = Identity(all.size());
  else if (two && s == 0) { order = {kL2, kR2}; gains = Identity(2); }
  else if (!binaural_element) {
    const auto g = GetGainsForLayoutPair(in.key, kSpeakers[s].key);
    if (g.ok()) gains = *g;
    if (f.demixing_params.in_bitstream && part.of == 7 && (s == 10 || s == 11)) gains = Downmix(f.demixing_params, s == 11);
  }
  sym_assert((r != nullptr) == !gains.empty(), "a layout can be rendered exactly if there are gains for it");
  if (!r || gains.empty()) { sym_reach("impossible"); return; }
  Check(*r, f, order, gains, kSpeakers[s].channels, trim_start, trim_end);
  sym_reach("channels");
}
// Scenes: some channels absent, in any order of substreams.
void Scene(int c) {
  const int order_n = c % 5, n = (order_n + 1) * (order_n + 1);
  const bool projection = c >= 5;
  Layout layout;
  bool headphones;
  const int s = PickOutput(layout, headphones);
  char key[3] = {'A', (char)('0' + order_n), 0};
  const auto g = GetGainsForLayoutPair(key, kSpeakers[s].key);
  std::vector<DecodedUleb128> ids;
  SubstreamIdLabelsMap labels;
  auto acn = [](int i) { return *ChannelLabel::AmbisonicsChannelNumberToLabel(i); };
  Labels order;
  Matrix gains;
  std::optional<AmbisonicsConfig> config;
  if (!projection) {
    // Substream k carries channel `at[k]`; perhaps one channel is absent.
    const int shift = n > 1 ? (int)sym_choose("shift", 2) : 0, absent = n > 1 && sym_choose("absent", 2) ? n / 2 : -1;
    std::vector<uint8_t> mapping(n, 255);
    for (int k = 0; k < n; k++) {
      const int ch = (k + shift) % n;
      if (ch == absent) continue;
      mapping[ch] = (uint8_t)ids.size();
      labels[100 + ids.size()] = {acn(ch)};
      ids.push_back(100 + ids.size());
    }
    auto m = AmbisonicsMonoConfig::Create((uint8_t)ids.size(), mapping);
    sym_assert(m.ok(), "the configuration is valid");
    config = AmbisonicsConfig{.ambisonics_config = *m};
    for (int k = 0; k < n; k++) order.push_back(k == absent ? kOmitted : acn(k));
    if (g.ok()) gains = *g;
  } else {
    // A few coded channels; the first substreams have two.
    const int coupled = n > 1 ? 1 : 0, singles = 1, coded = 2 * coupled + singles;
    std::vector<int16_t> matrix;
    for (int i = 0; i < coded; i++) for (int k = 0; k < n; k++) matrix.push_back((int16_t)((i * 7919 + k * 4801 + 123) % 65536 - 32768));
    auto p = AmbisonicsProjectionConfig::Create((uint8_t)n, (uint8_t)(coupled + singles), (uint8_t)coupled, matrix);
    sym_assert(p.ok(), "the configuration is valid");
    config = AmbisonicsConfig{.ambisonics_config = *p};
    int next = 0;
    for (int k = 0; k < coupled + singles; k++) {
      ids.push_back(20 - k);
      for (int j = 0; j < (k < coupled ? 2 : 1); j++) { labels[20 - k].push_back(acn(next)); order.push_back(acn(next++)); }
    }
    if (g.ok()) {
      gains.assign(coded, std::vector<double>((*g)[0].size(), 0.0));
      for (int i = 0; i < coded; i++) for (size_t o = 0; o < gains[i].size(); o++) for (int k = 0; k < n; k++) gains[i][o] += matrix[i * n + k] / 32768.0 * (*g)[k][o];
    }
  }
  const int trim_start = (int)sym_choose("start", 2);
  const LabeledFrame f = Frame(order, trim_start, 0);
  RendererFactory factory;
  auto r = factory.CreateRendererForLayout(ids, labels, AudioElementObu::kAudioElementSceneBased, *config, Rendering(), layout, kTicks, 48000);
  sym_assert((r != nullptr) == !gains.empty(), "a layout can be rendered exactly if there are gains for it");
  if (!r || gains.empty()) { sym_reach("impossible"); return; }
  Check(*r, f, order, gains, kSpeakers[s].channels, trim_start, 0);
  sym_reach("scene");
}
}  // namespace
extern "C" void harness_main() {
  const int c = sym_case();
  if (c < 30) Channels(c); else Scene(c - 30);
}
