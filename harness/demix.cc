// Down-mixing a layout to its layers and demixing it again, over the reals.
#include "desc_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/demixing_manager.h"
#include "iamf/cli/downmixer.h"
#include "iamf/cli/downmixer_factory.h"
#include "iamf/cli/obu_with_data_generator.h"
using namespace vh;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using Labels = std::vector<Label>;
using Samples = std::vector<double>;
using DMix = DemixingInfoParameterData;
struct Chans { int s, l, h; };
static const Chans kChans[] = {{1, 0, 0}, {2, 0, 0}, {5, 1, 0}, {5, 1, 2}, {5, 1, 4}, {7, 1, 0}, {7, 1, 2}, {7, 1, 4}, {3, 1, 2}};
static bool Follows(int a, int b) { return a != b && kChans[b].s >= kChans[a].s && kChans[b].l >= kChans[a].l && kChans[b].h >= kChans[a].h; }
static std::vector<int> Chain(int first, int n) {
  std::vector<int> c{first};
  for (int i = 1; i < n; i++) {
    std::vector<int> next{-1};
    for (int l = 0; l < 9; l++) if (Follows(c.back(), l)) next.push_back(l);
    const int l = next[sym_choose("next", (unsigned)next.size())];
    if (l < 0) break;
    c.push_back(l);
  }
  return c;
}
// Pairs and single channels added by a layer; only their number matters here.
static std::pair<int, int> Counts(int before, int layout) {
  const Chans c = kChans[layout], a = before < 0 ? Chans{0, 0, 0} : kChans[before];
  const int all = c.s + c.l + c.h - a.s - a.l - a.h;
  int single = (c.l - a.l) + (c.s > 2 && a.s <= 2);
  if (before < 0) single += c.s == 1;
  else single += c.s >= 2 && a.s < 2;
  return {(all - single) / 2, single};
}
struct Element {
  std::vector<int> chain;
  Ids ids;
  AudioElementWithData data;
};
static Element Make(uint32_t id, const std::vector<int>& chain, uint32_t first_substream, const CodecConfigObu* codec) {
  ScalableChannelLayoutConfig config;
  Ids ids;
  for (size_t i = 0; i < chain.size(); i++) {
    const auto [pairs, single] = Counts(i ? chain[i - 1] : -1, chain[i]);
    ChannelAudioLayerConfig l{};
    l.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)chain[i];
    l.substream_count = (uint8_t)(pairs + single);
    l.coupled_substream_count = (uint8_t)pairs;
    config.channel_audio_layer_configs.push_back(l);
    for (int k = 0; k < pairs + single; k++) ids.push_back(first_substream + (uint32_t)ids.size());
  }
  auto obu = AudioElementObu::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), config);
  sym_assert(obu.ok(), "the element is made");
  DescriptorObus::CodecConfigsById codecs;
  codecs.insert({1, *codec});
  auto data = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *obu);
  sym_assert(data.ok(), "the element has its labels");
  data->codec_config = codec;
  return Element{chain, ids, std::move(*data)};
}
static DownMixingParams Params() {
  static const DMix::DMixPMode kModes[] = {DMix::kDMixPMode1, DMix::kDMixPMode2, DMix::kDMixPMode3, DMix::kDMixPMode1_n, DMix::kDMixPMode2_n, DMix::kDMixPMode3_n};
  DownMixingParams p;
  const unsigned mode = sym_choose("mode", 6);
  const auto status = DMix::DMixPModeToDownMixingParams(kModes[mode], WIDX(mode), DMix::kNormal, p);
  sym_assert(status.ok(), "the mode has parameters");
  return p;
}
static Labels Ear(int layout) {
  return *ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout((ChannelAudioLayerConfig::LoudspeakerLayout)layout, std::nullopt);
}
static bool Near(double a, double b) { return (a - b <= 1e-6) & (b - a <= 1e-6); }
// What each smaller layout should sound like, from the formulas of the specification.
static double At(const LabelSamplesMap& m, Label l, size_t t) { return m.at(l)[t]; }
static void CheckDownMix(const LabelSamplesMap& in, const LabelSamplesMap& out, const DownMixingParams& p, const SubstreamIdLabelsMap& labels, int top, size_t ticks) {
  const Chans c = kChans[top];
  for (size_t t = 0; t < ticks; t++) {
    double l = 0, r = 0, ls = 0, rs = 0, centre = 0, tl = 0, tr = 0;
    std::vector<std::pair<Label, double>> want;
    auto has = [&](Label a, double v) { want.push_back({a, v}); };
    int s = c.s;
    if (s == 7) {
      l = At(in, kL7, t); r = At(in, kR7, t);
      ls = p.alpha * At(in, kLss7, t) + p.beta * At(in, kLrs7, t);
      rs = p.alpha * At(in, kRss7, t) + p.beta * At(in, kRrs7, t);
      for (Label x : {kL7, kR7, kLss7, kRss7, kLrs7, kRrs7}) has(x, At(in, x, t));
    } else if (s == 5) {
      l = At(in, kL5, t); r = At(in, kR5, t); ls = At(in, kLs5, t); rs = At(in, kRs5, t);
    } else if (s == 3) {
      l = At(in, kL3, t); r = At(in, kR3, t);
    } else if (s == 2) {
      l = At(in, kL2, t); r = At(in, kR2, t);
    }
    if (s >= 5) { has(kL5, l); has(kR5, r); has(kLs5, ls); has(kRs5, rs); }
    if (s >= 3) centre = At(in, kCentre, t);
    if (c.h == 4) {
      for (Label x : {kLtf4, kRtf4, kLtb4, kRtb4}) has(x, At(in, x, t));
      tl = At(in, kLtf4, t) + p.gamma * At(in, kLtb4, t);
      tr = At(in, kRtf4, t) + p.gamma * At(in, kRtb4, t);
    } else if (c.h == 2) {
      tl = At(in, s == 3 ? kLtf3 : kLtf2, t);
      tr = At(in, s == 3 ? kRtf3 : kRtf2, t);
    }
    if (c.h && s != 3) { has(kLtf2, tl); has(kRtf2, tr); tl += p.w * p.delta * ls; tr += p.w * p.delta * rs; }
    if (c.h) { has(kLtf3, tl); has(kRtf3, tr); }
    if (s >= 5) { l += p.delta * ls; r += p.delta * rs; }
    if (s >= 3) { has(kL3, l); has(kR3, r); has(kCentre, centre); has(kLFE, At(in, kLFE, t)); l += 0.707 * centre; r += 0.707 * centre; }
    if (s >= 2) { has(kL2, l); has(kR2, r); has(kMono, 0.5 * (l + r)); }
    else has(kMono, At(in, kMono, t));
    for (const auto& [id, ls_of] : labels)
      for (Label x : ls_of) {
        const auto it = out.find(x);
        sym_assert(it != out.end() && it->second.size() == ticks, "each carried channel is mixed");
        bool found = false;
        for (const auto& [y, v] : want)
          if (x == y) { found = true; sym_assert(Near(it->second[t], v), "a carried channel is mixed as specified"); }
        sym_assert(found, "a carried channel is one of the layout's");
      }
  }
}
struct Frames {
  std::list<std::vector<Samples>> store;
  std::list<AudioFrameWithData> frames;
};
static void AddFrame(Frames& f, const Element& e, uint32_t substream, std::vector<Samples> samples, const DownMixingParams& p, int64_t start, bool decoded) {
  ObuHeader h = Hdr(kObuIaAudioFrame);
  h.num_samples_to_trim_at_end = 1;
  h.num_samples_to_trim_at_start = 2;
  f.store.push_back(std::move(samples));
  AudioFrameWithData a{.obu = AudioFrameObu(h, substream, {}), .start_timestamp = start, .end_timestamp = start + 16, .encoded_samples = std::nullopt, .down_mixing_params = p, .audio_element_with_data = &e.data};
  a.recon_gain_info_parameter_data.recon_gain_elements.resize(e.chain.size());
  if (decoded) a.decoded_samples = absl::MakeConstSpan(f.store.back());
  else a.encoded_samples = f.store.back();
  f.frames.push_back(std::move(a));
}
static std::vector<Samples> SamplesOf(const LabelSamplesMap& m, const std::list<Label>& labels) {
  std::vector<Samples> s;
  for (Label l : labels) s.push_back(m.at(l));
  return s;
}
static DemixingManager Manager(const std::vector<const Element*>& elements) {
  DescriptorObus::AudioElementsById by_id;
  for (const Element* e : elements) by_id.insert({e->data.obu.GetAudioElementId(), e->data});
  auto m = DemixingManager::Create(DemixingManager::CreateIdToReconstructionConfig(by_id));
  sym_assert(m.ok(), "the demixing manager is made");
  return std::move(*m);
}
static LabelSamplesMap Original(int top, size_t ticks) {
  LabelSamplesMap m;
  for (Label l : Ear(top)) {
    Samples& s = m[l];
    for (size_t t = 0; t < ticks; t++) s.push_back(sym_real("x", -1, 1));
  }
  return m;
}
static bool Mix(const Element& e, const DownMixingParams& p, LabelSamplesMap& m) {
  absl::flat_hash_set<Label> have;
  for (const auto& [l, s] : m) have.insert(l);
  auto mixers = DownmixerFactory::CreateScalableChannelDownmixers(have, e.data.substream_id_to_labels);
  sym_assert(mixers.ok(), "there are down-mixers");
  for (auto& mixer : *mixers) if (!mixer(p, m).ok()) return false;
  return true;
}
static void CheckRebuilt(const Element& e, const LabelSamplesMap& original, const LabeledFrame& f, const DownMixingParams& p, size_t ticks, bool decoded) {
  for (Label l : Ear(e.chain.back())) {
    absl::Span<const double> got;
    sym_assert(FindSamplesOrDemixedSamples(l, f.label_to_samples, got).ok() && got.size() == ticks, "every channel of the layout is rebuilt");
    for (size_t t = 0; t < ticks; t++) sym_assert(Near(got[t], original.at(l)[t]), "a rebuilt channel is the original one");
  }
  sym_assert(f.samples_to_trim_at_end == 1 && f.samples_to_trim_at_start == 2 && f.demixing_params.alpha == p.alpha && f.demixing_params.w == p.w, "trimming and parameters are passed on");
  if (decoded) {
    bool same = f.loudspeaker_layout_per_layer.size() == e.chain.size() && f.recon_gain_info_parameter_data.recon_gain_elements.size() == e.chain.size();
    for (size_t i = 0; same && i < e.chain.size(); i++) same = f.loudspeaker_layout_per_layer[i] == e.chain[i];
    sym_assert(same, "layouts and recon gains are passed on");
  }
}
static void RoundTripOf(int first, int n) {
  auto codec = Lpcm(1, 16);
  const Element e = Make(9, Chain(first, n), 30, &*codec);
  const DownMixingParams p = Params();
  const LabelSamplesMap original = Original(e.chain.back(), TICKS);
  LabelSamplesMap m = original;
  sym_assert(Mix(e, p, m), "the layout is down-mixed");
  CheckDownMix(original, m, p, e.data.substream_id_to_labels, e.chain.back(), TICKS);
  Frames f;
  const bool decoded = sym_choose("decoded", 2);
  for (size_t i = 0; i < e.ids.size(); i++) {
    const uint32_t id = e.ids[decoded ? i : e.ids.size() - 1 - i];
    AddFrame(f, e, id, SamplesOf(m, e.data.substream_id_to_labels.at(id)), p, 32, decoded);
  }
  const DemixingManager manager = Manager({&e});
  auto r = decoded ? manager.DemixDecodedAudioSamples(f.frames) : manager.DemixOriginalAudioSamples(f.frames);
  sym_assert(r.ok() && r->size() == 1, "the layout is rebuilt");
  CheckRebuilt(e, original, r->at(9), p, TICKS, decoded);
  sym_reach("rebuilt");
}
// Channels that rebuilding depends on.
static Labels Needed(const std::vector<int>& chain) {
  const Chans a = kChans[chain.front()], b = kChans[chain.back()];
  Labels n;
  auto add = [&](std::initializer_list<Label> l) { n.insert(n.end(), l.begin(), l.end()); };
  // The layers in between count too: what a chain carries starts at its first layer.
  if (a.s < 2 && b.s >= 2) add({kMono, kL2});
  if (a.s < 3 && b.s >= 3) add({kL2, kR2, kCentre});
  if (a.s < 5 && b.s >= 5) add({kL3, kR3, kL5, kR5});
  if (a.s < 7 && b.s >= 7) add({kL5, kR5, kLs5, kRs5, kLss7, kRss7});
  bool tf = false, t2 = false;
  int h = 0;
  for (int l : chain) {
    if (h == 0 && kChans[l].h == 2) (kChans[l].s == 3 ? tf : t2) = true;
    if (kChans[l].h > h) h = kChans[l].h;
  }
  if (tf && b.s >= 5) add({kLtf3, kRtf3, kL3, kR3, kL5, kR5});
  if ((tf || t2) && b.h == 4) add({kLtf2, kRtf2, kLtf4, kRtf4});
  return n;
}
static void Broken(int first) {
  auto codec = Lpcm(1, 16);
  const Element e = Make(9, Chain(first, 3), 30, &*codec);
  const Element other = Make(10, {1}, 90, &*codec);
  DownMixingParams p;
  (void)DMix::DMixPModeToDownMixingParams(DMix::kDMixPMode3, 4, DMix::kNormal, p);
  LabelSamplesMap m;
  for (const auto& [id, labels] : e.data.substream_id_to_labels) for (Label l : labels) m[l] = {0.5, 0.25};
  const unsigned how = sym_choose("how", 7);
  const size_t which = sym_choose("which", (unsigned)e.ids.size());
  Frames f;
  bool want = true, absent = false;
  // Frames of another element and of no element at all.
  AddFrame(f, other, 90, {{0.125}, {0.0625}}, p, 32, true);
  AddFrame(f, other, 77, {{}, {}, {}}, p, 5, true);
  const Labels needed = Needed(e.chain);
  for (size_t i = 0; i < e.ids.size(); i++) {
    const auto& labels = e.data.substream_id_to_labels.at(e.ids[i]);
    auto s = SamplesOf(m, labels);
    int64_t start = 32;
    if (i == which) {
      if (how == 0) {
        absent = true;
        for (Label l : labels) for (Label x : needed) want &= l != x;
        continue;
      }
      if (how == 1) { s.back().push_back(0.5); want = labels.size() == 1 && e.ids.size() == 1; }
      if (how == 2) { start = sym_i64("start"); want = start == 32; }
      if (how == 3) { s.push_back(s[0]); want = false; }
      if (how == 4) { s.clear(); want = false; }
      if (how == 5) { if (labels.size() == 2) s.pop_back(); want = labels.size() == 1; }
    }
    AddFrame(f, e, e.ids[i], s, p, start, true);
  }
  if (how == 6) for (auto& frame : f.frames) frame.encoded_samples = std::nullopt;
  const DemixingManager manager = Manager({&e, &other});
  auto r = how == 6 ? manager.DemixOriginalAudioSamples(f.frames) : manager.DemixDecodedAudioSamples(f.frames);
  if (how == 6) want = false;
  sym_assert(r.ok() == want, "substreams that do not fit or are needed and missing are errors");
  if (!r.ok()) { sym_reach("error"); return; }
  const bool nothing = absent && e.ids.size() == 1;
  sym_assert(r->size() == (nothing ? 1 : 2) && r->at(10).label_to_samples.at(kR2) == Samples{0.0625}, "each element is rebuilt from its own substreams");
  if (absent && !nothing) {
    absl::Span<const double> got;
    for (Label l : e.data.substream_id_to_labels.at(e.ids[which])) sym_assert(!FindSamplesOrDemixedSamples(l, r->at(9).label_to_samples, got).ok(), "a missing channel is not made up");
  }
  sym_reach("fine");
}
// Parameters that cannot be undone.
static void Degenerate(int first) {
  auto codec = Lpcm(1, 16);
  const Element e = Make(9, Chain(first, 2), 30, &*codec);
  DownMixingParams p{.alpha = 1, .beta = 0.5, .gamma = 0.5, .delta = 0.5, .w = 0.25};
  const unsigned how = sym_choose("how", 3);
  const double tiny[] = {0.0, 9e-6, -9e-6, 2e-5, -2e-5};
  const unsigned v = sym_choose("tiny", 5);
  (how == 0 ? p.beta : how == 1 ? p.gamma : p.delta) = tiny[v];
  const Chans a = kChans[e.chain.front()], b = kChans[e.chain.back()];
  const bool used = e.chain.size() > 1 && (how == 0 ? a.s < 7 && b.s == 7 : how == 1 ? a.h == 2 && b.h == 4 : a.s < 5 && b.s >= 5);
  Frames f;
  for (uint32_t id : e.ids) AddFrame(f, e, id, std::vector<Samples>(e.data.substream_id_to_labels.at(id).size(), Samples{0.5}), p, 0, true);
  auto r = Manager({&e}).DemixDecodedAudioSamples(f.frames);
  sym_assert(r.ok() == !(used && v < 3), "a gain near zero cannot be undone");
  sym_reach(r.ok() ? "undone" : "degenerate");
}
// Down-mixing with channels absent or of different lengths.
static void BadInput(int first) {
  auto codec = Lpcm(1, 16);
  const Element e = Make(9, Chain(first, 2), 30, &*codec);
  DownMixingParams p;
  (void)DMix::DMixPModeToDownMixingParams(DMix::kDMixPMode1, 0, DMix::kNormal, p);
  const Labels ear = Ear(e.chain.back());
  const Label victim = ear[sym_choose("victim", (unsigned)ear.size())];
  const bool drop = sym_choose("drop", 2);
  LabelSamplesMap m;
  for (Label l : ear) m[l] = {0.5, 0.25};
  absl::flat_hash_set<Label> have;
  for (Label l : ear) have.insert(l);
  auto mixers = DownmixerFactory::CreateScalableChannelDownmixers(have, e.data.substream_id_to_labels);
  if (drop) m.erase(victim);
  else m[victim].push_back(0.5);
  bool ok = mixers.ok();
  if (ok) for (auto& mixer : *mixers) if (!mixer(p, m).ok()) { ok = false; break; }
  const Chans a = kChans[e.chain.front()], b = kChans[e.chain.back()];
  // Channels that take part in a down-mix.
  bool used = false;
  auto uses = [&](std::initializer_list<Label> l) { for (Label x : l) used |= x == victim; };
  if (b.s == 7 && a.s < 7) uses({kL7, kR7, kLss7, kRss7, kLrs7, kRrs7});
  if (b.s == 5 && a.s < 5) uses({kL5, kR5, kLs5, kRs5});
  if (b.s >= 3 && a.s < 3) uses({kCentre});
  if (b.s == 3 && a.s < 3) uses({kL3, kR3});
  if (b.s == 2 && a.s < 2) uses({kL2, kR2});
  if (b.h == 4 && (a.h == 2)) uses({kLtf4, kRtf4, kLtb4, kRtb4});
  if (b.h == 2 && b.s >= 5 && a.h == 2 && a.s == 3) uses({kLtf2, kRtf2});
  sym_assert(ok == !used, "channels that are missing or of another length are errors");
  sym_reach(ok ? "unused" : "bad_input");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 9) { RoundTripOf(c, DEPTH); return; }
  c -= 9;
  if (c < 9) { Broken(c); return; }
  c -= 9;
  if (c < 9) { Degenerate(c); return; }
  c -= 9;
  BadInput(c);
}
