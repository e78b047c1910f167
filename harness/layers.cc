// Channels of an audio element: which substream carries which channels.
#include "desc_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/obu_with_data_generator.h"
using namespace vh;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using Labels = std::vector<Label>;
struct Chans { int s, l, h; };
// Surround, LFE and height channels of each layout.
static const Chans kChans[] = {{1, 0, 0}, {2, 0, 0}, {5, 1, 0}, {5, 1, 2}, {5, 1, 4}, {7, 1, 0}, {7, 1, 2}, {7, 1, 4}, {3, 1, 2}, {2, 0, 0}};
struct Layer { Labels pairs, singles; };
static void Add(Labels& to, std::initializer_list<Label> l) { to.insert(to.end(), l.begin(), l.end()); }
// The channels a layer adds: coupled ones first, front before side before rear before top, then centre, LFE and left.
static Layer First(Chans c) {
  Layer r;
  if (c.s == 1) Add(r.singles, {kMono});
  if (c.s == 2) Add(r.pairs, {kL2, kR2});
  if (c.s == 3) Add(r.pairs, {kL3, kR3});
  if (c.s == 5) Add(r.pairs, {kL5, kR5, kLs5, kRs5});
  if (c.s == 7) Add(r.pairs, {kL7, kR7, kLss7, kRss7, kLrs7, kRrs7});
  if (c.s > 2) Add(r.singles, {kCentre});
  if (c.h == 2 && c.s == 3) Add(r.pairs, {kLtf3, kRtf3});
  if (c.h == 2 && c.s != 3) Add(r.pairs, {kLtf2, kRtf2});
  if (c.h == 4) Add(r.pairs, {kLtf4, kRtf4, kLtb4, kRtb4});
  if (c.l) Add(r.singles, {kLFE});
  return r;
}
static Layer Next(Chans a, Chans b) {
  Layer r;
  if (a.s < 5 && b.s >= 5) Add(r.pairs, {kL5, kR5});
  if (a.s < 7 && b.s >= 7) Add(r.pairs, {kLss7, kRss7});
  if (a.h == 0 && b.h == 2 && b.s == 3) Add(r.pairs, {kLtf3, kRtf3});
  if (a.h == 0 && b.h == 2 && b.s != 3) Add(r.pairs, {kLtf2, kRtf2});
  if (a.h < b.h && b.h == 4) Add(r.pairs, {kLtf4, kRtf4});
  if (a.h == 0 && b.h == 4) Add(r.pairs, {kLtb4, kRtb4});
  if (a.s < 3 && b.s >= 3) Add(r.singles, {kCentre});
  if (a.l < b.l) Add(r.singles, {kLFE});
  if (a.s < 2 && b.s >= 2) Add(r.singles, {kL2});
  return r;
}
// Expanded layouts: coupled and single channels; all of them in ear order are checked against the same sets.
struct Expanded { Layer labels; ChannelNumbers numbers; bool known; };
static Expanded Expand(int e) {
  const Labels k916{kFLc, kFRc, kFL, kFR, kSiL, kSiR, kBL, kBR, kTpFL, kTpFR, kTpSiL, kTpSiR, kTpBL, kTpBR};
  Labels k10293 = k916, k7154{kL7, kR7, kLss7, kRss7, kLrs7, kRrs7, kLtf4, kRtf4, kLtb4, kRtb4, kBtFL, kBtFR, kBtBL, kBtBR};
  Add(k10293, {kBtFL, kBtFR});
  switch (e) {
    case 0: return {{{}, {kLFE}}, {0, 1, 0, 0}, true};
    case 1: return {{{kLs5, kRs5}, {}}, {2, 0, 0, 0}, true};
    case 2: return {{{kLss7, kRss7}, {}}, {2, 0, 0, 0}, true};
    case 3: return {{{kLrs7, kRrs7}, {}}, {2, 0, 0, 0}, true};
    case 4: return {{{kLtf4, kRtf4}, {}}, {0, 0, 2, 0}, true};
    case 5: return {{{kLtb4, kRtb4}, {}}, {0, 0, 2, 0}, true};
    case 6: return {{{kLtf4, kRtf4, kLtb4, kRtb4}, {}}, {0, 0, 4, 0}, true};
    case 7: return {{{kL7, kR7}, {kCentre}}, {3, 0, 0, 0}, true};
    case 8: return {{k916, {kFC, kLFE}}, {9, 1, 6, 0}, true};
    case 9: return {{{kFL, kFR}, {}}, {2, 0, 0, 0}, true};
    case 10: return {{{kSiL, kSiR}, {}}, {2, 0, 0, 0}, true};
    case 11: return {{{kTpSiL, kTpSiR}, {}}, {0, 0, 2, 0}, true};
    case 12: return {{{kTpFL, kTpFR, kTpSiL, kTpSiR, kTpBL, kTpBR}, {}}, {0, 0, 6, 0}, true};
    case 13: return {{k10293, {kFC, kBC, kTpFC, kTpC, kTpBC, kBtFC, kLFE, kLFE2}}, {10, 2, 9, 3}, true};
    case 14: return {{{}, {kLFE, kLFE2}}, {0, 2, 0, 0}, true};
    case 15: return {{{kBtFL, kBtFR}, {kBtFC}}, {0, 0, 0, 3}, true};
    case 16: return {{k7154, {kCentre, kTpC, kLFE}}, {7, 1, 5, 4}, true};
    case 17: return {{{kBtFL, kBtFR, kBtBL, kBtBR}, {}}, {0, 0, 0, 4}, true};
    case 18: return {{{}, {kTpC}}, {0, 0, 1, 0}, true};
    case 19: return {{{kLtf4, kRtf4, kLtb4, kRtb4}, {kTpC}}, {0, 0, 5, 0}, true};
    case 20: case 255: return {{}, {0, 0, 0, 0}, true};
  }
  return {{}, {}, false};
}
static Label Paired(Label l) {  // The right channel of a left one.
  switch (l) {
    case kL2: return kR2; case kL3: return kR3; case kL5: return kR5; case kLs5: return kRs5; case kL7: return kR7;
    case kLss7: return kRss7; case kLrs7: return kRrs7; case kLtf2: return kRtf2; case kLtf3: return kRtf3; case kLtf4: return kRtf4;
    case kLtb4: return kRtb4; case kFLc: return kFRc; case kFL: return kFR; case kSiL: return kSiR; case kBL: return kBR;
    case kTpFL: return kTpFR; case kTpSiL: return kTpSiR; case kTpBL: return kTpBR; case kBtFL: return kBtFR; case kBtBL: return kBtBR;
    default: return kOmitted;
  }
}
// Bit of output_gain_flag that covers a channel, or -1.
static int GainBit(Label l) {
  switch (l) {
    case kMono: case kL2: case kL3: return 5;
    case kR2: case kR3: return 4;
    case kLs5: return 3;
    case kRs5: return 2;
    case kLtf2: case kLtf3: return 1;
    case kRtf2: case kRtf3: return 0;
    default: return -1;
  }
}
struct Built {
  std::vector<int> layouts;  // 0..15
  int expanded = -1;         // Of the first layer.
  std::vector<Layer> want;
  bool valid = true;
  ScalableChannelLayoutConfig config;
  Ids ids;
};
// Fills in what each layer is expected to carry.
static void Complete(Built& b) {
  uint32_t id = 40;
  for (size_t i = 0; i < b.layouts.size(); i++) {
    const int l = b.layouts[i];
    Layer want;
    if (l == 15) {
      // An expanded layout stands alone.
      if (b.layouts.size() != 1 || !Expand(b.expanded).known) b.valid = false;
      if (i == 0) want = Expand(b.expanded).labels;
    } else if (l >= 10 || (l == 9 && b.layouts.size() != 1)) {
      b.valid = false;
    } else if (i == 0) {
      want = First(kChans[l]);
    } else {
      // What would be added is worked out even if the layers are not acceptable, so that only that is wrong.
      const int before = b.layouts[i - 1];
      const ChannelNumbers e = Expand(b.expanded).numbers;
      const Chans a = before == 15 ? Chans{e.surround, e.lfe, e.height} : kChans[std::min(before, 9)], c = kChans[l];
      if (c.s < a.s || c.l < a.l || c.h < a.h) b.valid = false;
      want = Next(a, c);
    }
    ChannelAudioLayerConfig layer{};
    layer.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)l;
    if (l == 15) layer.expanded_loudspeaker_layout = (ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)(i == 0 ? b.expanded : 1);
    layer.substream_count = (uint8_t)(want.pairs.size() / 2 + want.singles.size());
    layer.coupled_substream_count = (uint8_t)(want.pairs.size() / 2);
    // Ids in no particular order.
    for (int k = 0; k < layer.substream_count; k++) { b.ids.push_back(id); id = id % 2 ? id + 9 : id - 3; }
    b.config.channel_audio_layer_configs.push_back(layer);
    b.want.push_back(want);
  }
}
struct Got {
  absl::Status status;
  SubstreamIdLabelsMap labels;
  LabelGainMap gains;
  std::vector<ChannelNumbers> numbers;
};
static Got Finalize(const Built& b) {
  Got g;
  auto codec = Lpcm(1, 16);
  DescriptorObus::CodecConfigsById codecs;
  codecs.insert({1, *codec});
  auto obu = AudioElementObu::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), 3, 0, 1, absl::MakeConstSpan(b.ids), b.config);
  if (!obu.ok()) { g.status = obu.status(); return g; }
  auto e = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *obu);
  if (!e.ok()) { g.status = e.status(); return g; }
  sym_assert(e->codec_config != nullptr && e->codec_config->GetCodecConfigId() == 1 && e->obu == *obu, "the element keeps its OBU and codec configuration");
  g.labels = e->substream_id_to_labels;
  g.gains = e->label_to_output_gain;
  g.numbers = e->channel_numbers_for_layers;
  return g;
}
// The whole assignment, then what it has to satisfy whatever the order.
static void CheckAssignment(const Built& b, const Got& g) {
  size_t at = 0;
  std::vector<int> seen(kA24 + 1, 0);
  sym_assert(g.labels.size() == b.ids.size() && g.numbers.size() == b.layouts.size(), "one entry for each substream and each layer");
  size_t total = 0;
  for (size_t i = 0; i < b.want.size(); i++) {
    const Layer& w = b.want[i];
    for (size_t k = 0; k < w.pairs.size(); k += 2) {
      const auto it = g.labels.find(b.ids[at++]);
      sym_assert(it != g.labels.end() && it->second.size() == 2, "a coupled substream has two channels");
      const Label left = it->second.front(), right = it->second.back();
      sym_assert(left == w.pairs[k] && right == w.pairs[k + 1], "coupled substreams come first and carry their pair in order");
      sym_assert(Paired(left) == right, "a coupled substream carries a left and a right channel");
      seen[left]++; seen[right]++;
      total += 2;
    }
    for (Label l : w.singles) {
      const auto it = g.labels.find(b.ids[at++]);
      sym_assert(it != g.labels.end() && it->second.size() == 1 && it->second.front() == l, "other substreams follow and carry one channel each");
      seen[l]++;
      total++;
    }
    const ChannelNumbers& n = g.numbers[i];
    if (b.layouts[i] == 15) {
      const ChannelNumbers e = Expand(b.expanded).numbers;
      sym_assert(n.surround == e.surround && n.lfe == e.lfe && n.height == e.height && n.bottom == e.bottom, "channel numbers of the layer");
    } else {
      const Chans c = kChans[b.layouts[i]];
      sym_assert(n.surround == c.s && n.lfe == c.l && n.height == c.h && n.bottom == 0, "channel numbers of the layer");
    }
    sym_assert((int)total == n.surround + n.lfe + n.height + n.bottom, "the layers so far carry as many channels as the layout has");
  }
  for (int s : seen) sym_assert(s <= 1, "no channel is carried twice");
  const auto last = b.layouts.back();
  const auto ear = ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout((ChannelAudioLayerConfig::LoudspeakerLayout)last, last == 15 ? std::optional((ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)b.expanded) : std::nullopt);
  sym_assert(ear.ok() == (last != 15 || b.expanded < 20), "layouts that are not reserved have an order of channels");
  if (!ear.ok()) return;
  // Each channel of the layout is carried as it is or comes out of demixing.
  size_t heard = 0;
  for (Label l : *ear) {
    if (l == kOmitted) continue;
    heard++;
    const bool carried = seen[l] == 1;
    sym_assert(carried || (b.layouts.size() > 1 && ChannelLabel::GetDemixedLabel(l).ok()), "every channel of the layout is carried or demixed");
  }
  sym_assert(heard == total, "as many channels are heard as are carried");
}
static void CheckGains(const Built& b, const Got& g) {
  size_t expected = 0;
  for (size_t i = 0; i < b.want.size(); i++) {
    const auto& c = b.config.channel_audio_layer_configs[i];
    for (const Labels* ls : {&b.want[i].pairs, &b.want[i].singles})
      for (Label l : *ls) {
        const int bit = GainBit(l);
        const auto it = g.gains.find(l);
        const bool want = c.output_gain_is_present_flag && bit >= 0 && (c.output_gain_flag >> bit & 1);
        sym_assert((it != g.gains.end()) == want, "exactly the flagged channels have an output gain");
        if (!want) continue;
        expected++;
        sym_assert(it->second * 256.0f == (float)c.output_gain, "the output gain is the layer's, in decibels");
      }
  }
  sym_assert(g.gains.size() == expected, "no other channel has an output gain");
}
static void Run(const Built& b) {
  Got g = Finalize(b);
  sym_assert(g.status.ok() == b.valid, "a layer configuration is accepted exactly when each layer extends the one before");
  if (!g.status.ok()) { sym_reach("rejected"); return; }
  CheckAssignment(b, g);
  CheckGains(b, g);
  sym_reach("assigned");
}
// Any layout for each of `n` layers.
static void Any(int first, int n) {
  Built b;
  b.layouts.push_back(first);
  if (first == 15) {
    uint8_t e = sym_u8("expanded");
    sym_assume((n == 1) | (e < 20));
    b.expanded = (int)sym_concretize(e);
  }
  for (int i = 1; i < n; i++) b.layouts.push_back((int)sym_choose("layout", 16));
  Complete(b);
  Run(b);
}
static bool Follows(int a, int b) { return kChans[b].s >= kChans[a].s && kChans[b].l >= kChans[a].l && kChans[b].h >= kChans[a].h; }
static Built Chain(int first, int n, bool strict) {
  Built b;
  b.layouts.push_back(first);
  for (int i = 1; i < n; i++) {
    Labels unused;
    std::vector<int> next;
    for (int l = 0; l < 9; l++)
      if (Follows(b.layouts.back(), l) && (!strict || l != b.layouts.back())) next.push_back(l);
    if (next.empty()) break;
    b.layouts.push_back(next[sym_choose("next", (unsigned)next.size())]);
  }
  return b;
}
static void Long(int first, int n, bool strict) {
  Built b = Chain(first, n, strict);
  Complete(b);
  Run(b);
}
static void Gains(int first, int n) {
  Built b;
  if (first == 15) { b.layouts.push_back(15); b.expanded = (int)sym_choose("expanded", 20); }
  else b = Chain(first, n, true);
  Complete(b);
  auto& ls = b.config.channel_audio_layer_configs;
  const size_t k = sym_choose("layer", (unsigned)ls.size());
  ls[k].output_gain_is_present_flag = sym_bool("present");
  ls[k].output_gain_flag = sym_u8("flags") & 63;
  ls[k].output_gain = sym_i16("gain");
  if (ls.size() > 1) {
    auto& o = ls[(k + 1) % ls.size()];
    o.output_gain_is_present_flag = true;
    o.output_gain_flag = 0x2a;
    o.output_gain = -300;
  }
  Run(b);
}
// Substream counts or numbers of ids that do not fit.
static void Mismatch(int first) {
  Built b = Chain(first, 1 + (int)sym_choose("layers", 3), true);
  Complete(b);
  auto& ls = b.config.channel_audio_layer_configs;
  SubstreamIdLabelsMap labels;
  LabelGainMap gains;
  std::vector<ChannelNumbers> numbers;
  Ids ids = b.ids;
  bool fits = true;
  const unsigned how = sym_choose("how", 4);
  if (how == 0) {
    const size_t k = sym_choose("layer", (unsigned)ls.size());
    const uint8_t s = ls[k].substream_count, c = ls[k].coupled_substream_count;
    ls[k].substream_count = sym_u8("substreams");
    ls[k].coupled_substream_count = sym_u8("coupled");
    fits = (ls[k].substream_count == s) & (ls[k].coupled_substream_count == c);
  } else if (how == 1) {
    fits = ids.empty();
    if (!ids.empty()) ids.pop_back();
  } else if (how == 2) {
    ids.push_back(sym_u32("more"));
    fits = false;
  } else if (!ids.empty()) {
    const size_t k = sym_choose("which", (unsigned)ids.size());
    ids[k] = sym_u32("id");
    for (size_t j = 0; j < ids.size(); j++) fits &= (j == k) | (ids[j] != ids[k]);
    const bool ok = ObuWithDataGenerator::FinalizeScalableChannelLayoutConfig(ids, b.config, labels, gains, numbers).ok();
    sym_assert(ok == fits, "substream ids differ");
    if (!ok) { sym_reach("same_id"); return; }
    b.ids = ids;
    CheckAssignment(b, Got{absl::OkStatus(), labels, gains, numbers});
    sym_reach("any_id");
    return;
  }
  const bool ok = ObuWithDataGenerator::FinalizeScalableChannelLayoutConfig(ids, b.config, labels, gains, numbers).ok();
  sym_assert(ok == fits, "substream counts and ids fit the layers");
  sym_reach(ok ? "fits" : "misfits");
}
static Label Acn(int n) { return (Label)(kA0 + n); }
static absl::StatusOr<AudioElementWithData> Scene(const AmbisonicsConfig& c, const Ids& ids, uint32_t codec_id, uint32_t wanted) {
  auto codec = Lpcm(codec_id, 16);
  DescriptorObus::CodecConfigsById codecs;
  codecs.insert({codec_id, *codec});
  auto obu = AudioElementObu::CreateForAmbisonics(Hdr(kObuIaAudioElement), 3, 0, wanted, absl::MakeConstSpan(ids), c);
  if (!obu.ok()) return obu.status();
  auto e = ObuWithDataGenerator::GenerateAudioElementWithData(codecs, *obu);
  sym_assert(!e.ok() || codec_id == wanted, "the codec configuration is the one the element names");
  return e;
}
static void Mono(int channels, int substreams) {
  Bytes map(channels);
  Ids ids;
  for (int i = 0; i < substreams; i++) ids.push_back(90 - 7 * i);
  for (int i = 0; i < channels; i++) map[i] = i < substreams && channels > 4 ? (uint8_t)i : (uint8_t)sym_choose("map", substreams + 1);
  for (auto& m : map) if (m == substreams) m = 255;
  auto m = AmbisonicsMonoConfig::Create(substreams, absl::MakeConstSpan(map));
  if (!m.ok()) return;
  auto e = Scene(AmbisonicsConfig{*m}, ids, 5, sym_choose("codec", 2) ? 5 : 6);
  if (!e.ok()) { sym_reach("no_codec"); return; }
  sym_assert(e->substream_id_to_labels.size() == (size_t)substreams && e->label_to_output_gain.empty() && e->channel_numbers_for_layers.empty(), "each substream of a scene has channels, and none has a gain");
  for (int s = 0; s < substreams; s++) {
    Labels want;
    for (int i = 0; i < channels; i++) if (map[i] == s) want.push_back(Acn(i));
    const auto& l = e->substream_id_to_labels.at(ids[s]);
    sym_assert(Labels(l.begin(), l.end()) == want, "a substream of a scene carries the ambisonics channels mapped to it");
  }
  sym_reach("mono");
}
static void Projection(int substreams) {
  const int coupled = (int)sym_choose("coupled", substreams + 1);
  const int out = 25;
  std::vector<int16_t> matrix((substreams + coupled) * out, 1);
  auto p = AmbisonicsProjectionConfig::Create(out, substreams, coupled, absl::MakeConstSpan(matrix));
  if (!p.ok()) return;
  Ids ids;
  for (int i = 0; i < substreams; i++) ids.push_back(11 * ((i * 7) % substreams));
  std::sort(ids.begin(), ids.end());
  if (std::unique(ids.begin(), ids.end()) != ids.end()) { ids.clear(); for (int i = 0; i < substreams; i++) ids.push_back(200 - 3 * i); }
  auto e = Scene(AmbisonicsConfig{*p}, ids, 5, 5);
  sym_assert(e.ok() == (substreams + coupled <= 25), "a projection's channels are numbered up to the fourth order");
  if (!e.ok()) return;
  sym_assert(e->substream_id_to_labels.size() == (size_t)substreams, "each substream of a scene has channels");
  int n = 0;
  for (int s = 0; s < substreams; s++) {
    Labels want{Acn(n++)};
    if (s < coupled) want.push_back(Acn(n++));
    const auto& l = e->substream_id_to_labels.at(ids[s]);
    sym_assert(Labels(l.begin(), l.end()) == want, "coupled substreams of a scene carry two channels, the others one");
  }
  sym_reach("projection");
}
static void Objects() {
  const uint8_t n = (uint8_t)sym_choose("objects", 4);
  auto config = ObjectsConfig::Create(n, {});
  if (!config.ok()) return;
  const uint32_t id = sym_u32("id");
  auto obu = AudioElementObu::CreateForObjects(Hdr(kObuIaAudioElement), 3, 0, 1, id, *config);
  if (!obu.ok()) return;
  SubstreamIdLabelsMap labels;
  const unsigned how = sym_choose("how", 3);
  if (how == 1) obu->audio_substream_ids_.push_back(id + 1);
  if (how == 2) {  // A scene is not a set of objects.
    const uint8_t mapping[] = {0};
    const Ids ids{1};
    auto scene = AudioElementObu::CreateForAmbisonics(Hdr(kObuIaAudioElement), 3, 0, 1, absl::MakeConstSpan(ids), AmbisonicsConfig{*AmbisonicsMonoConfig::Create(1, absl::MakeConstSpan(mapping))});
    sym_assert(!ObuWithDataGenerator::FinalizeObjectsConfig(*scene, labels).ok() && !ObuWithDataGenerator::FinalizeAmbisonicsConfig(*obu, labels).ok(), "each kind of element has its own labels");
    return;
  }
  const bool ok = ObuWithDataGenerator::FinalizeObjectsConfig(*obu, labels).ok();
  sym_assert(ok == (how == 0 && (n == 1 || n == 2)), "one or two objects in one substream");
  if (!ok) return;
  const auto& l = labels.at(id);
  sym_assert(labels.size() == 1 && l.size() == n && l.front() == kObjectChannel0 && (n == 1 || l.back() == kObjectChannel1), "objects are numbered");
  sym_reach("objects");
}
// Ear order and demixing names of every layout.
static void Tables() {
  const uint8_t layout = sym_u8("layout") & 15;
  std::optional<ChannelAudioLayerConfig::ExpandedLoudspeakerLayout> e;
  if (layout == 15 && sym_choose("has", 2)) e = (ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)sym_u8("expanded");
  const auto ear = ChannelLabel::LookupEarChannelOrderFromScalableLoudspeakerLayout((ChannelAudioLayerConfig::LoudspeakerLayout)layout, e);
  const auto rebuilt = ChannelLabel::LookupLabelsToReconstructFromScalableLoudspeakerLayout((ChannelAudioLayerConfig::LoudspeakerLayout)layout, e);
  sym_assert(ear.ok() == (layout < 10 || (layout == 15 && e && *e < 20)), "every known layout has an order of channels");
  sym_assert(rebuilt.ok() == (layout < 10 || (layout == 15 && e)), "only known layouts are reconstructed");
  if (!ear.ok()) { sym_reach("unknown"); return; }
  Layer w;
  size_t length = 0;
  if (layout == 15) {
    static const int lengths[] = {12, 10, 12, 12, 12, 12, 12, 12, 16, 16, 16, 16, 16, 24, 24, 24, 17, 17, 17, 17};
    const int x = (int)sym_concretize(*e);
    w = Expand(x).labels;
    length = lengths[x];
  } else {
    const int l = (int)sym_concretize(layout);
    w = First(kChans[l]);
    length = kChans[l].s + kChans[l].l + kChans[l].h;
  }
  sym_assert(ear->size() == length, "the order has a place for each channel of the full layout");
  Labels all = w.pairs, heard;
  all.insert(all.end(), w.singles.begin(), w.singles.end());
  for (Label l : *ear) if (l != kOmitted) heard.push_back(l);
  std::sort(all.begin(), all.end());
  Labels sorted = heard;
  std::sort(sorted.begin(), sorted.end());
  sym_assert(sorted == all, "the order holds exactly the layout's channels");
  if (layout == 15) sym_assert(rebuilt->empty(), "nothing of an expanded layout is reconstructed");
  else {
    Labels r(rebuilt->begin(), rebuilt->end());
    std::sort(r.begin(), r.end());
    sym_assert(r == all, "all channels of a layout are reconstructed");
  }
  sym_reach("table");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c == 0) { Tables(); return; }
  if (c == 1) { Objects(); return; }
  c -= 2;
  if (c < 16) { Any(c, 1); return; }
  c -= 16;
  if (c < 16) { Any(c, 3); return; }
  c -= 16;
  if (c < 10) { Gains(c == 9 ? 15 : c, 3); return; }
  c -= 10;
  if (c < 9) { Mismatch(c); return; }
  c -= 9;
  if (c < 9) { Long(c, 6, true); return; }
  c -= 9;
  if (c < 4) { Mono(4, 1 + c); return; }
  c -= 4;
  if (c < 2) { Mono(9, 7 + c); return; }
  c -= 2;
  if (c < 8) { Projection(1 + c); return; }
  c -= 8;
  Long(c, 4, false);
}
