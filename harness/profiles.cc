// Profile filtering against the limits of each profile.
#include "desc_common.h"
#include "iamf/cli/profile_filter.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/mix_presentation.h"
using namespace vh;
using AE = AudioElementObu;
enum : unsigned { kSimple = 1, kBase = 2, kEnhanced = 4, kBaseAdvanced = 8, kAdvanced1 = 16, kAdvanced2 = 32, kAll = 63, kLater = 56 };
using Set = absl::flat_hash_set<ProfileVersion>;
static Set Make(unsigned mask) {
  Set s;
  for (int i = 0; i < 6; i++)
    if (mask >> i & 1) s.insert((ProfileVersion)i);
  return s;
}
static unsigned Mask(const Set& s) {
  unsigned m = 0;
  for (auto p : s) m |= (unsigned)p < 6 ? 1u << (unsigned)p : 64;
  return m;
}
static const unsigned kRequests[] = {63, 1, 2, 4, 8, 16, 32, 0, 21, 42};
static ChannelAudioLayerConfig Layer(uint8_t layout, std::optional<uint8_t> expanded) {
  ChannelAudioLayerConfig l{};
  l.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)layout;
  l.substream_count = 1;
  if (expanded) l.expanded_loudspeaker_layout = (ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)*expanded;
  return l;
}
static AE Channels(uint32_t id, ChannelAudioLayerConfig layer) {
  const Ids ids{1};
  return *AE::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), ScalableChannelLayoutConfig{.channel_audio_layer_configs = {layer}});
}
static AE Mono(uint32_t id) {
  const Ids ids{1};
  const uint8_t mapping[] = {0};
  return *AE::CreateForAmbisonics(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), AmbisonicsConfig{*AmbisonicsMonoConfig::Create(1, absl::MakeConstSpan(mapping))});
}
static AE Projection(uint32_t id) {
  const Ids ids{1};
  const int16_t m[] = {1};
  return *AE::CreateForAmbisonics(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), AmbisonicsConfig{*AmbisonicsProjectionConfig::Create(1, 1, 0, absl::MakeConstSpan(m))});
}
static AE Objects(uint32_t id) { return *AE::CreateForObjects(Hdr(kObuIaAudioElement), id, 0, 1, 1, *ObjectsConfig::Create(1, {})); }
static AE Extension(uint32_t id, uint8_t type) {
  const Ids ids{1};
  return *AE::CreateForExtension(Hdr(kObuIaAudioElement), id, (AE::AudioElementType)type, 0, 1, absl::MakeConstSpan(ids), {});
}
static void CheckElement(const AE& obu, unsigned allowed) {
  const unsigned request = kRequests[sym_choose("request", 10)];
  Set s = Make(request);
  const bool ok = ProfileFilter::FilterProfilesForAudioElement("", obu, s).ok();
  sym_assert(Mask(s) == (request & allowed), "exactly the requested profiles that support the element are left");
  sym_assert(ok == ((request & allowed) != 0), "an error exactly when no profile is left");
  sym_reach(ok ? "element" : "element_refused");
}
static void Element(int kind) {
  if (kind == 0) {  // Any layout of the first layer; the second layer does not matter.
    const uint8_t layout = sym_u8("layout") & 15;
    std::optional<uint8_t> e;
    if (sym_choose("expanded", 2)) e = sym_u8("expanded_layout");
    AE obu = Channels(3, Layer(layout, e));
    std::get<ScalableChannelLayoutConfig>(obu.config_).channel_audio_layer_configs.push_back(Layer(sym_u8("second") & 15, std::nullopt));
    unsigned allowed = kAll;
    if (layout >= 10) {
      if (layout < 15 || !e) allowed = 0;
      else if (*e <= 12) allowed = kEnhanced | kLater;
      else if (*e <= 19) allowed = kLater;
      else allowed = 0;
    }
    CheckElement(obu, allowed);
  } else if (kind == 1) {
    CheckElement(sym_choose("projection", 2) ? Projection(4) : Mono(4), kAll);
  } else if (kind == 2) {
    CheckElement(Objects(4), kLater);
  } else if (kind == 3) {
    CheckElement(Extension(4, 3 + sym_choose("type", 5)), 0);
  } else {  // The type and the configuration disagree, or there is no layer.
    const unsigned how = sym_choose("how", 3);
    AE obu = how == 2 ? Mono(3) : Channels(3, Layer(1, std::nullopt));
    if (how == 0) std::get<ScalableChannelLayoutConfig>(obu.config_).channel_audio_layer_configs.clear();
    else obu.config_ = ExtensionConfig{};
    CheckElement(obu, 0);
  }
}
static SubMixAudioElement SubElement(uint32_t id, uint8_t headphones) {
  SubMixAudioElement e;
  e.audio_element_id = id;
  e.rendering_config.headphones_rendering_mode = (RenderingConfig::HeadphonesRenderingMode)headphones;
  return e;
}
static AudioElementWithData WithChannels(const AE& obu, const CodecConfigObu* codec, int channels) {
  AudioElementWithData d{obu, codec, {}, {}, {}};
  // Two to a substream.
  for (int i = 0; i < channels; i += 2) {
    auto& l = d.substream_id_to_labels[(uint32_t)i];
    l.push_back(ChannelLabel::kL2);
    if (i + 1 < channels) l.push_back(ChannelLabel::kR2);
  }
  return d;
}
static unsigned CountLimit(int n, const int (&max)[6]) {
  unsigned m = 0;
  for (int i = 0; i < 6; i++)
    if (n <= max[i]) m |= 1u << i;
  return m;
}
static unsigned Limits(int elements, int channels) {
  return CountLimit(elements, {1, 2, 28, 18, 18, 28}) & CountLimit(channels, {16, 18, 28, 18, 18, 28});
}
static void CheckMix(const DescriptorObus::AudioElementsById& elements, std::vector<MixPresentationSubMix> sub_mixes, unsigned allowed, int requests) {
  const unsigned request = kRequests[sym_choose("request", requests)];
  MixPresentationObu mix(Hdr(kObuIaMixPresentation), 12, 0, {}, {}, sub_mixes);
  Set s = Make(request);
  const bool ok = ProfileFilter::FilterProfilesForMixPresentation(elements, mix, s).ok();
  sym_assert(Mask(s) == (request & allowed), "exactly the requested profiles whose limits are met are left");
  sym_assert(ok == ((request & allowed) != 0), "an error exactly when no profile is left");
  sym_reach(ok ? "mix" : "mix_refused");
}
static absl::StatusOr<CodecConfigObu> Flac(uint32_t id, uint32_t frame) {
  FlacDecoderConfig d;
  FlacMetaBlockStreamInfo info{.minimum_block_size = (uint16_t)frame, .maximum_block_size = (uint16_t)frame, .sample_rate = 48000, .bits_per_sample = 15, .total_samples_in_stream = 0};
  d.metadata_blocks_ = {FlacMetadataBlock{.header = {.block_type = FlacMetaBlockHeader::kFlacStreamInfo}, .payload = info}};
  return CodecConfigObu::Create(Hdr(kObuIaCodecConfig), id, CodecConfig{.codec_id = CodecConfig::kCodecIdFlac, .num_samples_per_frame = frame, .audio_roll_distance = 0, .decoder_config = d});
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 5) { Element(c); return; }
  c -= 5;
  if (c < 31) {  // Numbers of audio elements and channels, in one or two sub-mixes.
    auto codec = Lpcm(1, 16);
    const int per = (int)sym_choose("channels", 3), split = (int)sym_choose("split", 2);
    DescriptorObus::AudioElementsById e;
    e.insert({7, WithChannels(Channels(7, Layer(1, std::nullopt)), &*codec, per)});
    std::vector<MixPresentationSubMix> mixes(1 + split);
    for (int i = 0; i < c; i++) mixes[split && i >= c / 2].audio_elements.push_back(SubElement(7, 1));
    CheckMix(e, mixes, c == 0 ? 0 : Limits(c, c * per) & (split ? kLater : kAll), 10);
    return;
  }
  c -= 31;
  if (c < 31) {  // Numbers of channels in one or two elements.
    auto codec = Lpcm(1, 16);
    const int second = (int)sym_choose("second", 4) - 1;
    DescriptorObus::AudioElementsById e;
    e.insert({7, WithChannels(Mono(7), &*codec, c)});
    e.insert({8, WithChannels(Projection(8), &*codec, std::max(second, 0))});
    std::vector<MixPresentationSubMix> mixes(1);
    mixes[0].audio_elements.push_back(SubElement(7, 0));
    if (second >= 0) mixes[0].audio_elements.push_back(SubElement(8, 0));
    CheckMix(e, mixes, Limits(second >= 0 ? 2 : 1, c + std::max(second, 0)), 10);
    return;
  }
  c -= 31;
  // Sub-mixes of chosen elements with chosen codecs and rendering modes.
  const int shape = c % 8, codec_pair = c / 8;
  static const int kShapes[8][3] = {{1, 0, 0}, {2, 0, 0}, {1, 1, 0}, {1, 1, 1}, {2, 1, 0}, {0, 1, 0}, {0, 0, 0}, {1, 2, 0}};
  auto lpcm = Lpcm(1, 16), flac = Flac(2, 16), other_size = Lpcm(3, 32), other_rate = Lpcm(4, 16, 44100);
  sym_assert(lpcm.ok() && flac.ok() && other_size.ok() && other_rate.ok(), "codec configs");
  if (!lpcm.ok() || !flac.ok() || !other_size.ok() || !other_rate.ok()) return;
  auto flac2 = Flac(5, 16);
  const CodecConfigObu* codecs[] = {&*lpcm, &*flac, &*other_size, &*other_rate, &*flac2, nullptr};
  static const int kPairs[8][2] = {{0, 0}, {0, 1}, {1, 1}, {1, 4}, {0, 2}, {0, 3}, {0, 5}, {1, 3}};
  const int* pair = kPairs[codec_pair];
  const bool objects = sym_choose("objects", 2);
  DescriptorObus::AudioElementsById e;
  e.insert({7, WithChannels(Channels(7, Layer(1, std::nullopt)), codecs[pair[0]], 2)});
  e.insert({8, WithChannels(objects ? Objects(8) : Mono(8), codecs[pair[1]], 1)});
  std::vector<MixPresentationSubMix> mixes;
  unsigned allowed = kAll;
  int count = 0, channels = 0, submixes = 0;
  std::vector<int> used_codecs;
  bool first_single = true, lpcm_used = false, same = true;
  for (int m = 0; m < 3; m++) {
    if (kShapes[shape][m] == 0 && !(m == 0 && shape == 5)) continue;
    submixes++;
    mixes.emplace_back();
    for (int i = 0; i < kShapes[shape][m]; i++) {
      const unsigned which = sym_choose("element", 3);
      const uint8_t mode = sym_u8("headphones") & 3;
      mixes.back().audio_elements.push_back(SubElement(which == 2 ? 9 : 7 + which, mode));
      if (mode == 2) allowed &= kLater;
      if (mode == 3) allowed = 0;
      count++;
      if (which == 2 || pair[which] == 5) { allowed = 0; continue; }
      channels += which == 0 ? 2 : 1;
      if (which == 1 && objects) allowed &= kLater;
      const int k = pair[which];
      bool known = false;
      for (int u : used_codecs) known = known || u == k;
      if (!known) used_codecs.push_back(k);
      lpcm_used = lpcm_used || k == 0 || k == 2 || k == 3;
    }
    if (m == 0 && used_codecs.size() > 1) first_single = false;
  }
  for (int u : used_codecs) same = same && (u == 2) == (used_codecs[0] == 2) && (u == 3) == (used_codecs[0] == 3);
  if (submixes > 1) allowed &= kLater;
  if (submixes > 2) allowed = 0;
  if (!first_single || used_codecs.empty() || !same || (used_codecs.size() > 1 && !lpcm_used)) allowed = 0;
  if (used_codecs.size() > 1) allowed &= kLater;
  if (used_codecs.size() > 2) allowed = 0;
  CheckMix(e, mixes, allowed & Limits(count, channels), 3);
}
