// Which mix presentation and layout are rendered.
#include "desc_common.h"
#include "iamf/cli/obu_processor_utils.h"
#include "iamf/obu/mix_presentation.h"
using namespace vh;
using L = Layout;
static L Speakers(uint8_t system, uint8_t reserved) { return L{L::kLayoutTypeLoudspeakersSsConvention, LoudspeakersSsConventionLayout{(LoudspeakersSsConventionLayout::SoundSystem)system, reserved}}; }
static L Other(uint8_t type, uint8_t reserved) { return L{(L::LayoutType)type, LoudspeakersReservedOrBinauralLayout{reserved}}; }
// Kinds: 0 loudspeakers, 1 binaural, 2 reserved.
static L AnyLayout(unsigned kind) {
  if (kind == 0) return Speakers(sym_u8("system") & 15, sym_u8("reserved") & 3);
  return Other(kind == 1 ? 3 : sym_u8("type") & 1, sym_u8("reserved") & 63);
}
static bool Same(const L& a, const L& b) {
  if (a.specific_layout.index() != b.specific_layout.index()) return false;
  if (a.specific_layout.index() == 0) {
    const auto &x = std::get<0>(a.specific_layout), &y = std::get<0>(b.specific_layout);
    return (a.layout_type == b.layout_type) & (x.sound_system == y.sound_system) & (x.reserved == y.reserved);
  }
  return (a.layout_type == b.layout_type) & (std::get<1>(a.specific_layout).reserved == std::get<1>(b.specific_layout).reserved);
}
static bool Binaural(const L& l) { return l.layout_type == 3; }
static bool Stereo(const L& l) { return l.specific_layout.index() == 0 && std::get<0>(l.specific_layout).sound_system == 0; }
// Elements 0: stereo, 1: binaural, 2: mono and stereo layers, 3: scene, 4: unknown, 5: stereo and 5.1.
static AudioElementWithData MakeElement(uint32_t id, const CodecConfigObu* codec) {
  const Ids ids{id + 100};
  if (id == 3) {
    const uint8_t mapping[] = {0};
    auto e = AudioElementObu::CreateForAmbisonics(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), AmbisonicsConfig{*AmbisonicsMonoConfig::Create(1, absl::MakeConstSpan(mapping))});
    return AudioElementWithData{*e, codec, {}, {}, {}};
  }
  auto layer = [](int layout, int count) {
    ChannelAudioLayerConfig l{};
    l.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)layout;
    l.substream_count = (uint8_t)count;
    return l;
  };
  ScalableChannelLayoutConfig c;
  if (id == 0) c.channel_audio_layer_configs = {layer(1, 1)};
  if (id == 1) c.channel_audio_layer_configs = {layer(9, 1)};
  if (id == 2) c.channel_audio_layer_configs = {layer(0, 1), layer(1, 0)};
  if (id == 5) c.channel_audio_layer_configs = {layer(1, 1), layer(2, 0)};
  auto e = AudioElementObu::CreateForScalableChannelLayout(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), c);
  return AudioElementWithData{*e, codec, {}, {}, {}};
}
static bool IsStereo(uint32_t id) { return (id == 0) | (id == 2); }
static bool OneBinaural(const MixPresentationSubMix& s) { return s.audio_elements.size() == 1 && s.audio_elements[0].audio_element_id == 1; }
static bool OneStereo(const MixPresentationSubMix& s) { return s.audio_elements.size() == 1 && IsStereo(s.audio_elements[0].audio_element_id) && s.layouts.size() == 1 && Stereo(s.layouts[0].loudness_layout); }
static MixPresentationSubMix SubMix(unsigned elements, unsigned layouts, bool free) {
  static const uint32_t kIds[] = {0, 1, 2, 3, 4, 5};
  MixPresentationSubMix s;
  for (unsigned i = 0; i < elements; i++) {
    SubMixAudioElement e;
    e.audio_element_id = kIds[free ? (unsigned)sym_concretize(sym_choose("element", 6)) : 5 - i];
    e.rendering_config.headphones_rendering_mode = (RenderingConfig::HeadphonesRenderingMode)(sym_u8("headphones") & 3);
    s.audio_elements.push_back(e);
  }
  for (unsigned i = 0; i < layouts; i++) {
    MixPresentationLayout l{};
    l.loudness_layout = AnyLayout(free ? sym_choose("kind", 3) : i);
    l.loudness.integrated_loudness = (int16_t)(100 + i);
    s.layouts.push_back(l);
  }
  return s;
}
static std::vector<MixPresentationSubMix> Shape(unsigned shape, bool free) {
  switch (shape) {
    case 0: return {};
    case 1: return {SubMix(1, 1, free)};
    case 2: return {SubMix(1, 2, free)};
    case 3: return {SubMix(1, 1, free), SubMix(1, 1, false)};
    case 4: {  // Two elements, the first of a kind that would do alone.
      auto s = SubMix(2, 1, false);
      s.audio_elements[0].audio_element_id = (uint32_t)sym_concretize(sym_choose("first", 2));
      return {s};
    }
    case 5: return {SubMix(1, 0, free)};
    case 6: return {SubMix(0, 1, false), SubMix(1, 2, false)};
    case 7: return {SubMix(1, 1, false)};
    default: return {SubMix(1, 2, false)};
  }
}
static void Select(int mixes, unsigned first_shape) {
  auto codec = Lpcm(1, 16);
  DescriptorObus::AudioElementsById elements;
  for (uint32_t id : {0u, 1u, 2u, 3u, 5u}) elements.insert({id, MakeElement(id, &*codec)});
  std::list<MixPresentationObu> store;
  std::list<MixPresentationObu*> list;
  std::vector<MixPresentationObu*> all;
  std::vector<uint32_t> ids;
  for (int i = 0; i < mixes; i++) {
    ids.push_back(sym_u32("id"));
    // Fewer shapes among three.
    const unsigned shape = i == 0 ? first_shape : i == 1 ? (unsigned)sym_choose("shape", mixes == 3 ? (SHAPES + 2) / 3 : SHAPES) : 7;
    auto subs = Shape(shape, i < FREE);
    store.push_back(MixPresentationObu(Hdr(kObuIaMixPresentation), ids[i], 0, {}, {}, subs));
    list.push_back(&store.back());
    all.push_back(&store.back());
  }
  const std::list<MixPresentationObu> before = store;
  std::optional<L> want_layout;
  const unsigned kind = sym_choose("desired", 5);
  if (kind == 1) want_layout = Other(3, sym_u8("desired_reserved") & 63);
  if (kind == 2) want_layout = Speakers(0, sym_u8("desired_reserved") & 3);
  if (kind == 3) { want_layout = Speakers(sym_u8("desired_system") & 15, 0); sym_assume(!Stereo(*want_layout)); }
  if (kind == 4) want_layout = Other(sym_u8("desired_type") & 1, 5);
  std::optional<uint32_t> want_id;
  if (sym_choose("by_id", 2)) want_id = sym_u32("desired_id");
  auto r = FindMixPresentationAndLayout(elements, list, want_layout, want_id);
  if (mixes == 0) { sym_assert(!r.ok(), "there is nothing to choose from"); return; }
  // The rules.
  int pick = -1;
  auto first = [&](auto&& matches) { for (int i = 0; i < mixes && pick < 0; i++) if (matches(*std::next(before.begin(), i))) pick = i; };
  if (want_id) first([&](const MixPresentationObu& m) { return m.GetMixPresentationId() == *want_id; });
  const bool by_id = pick >= 0;
  auto offers = [&](const MixPresentationObu& m, auto&& matches) {
    for (const auto& s : m.sub_mixes_) for (const auto& l : s.layouts) if (matches(l.loudness_layout)) return true;
    return false;
  };
  if (kind == 1) {
    first([&](const MixPresentationObu& m) { return !m.sub_mixes_.empty() && OneBinaural(m.sub_mixes_[0]); });
    first([&](const MixPresentationObu& m) { return offers(m, Binaural); });
  } else if (kind == 2) {
    first([&](const MixPresentationObu& m) { return !m.sub_mixes_.empty() && OneStereo(m.sub_mixes_[0]) && m.sub_mixes_[0].audio_elements[0].rendering_config.headphones_rendering_mode == 0; });
    first([&](const MixPresentationObu& m) { return !m.sub_mixes_.empty() && OneStereo(m.sub_mixes_[0]); });
  } else if (want_layout) {
    first([&](const MixPresentationObu& m) { return offers(m, [&](const L& l) { return Same(l, *want_layout); }); });
  }
  const bool by_layout = pick >= 0 && !by_id;
  if (pick < 0) pick = 0;
  const MixPresentationObu& chosen = *std::next(before.begin(), pick);
  const bool possible = !chosen.sub_mixes_.empty() && (want_layout || !chosen.sub_mixes_[0].layouts.empty());
  sym_assert(r.ok() == possible, "there is a layout to render");
  // Other mixes stay as they are.
  {
    int i = 0;
    for (const auto& m : before) {
      if (i != pick || !possible) sym_assert(all[i]->sub_mixes_.size() == m.sub_mixes_.size() && (m.sub_mixes_.empty() || all[i]->sub_mixes_[0].layouts.size() == m.sub_mixes_[0].layouts.size()), "only the chosen mix gets a layout");
      i++;
    }
  }
  if (!r.ok()) { sym_reach("none"); return; }
  sym_assert(r->mix_presentation == all[pick], "the mix follows the rules");
  const auto& subs = r->mix_presentation->sub_mixes_;
  sym_assert(r->sub_mix_index >= 0 && (size_t)r->sub_mix_index < subs.size(), "the sub-mix is one of the mix");
  const auto& layouts = subs[r->sub_mix_index].layouts;
  sym_assert(r->layout_index >= 0 && (size_t)r->layout_index < layouts.size(), "the layout is one of the sub-mix");
  sym_assert(Same(layouts[r->layout_index].loudness_layout, r->output_layout), "the indices and the layout agree");
  if (!want_layout) {
    sym_assert(r->sub_mix_index == 0 && r->layout_index == 0 && layouts.size() == chosen.sub_mixes_[0].layouts.size(), "with no wish it is the first layout");
    sym_reach("default");
    return;
  }
  sym_assert(Same(r->output_layout, *want_layout), "the layout is the one asked for");
  // The first place that has the layout, or a new one at the end of the first sub-mix.
  int sub = -1, at = -1;
  for (size_t s = 0; s < chosen.sub_mixes_.size() && sub < 0; s++)
    for (size_t l = 0; l < chosen.sub_mixes_[s].layouts.size() && sub < 0; l++)
      if (Same(chosen.sub_mixes_[s].layouts[l].loudness_layout, *want_layout)) { sub = (int)s; at = (int)l; }
  const size_t had = chosen.sub_mixes_[0].layouts.size();
  if (sub < 0) {
    sym_assert(r->sub_mix_index == 0 && (size_t)r->layout_index == had && subs[0].layouts.size() == had + 1, "a layout no mix has is added to the first sub-mix");
    sym_reach("added");
  } else {
    sym_assert(r->sub_mix_index == sub && r->layout_index == at && subs[0].layouts.size() == had, "a layout of the mix is used where it is");
    sym_assert(layouts[at].loudness.integrated_loudness == chosen.sub_mixes_[sub].layouts[at].loudness.integrated_loudness, "the layout keeps its loudness");
    sym_reach(by_id ? "by_id" : by_layout ? "by_layout" : "fallback");
  }
}
static void Simplify(int shape) {
  auto subs = Shape((unsigned)shape, false);
  MixPresentationObu mix(Hdr(kObuIaMixPresentation), sym_u32("id"), 2, {"en", "de"}, {"a", "b"}, subs);
  const int s = sym_i32("sub_mix"), l = sym_i32("layout");
  auto r = CreateSimplifiedMixPresentationForRendering(mix, s, l);
  const bool want = s >= 0 && (size_t)s < mix.sub_mixes_.size() && l >= 0 && (size_t)l < mix.sub_mixes_[s].layouts.size();
  sym_assert(r.ok() == want, "only a layout of the mix can be kept");
  if (!r.ok()) { sym_reach("refused"); return; }
  sym_assert(r->GetMixPresentationId() == mix.GetMixPresentationId() && r->GetAnnotationsLanguage() == mix.GetAnnotationsLanguage() && r->sub_mixes_.size() == 1, "the rest of the mix is kept");
  const auto &got = r->sub_mixes_[0], &from = mix.sub_mixes_[s];
  sym_assert(got.audio_elements == from.audio_elements && got.output_mix_gain == from.output_mix_gain, "the sub-mix is kept");
  sym_assert(got.layouts.size() == 1 && Same(got.layouts[0].loudness_layout, from.layouts[l].loudness_layout) && got.layouts[0].loudness.integrated_loudness == from.layouts[l].loudness.integrated_loudness, "one layout is kept");
  sym_reach("simplified");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 9) { Simplify(c); return; }
  c -= 9;
  if (c < 9) { Select(c == 8 ? 0 : 1, (unsigned)c); return; }
  c -= 9;
  if (c < 9) { Select(2, (unsigned)c); return; }
  c -= 9;
  Select(3, (unsigned)c);
}
