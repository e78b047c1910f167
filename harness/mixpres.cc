// Mix presentations: acceptance, exact bytes, reading back, rewriting.
#include "obu_roundtrip.h"
#include "iamf/obu/element_gain_offset_config.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/rendering_config.h"
using namespace vh;
using Ss = LoudspeakersSsConventionLayout;
using Strings = std::vector<std::string>;
static void Put16(Bytes& b, int16_t v) { b.push_back((uint8_t)((uint16_t)v >> 8)); b.push_back((uint8_t)v); }
static void PutString(Bytes& b, const std::string& s) { for (char c : s) b.push_back((uint8_t)c); b.push_back(0); }
static std::string SymString(const char* name) {
  const char c = (char)(sym_u8(name) & 127);
  sym_assume(c != 0);
  return std::string(1, c);
}
static bool Distinct(const Strings& s) {
  bool d = true;
  for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) d &= !(s[i].size() == s[j].size() && s[i][0] == s[j][0]);
  return d;
}
static MixGainParamDefinition Gain(uint32_t id, uint32_t rate, int16_t def, Bytes& b) {
  ParamDefinition::BaseArgs a{id, rate, 0, {}};
  MixGainParamDefinition m(a);
  m.default_mix_gain_ = QFormatOrFloatingPoint::MakeFromQ7_8(def);
  PutUleb(b, id);
  PutUleb(b, rate);
  b.push_back(0x80);
  Put16(b, def);
  return m;
}
// Everything the checks need to know about one presentation.
struct Plan {
  bool ok = true;            // the writer accepts it
  bool optional_flag = false;
  uint32_t id = 7, count_label = 0;
  Strings languages, names;
  std::vector<MixPresentationSubMix> subs;
  std::optional<MixPresentationTags> tags;
  std::optional<MixPresentationOptionalFields> fields;
  Bytes bytes;
};
static bool SameFields(const MixPresentationObu& m, const Plan& p) {
  bool same = m.GetMixPresentationId() == p.id && m.GetAnnotationsLanguage() == p.languages && m.GetLocalizedPresentationAnnotations() == p.names && m.GetNumSubMixes() == p.subs.size();
  if (!same) return false;
  return m.sub_mixes_ == p.subs && m.mix_presentation_tags_ == p.tags && m.optional_fields_ == p.fields;
}
static void Check(Plan& p) {
  ObuHeader h = Hdr(kObuIaMixPresentation);
  h.type_specific_flag = p.optional_flag;
  auto subs = p.subs;
  MixPresentationObu m(h, p.id, p.count_label, p.languages, p.names, subs);
  m.mix_presentation_tags_ = p.tags;
  m.optional_fields_ = p.fields;
  Bytes w;
  ObuHeader h1;
  const bool written = WrittenPayload(m, w, &h1);
  sym_assert(written == p.ok, "the writer accepts exactly the valid presentations");
  if (!written) { sym_reach("refused"); return; }
  sym_assert(SameBytes(w, p.bytes), "the payload is the specified one");
  auto rb = Reader(w);
  auto r = MixPresentationObu::CreateFromBuffer(h1, (int64_t)w.size(), *rb);
  sym_assert(r.ok(), "a written presentation parses");
  if (!r.ok()) return;
  sym_assert(rb->Tell() == 8 * (int64_t)w.size(), "the whole payload is consumed");
  sym_assert(SameFields(*r, p), "the parsed presentation has the written fields");
  Bytes w2;
  sym_assert(WrittenPayload(*r, w2) && SameBytes(w, w2), "rewriting gives the same bytes");
  sym_reach("written");
}
static MixPresentationLayout Stereo(Bytes& b) {
  b.insert(b.end(), {0x80, 0, 0, 0, 0, 0});
  return {.loudness_layout = {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = Ss{.sound_system = Ss::kSoundSystemA_0_2_0, .reserved = 0}}, .loudness = LoudnessInfo()};
}
static void PutHead(Plan& p) {
  PutUleb(p.bytes, p.id);
  PutUleb(p.bytes, p.count_label);
  for (auto& s : p.languages) PutString(p.bytes, s);
  for (auto& s : p.names) PutString(p.bytes, s);
}
static void PutElement(Plan& p, MixPresentationSubMix& sub, uint32_t id, const RenderingConfig& rc, const Bytes& rendering, int16_t gain = 0) {
  SubMixAudioElement e{.audio_element_id = id, .localized_element_annotations = {}, .rendering_config = rc};
  p.bytes.push_back((uint8_t)id);
  p.bytes.insert(p.bytes.end(), rendering.begin(), rendering.end());
  e.element_mix_gain = Gain(3, 48000, gain, p.bytes);
  sub.audio_elements.push_back(e);
}
// A layout with every loudness field symbolic.
static void PutLayout(Plan& p, MixPresentationSubMix& sub, int type, int anchors, int extension) {
  MixPresentationLayout l;
  l.loudness_layout.layout_type = (Layout::LayoutType)type;
  const uint8_t reserved = sym_u8("layout_reserved");
  if (type == 2) {
    const uint8_t ss = sym_u8("sound_system") & 15;
    l.loudness_layout.specific_layout = Ss{.sound_system = (Ss::SoundSystem)ss, .reserved = reserved};
    p.ok &= reserved < 4;
    p.bytes.push_back((uint8_t)(0x80 | ss << 2 | (reserved & 3)));
  } else {
    l.loudness_layout.specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = reserved};
    p.ok &= reserved < 64;
    p.bytes.push_back((uint8_t)(type << 6 | (reserved & 63)));
  }
  LoudnessInfo& i = l.loudness;
  const bool peak = sym_choose("true_peak", 2);
  uint8_t live = sym_u8("info") & 0xfc;
  sym_assume(extension >= 0 ? live != 0 : live == 0);
  i.info_type = (uint8_t)((peak ? 1 : 0) | (anchors >= 0 ? 2 : 0) | (extension >= 0 ? live : 0));
  i.integrated_loudness = sym_i16("integrated");
  i.digital_peak = sym_i16("digital");
  p.bytes.push_back(i.info_type);
  Put16(p.bytes, i.integrated_loudness);
  Put16(p.bytes, i.digital_peak);
  if (peak) Put16(p.bytes, i.true_peak = sym_i16("peak"));
  if (anchors >= 0) {
    p.bytes.push_back((uint8_t)anchors);
    for (int k = 0; k < anchors; k++) {
      const uint8_t a = sym_u8("anchor");
      for (auto& o : i.anchored_loudness.anchor_elements) p.ok &= (uint8_t)o.anchor_element != a;
      i.anchored_loudness.anchor_elements.push_back({(AnchoredLoudnessElement::AnchorElement)a, sym_i16("anchored")});
      p.bytes.push_back(a);
      Put16(p.bytes, i.anchored_loudness.anchor_elements.back().anchored_loudness);
    }
  }
  if (extension >= 0) {
    i.layout_extension.info_type_bytes = SymBytes(extension, "extension");
    PutUleb(p.bytes, extension);
    p.bytes.insert(p.bytes.end(), i.layout_extension.info_type_bytes.begin(), i.layout_extension.info_type_bytes.end());
  }
  sub.layouts.push_back(l);
}
static const Bytes kNoRendering = {0, 0};
// Loudness of layouts.
static void Loudness(int type, int anchors, int extension) {
  Plan p;
  PutHead(p);
  MixPresentationSubMix s;
  p.bytes.push_back(1);
  p.bytes.push_back(1);
  PutElement(p, s, 9, {}, kNoRendering);
  s.output_mix_gain = Gain(4, 48000, sym_i16("gain"), p.bytes);
  const int order = sym_choose("order", 2);
  p.bytes.push_back(2);
  if (order) s.layouts.push_back(Stereo(p.bytes));
  PutLayout(p, s, type, anchors, extension);
  if (!order) s.layouts.push_back(Stereo(p.bytes));
  p.subs.push_back(s);
  Check(p);
}
static ParamDefinition::BaseArgs PosArgs(Bytes& b) {
  PutUleb(b, 5);
  PutUleb(b, 48000);
  b.push_back(0x80);
  return ParamDefinition::BaseArgs{5, 48000, 0, {}};
}
static PositionParamVariant Position(int kind, Bytes& b) {
  auto i8 = [&](const char* n) { const int8_t v = sym_i8(n); b.push_back((uint8_t)v); return v; };
  auto i16 = [&](const char* n) { const int16_t v = sym_i16(n); Put16(b, v); return v; };
  auto polar = [&](int16_t& az, int8_t& el, uint8_t& di) {
    az = sym_i16("azimuth"); el = sym_i8("elevation"); di = sym_u8("distance") & 127;
    sym_assume((az >= -180) & (az <= 180) & (el >= -90) & (el <= 90));
    return (uint32_t)(az & 511) << 15 | (uint32_t)(uint8_t)el << 7 | di;
  };
  b.push_back((uint8_t)(kind + 3));
  switch (kind) {
    case 0: {
      PolarParamDefinition d(PosArgs(b));
      const uint32_t v = polar(d.default_azimuth_, d.default_elevation_, d.default_distance_);
      b.insert(b.end(), {(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v});
      return d;
    }
    case 1: { Cart8ParamDefinition d(PosArgs(b)); d.default_x_ = i8("x"); d.default_y_ = i8("y"); d.default_z_ = i8("z"); return d; }
    case 2: { Cart16ParamDefinition d(PosArgs(b)); d.default_x_ = i16("x"); d.default_y_ = i16("y"); d.default_z_ = i16("z"); return d; }
    case 3: {
      DualPolarParamDefinition d(PosArgs(b));
      const uint32_t v = polar(d.default_first_azimuth_, d.default_first_elevation_, d.default_first_distance_);
      const uint32_t w = polar(d.default_second_azimuth_, d.default_second_elevation_, d.default_second_distance_);
      b.insert(b.end(), {(uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v, (uint8_t)(w >> 16), (uint8_t)(w >> 8), (uint8_t)w});
      return d;
    }
    case 4: { DualCart8ParamDefinition d(PosArgs(b)); d.default_first_x_ = i8("x"); d.default_first_y_ = i8("y"); d.default_first_z_ = i8("z"); d.default_second_x_ = i8("u"); d.default_second_y_ = i8("v"); d.default_second_z_ = i8("w"); return d; }
    default: { DualCart16ParamDefinition d(PosArgs(b)); d.default_first_x_ = i16("x"); d.default_first_y_ = i16("y"); d.default_first_z_ = i16("z"); d.default_second_x_ = i16("u"); d.default_second_y_ = i16("v"); d.default_second_z_ = i16("w"); return d; }
  }
}
// Rendering configurations: `first`, `second` are position kinds or -1.
static void Rendering(int first, int second, int offset) {
  Plan p;
  PutHead(p);
  RenderingConfig rc;
  Bytes b, ext;
  const uint8_t mode = sym_u8("mode") & 3, profile = sym_u8("profile") & 3;
  rc.headphones_rendering_mode = (RenderingConfig::HeadphonesRenderingMode)mode;
  rc.binaural_filter_profile = (RenderingConfig::BinauralFilterProfile)profile;
  rc.reserved = sym_u8("reserved");
  p.ok &= rc.reserved < 8;
  ext.push_back((uint8_t)((first >= 0) + (second >= 0)));
  for (int k : {first, second})
    if (k >= 0) rc.rendering_config_param_definitions.push_back(RenderingConfigParamDefinition::Create(Position(k, ext), {}));
  auto q = [&](int16_t v) { Put16(ext, v); return QFormatOrFloatingPoint::MakeFromQ7_8(v); };
  if (offset == 1) {
    ext.push_back(0);
    rc.element_gain_offset_config = ElementGainOffsetConfig::MakeValueType(q(sym_i16("offset")));
  } else if (offset == 2) {
    const int16_t d = sym_i16("default"), lo = sym_i16("lo"), hi = sym_i16("hi");
    ext.push_back(1);
    const auto qd = q(d), ql = q(lo), qh = q(hi);
    auto c = ElementGainOffsetConfig::CreateRangeType(qd, ql, qh);
    sym_assert(c.ok() == (lo <= d && d <= hi), "a range needs its default inside");
    if (!c.ok()) { sym_reach("range_refused"); return; }
    rc.element_gain_offset_config = *c;
  } else if (offset >= 3) {
    const uint8_t type = sym_u8("type");
    const Bytes data = SymBytes(offset - 3, "offset_bytes");
    auto c = ElementGainOffsetConfig::CreateExtensionType(type, absl::MakeConstSpan(data));
    sym_assert(c.ok() == (type >= 2), "extension types are the unassigned ones");
    if (!c.ok()) { sym_reach("range_refused"); return; }
    rc.element_gain_offset_config = *c;
    ext.push_back(type);
    PutUleb(ext, data.size());
    ext.insert(ext.end(), data.begin(), data.end());
  }
  const Bytes tail = SymBytes(sym_choose("tail", 3), "tail");
  ext.insert(ext.end(), tail.begin(), tail.end());
  rc.rendering_config_extension_bytes = tail;
  if (first < 0 && second < 0 && !offset && tail.empty()) ext.clear();
  b.push_back((uint8_t)(mode << 6 | (offset ? 1 : 0) << 5 | profile << 3 | (rc.reserved & 7)));
  PutUleb(b, ext.size());
  b.insert(b.end(), ext.begin(), ext.end());
  MixPresentationSubMix s;
  p.bytes.push_back(1);
  p.bytes.push_back(1);
  PutElement(p, s, 9, rc, b, sym_i16("gain"));
  s.output_mix_gain = Gain(4, 48000, 0, p.bytes);
  p.bytes.push_back(1);
  s.layouts.push_back(Stereo(p.bytes));
  p.subs.push_back(s);
  Check(p);
}
// Label counts: numbers of languages, names and element annotations.
static void Labels(int label, int languages, int names, int notes) {
  Plan p;
  p.count_label = label;
  for (int i = 0; i < languages; i++) p.languages.push_back(SymString("language"));
  for (int i = 0; i < names; i++) p.names.push_back(SymString("name"));
  p.ok = (languages == label) & (names == label) & (notes == label);
  p.ok &= Distinct(p.languages);
  PutHead(p);
  MixPresentationSubMix s;
  p.bytes.insert(p.bytes.end(), {1, 1, 9});
  SubMixAudioElement e{.audio_element_id = 9, .localized_element_annotations = {}, .rendering_config = {}};
  for (int i = 0; i < notes; i++) {
    e.localized_element_annotations.push_back(SymString("note"));
    PutString(p.bytes, e.localized_element_annotations.back());
  }
  p.bytes.insert(p.bytes.end(), {0, 0});
  e.element_mix_gain = Gain(3, 48000, 0, p.bytes);
  s.audio_elements.push_back(e);
  s.output_mix_gain = Gain(4, 48000, 0, p.bytes);
  p.bytes.push_back(1);
  s.layouts.push_back(Stereo(p.bytes));
  p.subs.push_back(s);
  Check(p);
}
// Sub-mix structure: counts of elements per sub-mix, symbolic ids and layouts.
static void Structure(const std::vector<int>& counts, int layouts) {
  Plan p;
  p.id = sym_u32("id") & 127;
  PutHead(p);
  p.bytes.push_back((uint8_t)counts.size());
  std::vector<uint8_t> ids;
  p.ok = !counts.empty();
  for (int n : counts) {
    MixPresentationSubMix s;
    p.bytes.push_back((uint8_t)n);
    p.ok &= n > 0;
    for (int i = 0; i < n; i++) {
      const uint8_t id = sym_u8("element") & 127;
      for (uint8_t o : ids) p.ok &= o != id;
      ids.push_back(id);
      PutElement(p, s, id, {}, kNoRendering);
    }
    s.output_mix_gain = Gain(4, 48000, 0, p.bytes);
    p.bytes.push_back((uint8_t)layouts);
    bool stereo = false;
    for (int i = 0; i < layouts; i++) {
      const uint8_t ss = sym_u8("sound_system") & 15, binaural = sym_u8("binaural") & 1;
      MixPresentationLayout l;
      l.loudness = LoudnessInfo();
      if (binaural) {
        l.loudness_layout = {.layout_type = Layout::kLayoutTypeBinaural, .specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = 0}};
        p.bytes.push_back(0xc0);
      } else {
        l.loudness_layout = {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = Ss{.sound_system = (Ss::SoundSystem)ss, .reserved = 0}};
        p.bytes.push_back((uint8_t)(0x80 | ss << 2));
        stereo |= ss == 0;
      }
      p.bytes.insert(p.bytes.end(), 5, 0);
      s.layouts.push_back(l);
    }
    p.ok &= stereo;
    p.subs.push_back(s);
  }
  Check(p);
  if (p.ok || !layouts || counts.size() != 1 || counts[0] == 0) return;
  // What the writer refuses for lack of a stereo layout is readable, and gains one.
  auto rb = Reader(p.bytes);
  auto r = MixPresentationObu::CreateFromBuffer(Hdr(kObuIaMixPresentation), (int64_t)p.bytes.size(), *rb);
  bool unique = true;
  for (size_t i = 0; i < ids.size(); i++) for (size_t j = 0; j < i; j++) unique &= ids[i] != ids[j];
  sym_assert(r.ok() == unique, "the reader rejects repeated audio elements and nothing else here");
  if (!r.ok()) return;
  auto& got = r->sub_mixes_[0].layouts;
  sym_assert(got.size() == (size_t)layouts + 1, "a missing stereo layout is added");
  for (int i = 0; i < layouts && i < (int)got.size(); i++) sym_assert(got[i] == p.subs[0].layouts[i], "the layouts present are kept");
  sym_assert(got.back().loudness_layout == (Layout{.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = Ss{.sound_system = Ss::kSoundSystemA_0_2_0, .reserved = 0}}), "the added layout is stereo");
  Bytes w;
  sym_assert(WrittenPayload(*r, w), "the completed presentation can be written");
  sym_reach("completed");
}
static void Base(Plan& p) {
  PutHead(p);
  MixPresentationSubMix s;
  p.bytes.insert(p.bytes.end(), {1, 1});
  PutElement(p, s, 9, {}, kNoRendering);
  s.output_mix_gain = Gain(4, 48000, 0, p.bytes);
  p.bytes.push_back(1);
  s.layouts.push_back(Stereo(p.bytes));
  p.subs.push_back(s);
}
// Tags: bit k of `language` makes tag k a content_language tag with a value of
// a chosen length.
static void Tags(int n, int language) {
  Plan p;
  p.optional_flag = sym_choose("flag", 2);
  Base(p);
  MixPresentationTags t;
  p.bytes.push_back((uint8_t)n);
  int count = 0;
  for (int i = 0; i < n; i++) {
    MixPresentationTags::Tag tag;
    if (language >> i & 1) {
      tag.tag_name = "content_language";
      const int len = sym_choose("length", 3) + 2;
      for (int k = 0; k < len; k++) tag.tag_value += SymString("value");
      p.ok &= len == 3;
      count++;
    } else {
      tag.tag_name = SymString("tag");
      if (sym_choose("empty", 2)) tag.tag_value = SymString("value");
    }
    PutString(p.bytes, tag.tag_name);
    PutString(p.bytes, tag.tag_value);
    t.tags.push_back(tag);
  }
  p.ok &= count <= 1;
  p.tags = t;
  p.ok &= !p.optional_flag;  // the flag announces fields that are not there
  Check(p);
}
static void Optional(int rest) {
  Plan p;
  p.optional_flag = true;
  Base(p);
  if (sym_choose("tags", 2)) {
    p.tags = MixPresentationTags{};
    p.bytes.push_back(0);
  } else {
    p.ok = false;
  }
  MixPresentationOptionalFields f;
  f.optional_fields_size = sym_u32("size");
  f.preferred_loudspeaker_renderer = (PreferredLoudspeakerRenderer)sym_u8("loudspeaker");
  f.preferred_binaural_renderer = (PreferredBinauralRenderer)sym_u8("binaural");
  f.optional_fields_remaining_bytes = SymBytes(rest, "rest");
  p.ok &= f.optional_fields_size == (uint32_t)rest + 2;
  p.bytes.push_back((uint8_t)(rest + 2));
  p.bytes.push_back((uint8_t)f.preferred_loudspeaker_renderer);
  p.bytes.push_back((uint8_t)f.preferred_binaural_renderer);
  p.bytes.insert(p.bytes.end(), f.optional_fields_remaining_bytes.begin(), f.optional_fields_remaining_bytes.end());
  p.fields = f;
  Check(p);
}
// Reading: the end of a presentation is arbitrary.
static void ReadTail(int n, bool flag) {
  Plan p;
  Base(p);
  Bytes in = p.bytes;
  const Bytes tail = SymBytes(n, "tail");
  in.insert(in.end(), tail.begin(), tail.end());
  ObuHeader h = Hdr(kObuIaMixPresentation);
  h.type_specific_flag = flag;
  auto rb = Reader(in);
  auto r = MixPresentationObu::CreateFromBuffer(h, (int64_t)in.size(), *rb);
  // Independent reader of the tail.
  size_t pos = 0;
  bool ok = true;
  std::vector<std::pair<Bytes, Bytes>> tags;
  Bytes fields;
  uint32_t size = 0;
  auto str = [&](Bytes& s) {
    while (ok) {
      if (pos >= tail.size()) { ok = false; return; }
      const uint8_t c = tail[pos++];
      if (!c) return;
      s.push_back(c);
    }
  };
  if (!n) {
    ok = !flag;
  } else {
    const int count = tail[pos++];
    for (int i = 0; i < count && ok; i++) {
      Bytes a, b;
      str(a);
      if (ok) str(b);
      tags.push_back({a, b});
    }
    if (ok && flag) {
      ok = RefUleb(tail, pos, size) && size >= 2 && pos + size <= tail.size();
      if (ok) { fields.assign(tail.begin() + pos, tail.begin() + pos + size); pos += size; }
    }
  }
  sym_assert(r.ok() == ok, "the reader accepts exactly the well-formed endings");
  if (!r.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * (int64_t)in.size(), "the whole payload is consumed");
  sym_assert(r->mix_presentation_tags_.has_value() == (n > 0), "tags are present when there is an ending");
  sym_assert(r->optional_fields_.has_value() == flag, "optional fields are present when announced");
  if (n) {
    sym_assert(r->mix_presentation_tags_->tags.size() == tags.size(), "every tag is read");
    for (size_t i = 0; i < tags.size() && i < r->mix_presentation_tags_->tags.size(); i++) {
      const auto& t = r->mix_presentation_tags_->tags[i];
      sym_assert(SameBytes(Bytes(t.tag_name.begin(), t.tag_name.end()), tags[i].first) && SameBytes(Bytes(t.tag_value.begin(), t.tag_value.end()), tags[i].second), "tags keep their contents");
    }
  }
  if (flag) {
    sym_assert(r->optional_fields_->optional_fields_size == size, "the optional fields keep their size");
    Bytes got = {(uint8_t)r->optional_fields_->preferred_loudspeaker_renderer, (uint8_t)r->optional_fields_->preferred_binaural_renderer};
    got.insert(got.end(), r->optional_fields_->optional_fields_remaining_bytes.begin(), r->optional_fields_->optional_fields_remaining_bytes.end());
    sym_assert(SameBytes(got, fields), "the optional fields keep their contents");
  }
  Bytes w;
  sym_assert(WrittenPayload(*r, w) && w.size() <= in.size(), "what was read can be written");
  sym_reach("tail");
}
// Reading: one layout with arbitrary loudness bytes (after a stereo layout).
static void ReadLoudness(int n) {
  Plan p;
  PutHead(p);
  MixPresentationSubMix s;
  p.bytes.insert(p.bytes.end(), {1, 1});
  PutElement(p, s, 9, {}, kNoRendering);
  s.output_mix_gain = Gain(4, 48000, 0, p.bytes);
  p.bytes.push_back(2);
  Stereo(p.bytes);
  Bytes in = p.bytes;
  const Bytes l = SymBytes(n, "layout");
  in.insert(in.end(), l.begin(), l.end());
  auto rb = Reader(in);
  auto r = MixPresentationObu::CreateFromBuffer(Hdr(kObuIaMixPresentation), (int64_t)in.size(), *rb);
  size_t pos = 6;
  bool ok = l.size() >= pos;
  if (ok && (l[1] & 1)) ok = (pos += 2) <= l.size();
  size_t anchors = 0, first = 0;
  if (ok && (l[1] & 2)) {
    ok = pos < l.size();
    if (ok) {
      anchors = l[pos++];
      first = pos;
      ok = (pos += 3 * anchors) <= l.size();
      for (size_t i = 0; ok && i < anchors; i++) for (size_t j = 0; j < i; j++) if (l[first + 3 * i] == l[first + 3 * j]) ok = false;
    }
  }
  if (ok && (l[1] & 0xfc)) {
    uint32_t size = 0;
    ok = RefUleb(l, pos, size) && pos + size <= l.size();
    if (ok) pos += size;
  }
  if (ok && pos != l.size()) { sym_stop(); }  // the rest would be tags
  sym_assert(r.ok() == ok, "the reader accepts exactly the well-formed layouts");
  if (!r.ok() || !ok) { sym_reach("rejected"); return; }
  const auto& got = r->sub_mixes_[0].layouts[1];
  sym_assert(got.loudness_layout.layout_type == l[0] >> 6, "layout type");
  sym_assert(got.loudness.info_type == l[1], "information type");
  sym_assert(got.loudness.integrated_loudness == (int16_t)(l[2] << 8 | l[3]) && got.loudness.digital_peak == (int16_t)(l[4] << 8 | l[5]), "loudness values");
  sym_assert(got.loudness.anchored_loudness.anchor_elements.size() == anchors, "anchors");
  Bytes w;
  const bool written = WrittenPayload(*r, w);
  sym_assert(written, "what was read can be written");
  if (written && w.size() == in.size()) sym_assert(SameBytes(w, in), "rewriting gives the same bytes");
  sym_assert(w.size() == in.size() || (l[1] & 0xfc), "only a padded size may change the length");
  sym_reach("loudness");
}
static void Channels() {
  // Channels of every sound system: bottom + middle + top plus LFEs.
  static const int kUpper[] = {0, 0, 2, 4, 4, 3, 4, 9, 0, 4, 2, 2, 0, 6, 5}, kMiddle[] = {2, 5, 5, 5, 5, 7, 9, 10, 7, 7, 7, 3, 1, 9, 7}, kBottom[] = {0, 0, 0, 0, 1, 0, 0, 3, 0, 0, 0, 0, 0, 0, 4}, kLfe[] = {0, 1, 1, 1, 1, 2, 1, 2, 1, 1, 1, 1, 0, 1, 1};
  const int type = sym_choose("type", 4);
  const uint8_t ss = sym_u8("sound_system") & 15, reserved = sym_u8("reserved");
  Layout l;
  l.layout_type = (Layout::LayoutType)type;
  if (type == 2) l.specific_layout = Ss{.sound_system = (Ss::SoundSystem)ss, .reserved = reserved};
  else l.specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = reserved};
  int32_t n = -1;
  const bool ok = MixPresentationObu::GetNumChannelsFromLayout(l, n).ok();
  sym_assert(ok == (type == 3 || (type == 2 && ss < 15)), "the layouts with a known number of channels");
  if (!ok) return;
  if (type == 3) { sym_assert(n == 2, "binaural is two channels"); return; }
  bool right = false;
  for (int i = 0; i < 15; i++) right |= (ss == i) & (n == kUpper[i] + kMiddle[i] + kBottom[i] + kLfe[i]);
  sym_assert(right, "number of channels of the sound system");
  sym_reach("channel_count");
}
// A rendering configuration whose extension has `n` bytes of any content and
// `after` bytes behind it. Content which is no known definition is opaque.
static void ReadRendering(int n, int after) {
  Bytes b = {sym_u8("flags"), (uint8_t)n};
  const Bytes ext = SymBytes(n, "extension"), rest = SymBytes(after, "after");
  b.insert(b.end(), ext.begin(), ext.end());
  b.insert(b.end(), rest.begin(), rest.end());
  const bool flag = b[0] & 32;
  // The oracle covers no definition, or a first one of an unassigned kind.
  const Bytes all(b.begin() + 2, b.end());
  bool known = false, opaque = false, fails = false;
  size_t used = 0;
  if (n == 0) known = true;
  else if (all[0] == 0) {
    known = true;
    used = 1;
    if (flag) {
      const auto at = [&](size_t i) { return (int16_t)(uint16_t)(all[i] << 8 | all[i + 1]); };
      if (all.size() < 2) opaque = true;
      else if (all[1] == 0) used = 4;
      else if (all[1] == 1) { used = 8; if (all.size() >= 8) opaque = !((at(4) <= at(2)) & (at(2) <= at(6))); }
      else if (all.size() < 3) opaque = true;
      else if (all[2] < 128) used = 3 + (size_t)sym_concretize(all[2]);
      else known = false;
      if (used > all.size()) opaque = true;
    }
    if (known && !opaque) fails = used > (size_t)n;
  } else {
    // The known kinds are read in Rendering() and, with any content, by P15.
    sym_assume((all[0] < 128) & (all[1] < 128) & ((all[1] < 3) | (all[1] >= 9)));
    known = opaque = true;
  }
  auto rb = Reader(b);
  auto rc = RenderingConfig::CreateFromBuffer(*rb);
  if (known) sym_assert(rc.ok() == !fails, "a rendering configuration is read unless its definitions are longer than it");
  if (!rc.ok()) { sym_reach("overrun"); return; }
  sym_assert(rb->Tell() == 8 * (2 + n), "exactly the rendering configuration is consumed");
  sym_assert(((int)rc->headphones_rendering_mode == b[0] >> 6) & ((int)rc->binaural_filter_profile == (b[0] >> 3 & 3)) & (rc->reserved == (b[0] & 7)), "modes");
  if (!known || fails) return;
  sym_assert(rc->rendering_config_param_definitions.empty(), "no definition");
  sym_assert(rc->element_gain_offset_config.has_value() == (n && flag && !opaque), "an element gain offset is there when it is announced and known");
  if (opaque) used = 0;
  sym_assert(SameBytes(rc->rendering_config_extension_bytes, Bytes(ext.begin() + (used < (size_t)n ? used : n), ext.end())), "the rest of the extension is kept");
  sym_reach(opaque ? "opaque" : "rendering_read");
  if (opaque || (flag && !n)) return;
  WriteBitBuffer wb(0);
  sym_assert(rc->ValidateAndWrite(wb).ok(), "written back");
  if (n > 1 || flag) sym_assert(SameBytes(wb.bit_buffer(), Bytes(b.begin(), b.begin() + 2 + n)), "byte-identical");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c == 0) { Channels(); return; }
  c--;
  if (c < 36) { static const int kA[] = {-1, 1, 2}, kE[] = {-1, 0, 2}; Loudness(c / 9, kA[c / 3 % 3], kE[c % 3]); return; }
  c -= 36;
  if (c < 5 + 6 + 2) {
    if (c < 5) Rendering(-1, -1, c);
    else if (c < 11) Rendering(c - 5, -1, (c - 5) % 3);
    else if (c == 11) Rendering(1, 5, 2);
    else Rendering(4, 0, 1);
    return;
  }
  c -= 13;
  if (c < 3) { Labels(c, c, c, c); return; }
  c -= 3;
  if (c < 3) { Labels(1, c == 0 ? 0 : 1, c == 1 ? 2 : 1, c == 2 ? 0 : 1); return; }
  c -= 3;
  if (c < 8) {
    static const std::vector<int> k[] = {{}, {0}, {1}, {2}, {1, 1}, {1, 0}, {3}, {1}};
    Structure(k[c], c == 7 ? 0 : c < 4 ? 2 : 1);
    return;
  }
  c -= 8;
  if (c < 8) { static const int kN[] = {0, 1, 1, 2, 2, 2, 2, 3}, kL[] = {0, 0, 1, 0, 1, 2, 3, 5}; Tags(kN[c], kL[c]); return; }
  c -= 8;
  if (c < 3) { Optional(c); return; }
  c -= 3;
  if (c < 10) { ReadTail(c / 2, c % 2); return; }
  c -= 10;
  if (c < 10) { static const int kN[] = {0, 1, 2, 3, 4, 5, 6, 8, 3, 9}; ReadRendering(kN[c], c == 8 ? 0 : 5); return; }
  c -= 10;
  ReadLoudness(5 + c);
  return;
}
