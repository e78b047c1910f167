// Audio elements: structure, acceptance and round trips.
#include "obu_roundtrip.h"
#include "iamf/obu/ambisonics_config.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
using namespace vh;
using Ids = std::vector<DecodedUleb128>;
static const ObuHeader kHdr = Hdr(kObuIaAudioElement);
static void PutLeb(Bytes& b, int size, uint32_t& value) {
  value = 0;
  for (int i = 0; i < size; i++) {
    const uint8_t x = sym_u8("leb") & (i == 4 ? 15 : 127);
    if (i) sym_assume(x != 0 || i + 1 < size);
    value |= (uint32_t)x << (7 * i);
    b.push_back(i + 1 < size ? x | 128 : x);
  }
}
static bool Unique(const Ids& v) {
  bool u = true;
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = 0; j < i; j++) u &= v[i] != v[j];
  return u;
}
// The configuration part of a payload.
struct Expect {
  bool ok = true;
  int type = 0;
  uint32_t substreams = 0;
  std::vector<ChannelAudioLayerConfig> layers;
  uint8_t reserved = 0, objects = 0;
  Bytes bytes;
};
static void PutLayers(Bytes& b, Expect& e, int count, bool wild) {
  e.reserved = sym_u8("reserved") & 31;
  b.push_back((uint8_t)(count << 5 | e.reserved));
  uint32_t sum = 0;
  bool binaural = false;
  for (int i = 0; i < count; i++) {
    ChannelAudioLayerConfig l;
    const bool gain = wild && sym_choose("output_gain", 2), expanded = wild && sym_choose("expanded", 2);
    const uint8_t layout = sym_u8("layout") & 15;
    sym_assume((layout == 15) == expanded);
    const uint8_t flags = sym_u8("flags") & 7;
    b.push_back((uint8_t)(layout << 4 | gain << 3 | flags));
    l.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)layout;
    l.output_gain_is_present_flag = gain;
    l.recon_gain_is_present_flag = flags >> 2;
    l.reserved_a = flags & 3;
    b.push_back(l.substream_count = sym_u8("substreams"));
    b.push_back(l.coupled_substream_count = sym_u8("coupled"));
    if (gain) {
      const uint8_t g = sym_u8("gain_flags");
      l.output_gain_flag = g >> 2;
      l.reserved_b = g & 3;
      b.push_back(g);
      l.output_gain = sym_i16("gain");
      b.push_back((uint8_t)((uint16_t)l.output_gain >> 8));
      b.push_back((uint8_t)l.output_gain);
    }
    if (expanded) {
      b.push_back(sym_u8("expanded_layout"));
      l.expanded_loudspeaker_layout = (ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)b.back();
    }
    sum += l.substream_count;
    binaural |= layout == 9;
    e.layers.push_back(l);
  }
  e.ok = (count >= 1) & (count <= 6) & (sum == e.substreams) & !(binaural & (count != 1));
}
static void PutConfig(Bytes& b, Expect& e, int kind) {
  switch (kind) {
    case 0: case 1: case 2: case 3: return PutLayers(b, e, kind, true);
    case 4: return PutLayers(b, e, 6, false);
    case 5: return PutLayers(b, e, 7, false);
    case 6: case 7: {  // Ambisonics.
      const uint8_t n = kind == 6 ? 1 : 4, subs = sym_u8("subs");
      b.insert(b.end(), {0, n, subs});
      bool ok = (subs >= 1) & (subs <= n) & (subs == e.substreams);
      Bytes map = SymBytes(n, "map");
      for (uint8_t m : map) ok &= (m == 255) | (m < subs);
      for (int s = 0; s < n; s++) {
        bool named = false;
        for (uint8_t m : map) named |= m == s;
        ok &= named | (s >= subs);
      }
      b.insert(b.end(), map.begin(), map.end());
      e.ok = ok;
      e.bytes = map;
      return;
    }
    case 8: {  // Projection with one substream.
      const uint8_t subs = sym_u8("subs"), coupled = sym_u8("coupled");
      b.insert(b.end(), {1, 1, subs, coupled});
      e.bytes = SymBytes(2, "matrix");
      b.insert(b.end(), e.bytes.begin(), e.bytes.end());
      e.ok = (coupled == 0) & (subs == 1) & (e.substreams == 1);
      return;
    }
    case 9: case 10: case 11: {  // Objects.
      const uint8_t size = kind - 9;
      b.push_back(size);
      if (size) b.push_back(e.objects = sym_u8("objects"));
      for (int i = 1; i < size; i++) { e.bytes.push_back(sym_u8("object_extension")); b.push_back(e.bytes.back()); }
      e.ok = (size >= 1) & (e.objects >= 1) & (e.objects <= 2);
      return;
    }
    case 15: case 16: {  // Objects with a long extension.
      const int size = kind == 15 ? 128 : 255;
      b.push_back((uint8_t)size);
      b.push_back(e.objects = sym_u8("objects"));
      for (int i = 1; i < size; i++) { e.bytes.push_back(i == 1 || i + 1 == size ? sym_u8("object_extension") : (uint8_t)i); b.push_back(e.bytes.back()); }
      e.ok = (e.objects >= 1) & (e.objects <= 2);
      return;
    }
    case 17: {
      e.bytes = Bytes(200, 9);
      e.bytes[127] = sym_u8("extension");
      e.bytes[199] = sym_u8("extension");
      b.insert(b.end(), {200, 1});
      b.insert(b.end(), e.bytes.begin(), e.bytes.end());
      return;
    }
    default: {
      e.bytes = SymBytes(kind - 12, "extension");
      b.push_back(kind - 12);
      b.insert(b.end(), e.bytes.begin(), e.bytes.end());
    }
  }
}
static const int kKinds = 15;
static int TypeOf(int kind) { return kind < 6 ? 0 : kind < 9 ? 1 : kind < 12 || kind == 15 || kind == 16 ? 2 : 3; }
static bool SameLayer(const ChannelAudioLayerConfig& a, const ChannelAudioLayerConfig& b) {
  bool same = (a.loudspeaker_layout == b.loudspeaker_layout) & (a.output_gain_is_present_flag == b.output_gain_is_present_flag) & (a.recon_gain_is_present_flag == b.recon_gain_is_present_flag) & (a.reserved_a == b.reserved_a) &
              (a.substream_count == b.substream_count) & (a.coupled_substream_count == b.coupled_substream_count);
  if (a.output_gain_is_present_flag) same &= (a.output_gain_flag == b.output_gain_flag) & (a.reserved_b == b.reserved_b) & (a.output_gain == b.output_gain);
  if (a.loudspeaker_layout == 15) same &= a.expanded_loudspeaker_layout.has_value() && b.expanded_loudspeaker_layout.has_value() && *a.expanded_loudspeaker_layout == *b.expanded_loudspeaker_layout;
  return same;
}
static void CheckConfig(const AudioElementObu& o, const Expect& e) {
  switch (e.type) {
    case 0: {
      const auto* c = std::get_if<ScalableChannelLayoutConfig>(&o.config_);
      bool same = c && c->GetNumLayers() == e.layers.size() && c->reserved == e.reserved;
      if (same) for (size_t i = 0; i < e.layers.size(); i++) same &= SameLayer(e.layers[i], c->channel_audio_layer_configs[i]);
      sym_assert(same, "layers are kept");
      sym_reach("channels");
      break;
    }
    case 1:
      sym_assert(std::holds_alternative<AmbisonicsConfig>(o.config_) && std::get<AmbisonicsConfig>(o.config_).GetNumSubstreams() == e.substreams, "ambisonics configuration");
      sym_reach("scene");
      break;
    case 2: {
      const auto* c = std::get_if<ObjectsConfig>(&o.config_);
      sym_assert(c && c->GetNumObjects() == e.objects && SameBytes(Bytes(c->GetObjectsConfigExtensionBytesView().begin(), c->GetObjectsConfigExtensionBytesView().end()), e.bytes), "objects are kept");
      sym_reach("objects");
      break;
    }
    default: {
      const auto* c = std::get_if<ExtensionConfig>(&o.config_);
      sym_assert(c && SameBytes(c->audio_element_config_bytes, e.bytes), "an extension configuration is kept");
      sym_reach("extension");
    }
  }
}
// Parameter layouts: sequences of parameter types.
static const int kParams[][3] = {{-1}, {1, -1}, {2, -1}, {1, 2, -1}, {0, -1}, {7, -1}, {1, 1, -1}, {7, 8, -1}, {2, 2, -1}, {7, 7, -1}, {7, 2, -1}, {7, 0, -1}};
static const int kParamSets = 12;
static bool PutParams(Bytes& b, int set, std::vector<int>& types) {
  int n = 0;
  while (n < 3 && kParams[set][n] >= 0) types.push_back(kParams[set][n++]);
  b.push_back(n);
  bool ok = true;
  for (int i = 0; i < n; i++) {
    const int t = types[i];
    b.push_back(t);
    for (int j = 0; j < i; j++) ok &= types[j] != t;
    if (t == 0) ok = false;
    if (t >= 3) {
      Bytes x = SymBytes(2, "param_extension");
      b.push_back(2);
      b.insert(b.end(), x.begin(), x.end());
      continue;
    }
    const uint8_t rate = sym_u8("rate") & 127, duration = sym_u8("duration") & 127;
    b.push_back(sym_u8("param_id") & 127);
    b.push_back(rate);
    b.push_back(sym_u8("param_reserved") & 127);
    b.push_back(duration);
    b.push_back(duration);
    ok &= (rate != 0) & (duration != 0);
    if (t == 1) {
      const uint8_t mode = sym_u8("dmixp");
      ok &= ((mode >> 5) != 3) & ((mode >> 5) != 7);
      b.push_back(mode);
      b.push_back(sym_u8("default_w"));
    }
    if (t == 0) { b.push_back(0); b.push_back(0); }
  }
  return ok;
}
static void Read(int kind, int substreams, int set, int leb, int extra) {
  Bytes b;
  Expect e;
  uint32_t id, codec;
  PutLeb(b, leb, id);
  const uint8_t reserved = sym_u8("reserved5") & 31;
  e.type = TypeOf(kind);
  int type = e.type;
  if (e.type == 3) type += (int)sym_choose("extension_type", 5);
  b.push_back((uint8_t)(type << 5 | reserved));
  PutLeb(b, leb, codec);
  e.substreams = substreams;
  b.push_back(substreams);
  Ids ids(substreams);
  for (auto& x : ids) PutLeb(b, leb > 1 ? 2 : 1, x);
  std::vector<int> types;
  bool ok = PutParams(b, set, types);
  ok &= Unique(ids);
  PutConfig(b, e, kind);
  ok &= e.ok;
  const size_t used = b.size();
  if (extra < 0) b.pop_back();
  if (extra > 0) b.push_back(sym_u8("footer"));
  if (extra < 0) ok = false;
  auto rb = Reader(b);
  auto obu = AudioElementObu::CreateFromBuffer(kHdr, b.size(), *rb);
  sym_assert(obu.ok() == ok, "an audio element is accepted exactly when it is complete and consistent");
  if (!obu.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * (int64_t)b.size(), "exactly the payload is consumed");
  sym_assert((obu->GetAudioElementId() == id) & (obu->GetCodecConfigId() == codec) & ((int)obu->GetAudioElementType() == type), "ids and type");
  bool same = obu->audio_substream_ids_.size() == ids.size() && obu->GetNumSubstreams() == ids.size();
  if (same) for (size_t i = 0; i < ids.size(); i++) same &= obu->audio_substream_ids_[i] == ids[i];
  sym_assert(same, "substream ids in order");
  same = obu->audio_element_params_.size() == types.size() && obu->GetNumParameters() == types.size();
  if (same) for (size_t i = 0; i < types.size(); i++) same &= (int)obu->audio_element_params_[i].GetType() == types[i];
  sym_assert(same, "parameter types in order");
  for (const auto& p : obu->audio_element_params_)
    if (auto* r = std::get_if<ReconGainParamDefinition>(&p.param_definition)) sym_assert(r->audio_element_id_ == id, "recon gain belongs to this element");
  sym_assert(SameBytes(obu->footer_, Bytes(b.begin() + used, b.end())), "the rest is kept as footer");
  CheckConfig(*obu, e);
  Bytes w;
  ObuHeader h;
  const bool written = WrittenPayload(*obu, w, &h);
  sym_assert(written && SameBytes(w, b), "written back byte-identically");
  if (!written) return;
  auto rb2 = Reader(w);
  auto again = AudioElementObu::CreateFromBuffer(h, w.size(), *rb2);
  sym_assert(again.ok() && again->GetAudioElementType() == obu->GetAudioElementType() && again->config_.index() == obu->config_.index(), "reads back");
  sym_reach("read");
}
// ------------------------------------------------------------------ writing
static ChannelAudioLayerConfig SymLayer(bool wild) {
  ChannelAudioLayerConfig l;
  l.loudspeaker_layout = (ChannelAudioLayerConfig::LoudspeakerLayout)(wild ? sym_u8("layout") & 15 : 9 * sym_bool("binaural"));
  l.output_gain_is_present_flag = wild && sym_choose("output_gain", 2);
  l.recon_gain_is_present_flag = sym_bool("recon");
  l.reserved_a = sym_u8("reserved_a");
  l.substream_count = sym_u8("count");
  l.coupled_substream_count = sym_u8("coupled");
  l.output_gain_flag = sym_u8("gain_flags");
  l.reserved_b = sym_u8("reserved_b");
  l.output_gain = sym_i16("gain");
  if (wild && sym_choose("expanded", 2)) l.expanded_loudspeaker_layout = (ChannelAudioLayerConfig::ExpandedLoudspeakerLayout)sym_u8("expanded_layout");
  return l;
}
static void Finish(const absl::StatusOr<AudioElementObu>& obu, bool valid, const Bytes& expected, const Expect& e) {
  Bytes w;
  ObuHeader h;
  const bool ok = WrittenPayload(*obu, w, &h);
  sym_assert(ok == valid, "an audio element is written exactly when its fields fit");
  if (!ok || !valid) { sym_reach("unwritable"); return; }
  sym_assert(SameBytes(w, expected), "written bytes");
  auto rb = Reader(w);
  auto again = AudioElementObu::CreateFromBuffer(h, w.size(), *rb);
  sym_assert(again.ok(), "a written element reads back");
  if (!again.ok()) return;
  CheckConfig(*again, e);
  sym_reach("written");
}
static void PutHead(Bytes& b, uint32_t id, int type, uint8_t reserved, uint32_t codec, const Ids& ids) {
  PutUleb(b, id);
  b.push_back((uint8_t)(type << 5 | (reserved & 31)));
  PutUleb(b, codec);
  PutUleb(b, ids.size());
  for (uint32_t x : ids) PutUleb(b, x);
  b.push_back(0);
}
static void WriteLayers(int layers, int substreams) {
  ScalableChannelLayoutConfig c;
  Ids ids(substreams);
  for (auto& x : ids) { x = sym_u32("substream"); if (substreams > 1) sym_assume(x < 128); }
  const uint32_t id = sym_u32("id"), codec = sym_u32("codec");
  if (layers > 1) sym_assume((id < 128) & (codec < 128));
  const uint8_t reserved = sym_u8("reserved");
  c.reserved = sym_u8("config_reserved");
  uint32_t sum = 0;
  bool binaural = false, fits = (reserved < 32) & (c.reserved < 32);
  for (int i = 0; i < layers; i++) {
    c.channel_audio_layer_configs.push_back(SymLayer(layers <= 2));
    const auto& l = c.channel_audio_layer_configs.back();
    sum += l.substream_count;
    binaural |= l.loudspeaker_layout == 9;
    fits &= (l.reserved_a < 4) & !(l.output_gain_is_present_flag & ((l.output_gain_flag > 63) | (l.reserved_b > 3)));
    fits &= l.loudspeaker_layout != 15 || l.expanded_loudspeaker_layout.has_value();
  }
  const bool ok = Unique(ids) & (layers >= 1) & (layers <= 6) & (sum == (uint32_t)substreams) & !(binaural & (layers != 1));
  auto obu = AudioElementObu::CreateForScalableChannelLayout(kHdr, id, reserved, codec, absl::MakeConstSpan(ids), c);
  sym_assert(obu.ok() == ok, "a channel-based element is created exactly when its layers are consistent");
  if (!obu.ok() || !ok) { sym_reach("refused"); return; }
  Expect e;
  e.layers = c.channel_audio_layer_configs;
  e.reserved = c.reserved;
  Bytes x;
  PutHead(x, id, 0, reserved, codec, ids);
  x.push_back((uint8_t)(layers << 5 | (c.reserved & 31)));
  for (const auto& l : e.layers) {
    x.push_back((uint8_t)(l.loudspeaker_layout << 4 | l.output_gain_is_present_flag << 3 | l.recon_gain_is_present_flag << 2 | (l.reserved_a & 3)));
    x.push_back(l.substream_count);
    x.push_back(l.coupled_substream_count);
    if (l.output_gain_is_present_flag) {
      x.push_back((uint8_t)(l.output_gain_flag << 2 | (l.reserved_b & 3)));
      x.push_back((uint8_t)((uint16_t)l.output_gain >> 8));
      x.push_back((uint8_t)l.output_gain);
    }
    if (l.loudspeaker_layout == 15 && l.expanded_loudspeaker_layout.has_value()) x.push_back(*l.expanded_loudspeaker_layout);
  }
  Finish(obu, fits, x, e);
}
static void ManyLayers(int layers) {
  ScalableChannelLayoutConfig c;
  c.channel_audio_layer_configs.resize(layers, ChannelAudioLayerConfig{.loudspeaker_layout = ChannelAudioLayerConfig::kLayoutMono, .output_gain_is_present_flag = false, .recon_gain_is_present_flag = false, .reserved_a = 0, .substream_count = 0, .coupled_substream_count = 0});
  c.channel_audio_layer_configs[0].substream_count = sym_u8("count");
  Ids ids = {sym_u32("substream")};
  auto obu = AudioElementObu::CreateForScalableChannelLayout(kHdr, 0, 0, 0, absl::MakeConstSpan(ids), c);
  sym_assert(obu.ok() == ((layers <= 6) & (c.channel_audio_layer_configs[0].substream_count == 1)), "at most six layers");
  // The other side of the limit: an element changed after it was created.
  c.channel_audio_layer_configs.resize(1);
  c.channel_audio_layer_configs[0].substream_count = 1;
  auto one = AudioElementObu::CreateForScalableChannelLayout(kHdr, 0, 0, 0, absl::MakeConstSpan(ids), c);
  if (!one.ok()) { sym_fail("one layer is valid"); return; }
  std::get<ScalableChannelLayoutConfig>(one->config_).channel_audio_layer_configs.resize(layers, ChannelAudioLayerConfig{.loudspeaker_layout = ChannelAudioLayerConfig::kLayoutMono, .output_gain_is_present_flag = false, .recon_gain_is_present_flag = false, .reserved_a = 0, .substream_count = 0, .coupled_substream_count = 0});
  Bytes w;
  sym_assert(WrittenPayload(*one, w) == (layers <= 6), "at most six layers are written");
  sym_reach("many_layers");
}
static void WriteOther(int kind) {
  const uint32_t id = sym_u32("id"), codec = sym_u32("codec");
  const uint8_t reserved = sym_u8("reserved");
  Expect e;
  Bytes x;
  if (kind < 3) {
    const int n = kind;
    Ids ids(n);
    for (auto& s : ids) s = sym_u32("substream") & 127;
    AmbisonicsConfig c{.ambisonics_config = *AmbisonicsMonoConfig::Create(2, {0, 1, 255, 0})};
    auto obu = AudioElementObu::CreateForAmbisonics(kHdr, id, reserved, codec, absl::MakeConstSpan(ids), c);
    const bool ok = n == 2 && Unique(ids);
    sym_assert(obu.ok() == ok, "an ambisonics element needs as many unique substreams as its configuration");
    if (!obu.ok() || !ok) { sym_reach("refused"); return; }
    e.type = 1;
    e.substreams = 2;
    PutHead(x, id, 1, reserved, codec, ids);
    x.insert(x.end(), {0, 4, 2, 0, 1, 255, 0});
    return Finish(obu, reserved < 32, x, e);
  }
  if (kind < 7) {
    const int n = kind == 6 ? 255 : kind - 3;
    const uint8_t objects = sym_u8("objects");
    e.bytes = kind == 6 ? Bytes(255, 7) : SymBytes(n, "object_extension");
    auto c = ObjectsConfig::Create(objects, absl::MakeConstSpan(e.bytes));
    const bool ok = (objects == 1) | (objects == 2);
    sym_assert(c.ok() == ok, "one or two objects");
    if (!c.ok() || !ok) { sym_reach("refused"); return; }
    const uint32_t substream = sym_u32("substream");
    auto obu = AudioElementObu::CreateForObjects(kHdr, id, reserved, codec, substream, *c);
    sym_assert(obu.ok(), "created");
    e.type = 2;
    e.objects = objects;
    PutHead(x, id, 2, reserved, codec, {substream});
    x.push_back(n + 1);
    x.push_back(objects);
    x.insert(x.end(), e.bytes.begin(), e.bytes.end());
    return Finish(obu, reserved < 32 && n < 255, x, e);
  }
  const int n = kind - 7;
  Ids ids(n);
  for (auto& s : ids) s = sym_u32("substream") & 127;
  const uint8_t type = 3 + (uint8_t)sym_choose("type", 6);
  e.bytes = SymBytes(n, "extension");
  auto obu = AudioElementObu::CreateForExtension(kHdr, id, (AudioElementObu::AudioElementType)type, reserved, codec, absl::MakeConstSpan(ids), absl::MakeConstSpan(e.bytes));
  sym_assert(obu.ok() == Unique(ids), "substreams are unique");
  if (!obu.ok()) { sym_reach("refused"); return; }
  e.type = 3;
  PutHead(x, id, type, reserved, codec, ids);
  x.push_back(n);
  x.insert(x.end(), e.bytes.begin(), e.bytes.end());
  Finish(obu, reserved < 32 && type < 8, x, e);
}
static void WriteParams(int set) {
  ScalableChannelLayoutConfig c;
  c.channel_audio_layer_configs.push_back(ChannelAudioLayerConfig{.loudspeaker_layout = ChannelAudioLayerConfig::kLayoutStereo, .output_gain_is_present_flag = false, .recon_gain_is_present_flag = false, .reserved_a = 0, .substream_count = 1, .coupled_substream_count = 1});
  Ids ids = {sym_u32("substream")};
  auto obu = AudioElementObu::CreateForScalableChannelLayout(kHdr, 5, 0, 6, absl::MakeConstSpan(ids), c);
  if (!obu.ok()) { sym_fail("valid"); return; }
  bool ok = true;
  for (int i = 0; i < 3 && kParams[set][i] >= 0; i++) {
    const int t = kParams[set][i];
    for (int j = 0; j < i; j++) ok &= kParams[set][j] != t;
    const uint8_t rate = sym_u8("rate") & 127, duration = 1 + (sym_u8("duration") & 63);
    const ParamDefinition::BaseArgs a{(uint32_t)i, rate, 0, *SubblockSchedule::CreateWithConstantSubblockDuration(duration, duration)};
    if (t == 1) obu->audio_element_params_.push_back(AudioElementParam{DemixingParamDefinition(a)}), ok &= rate != 0;
    else if (t == 2) obu->audio_element_params_.push_back(AudioElementParam{ReconGainParamDefinition(a, 5)}), ok &= rate != 0;
    else obu->audio_element_params_.push_back(AudioElementParam{ExtendedParamDefinition((ParamDefinition::ParameterDefinitionType)t, {})}), ok &= t != 0;
  }
  Bytes w;
  const bool written = WrittenPayload(*obu, w);
  sym_assert(written == ok, "duplicate or mix-gain parameters are refused");
  if (!written || !ok) { sym_reach("refused"); return; }
  auto rb = Reader(w);
  auto again = AudioElementObu::CreateFromBuffer(kHdr, w.size(), *rb);
  sym_assert(again.ok(), "reads back");
  if (again.ok()) sym_assert(*again == *obu, "a written element reads back equal");
  sym_reach("params");
}
static void ManyParams(int n) {
  // Counts beyond the supported number are refused before anything is read.
  Bytes b = {1, 0x60, 0, 0};
  PutUleb(b, n);
  for (int i = 0; i < n && i < 3; i++) { b.push_back(7 + i); b.push_back(0); }
  if (n <= 3) b.push_back(0);
  auto rb = Reader(b);
  auto obu = AudioElementObu::CreateFromBuffer(kHdr, b.size(), *rb);
  sym_assert(obu.ok() == (n <= 3), "missing parameters are an error");

  if (n > 256) sym_assert(rb->Tell() <= 8 * (4 + (n > 16383 ? 3 : 2)), "no parameter is read when there are too many");
}
// Ambisonics with as many substreams as an order has channels, or around the
// largest count a configuration can state.
static void ManySubstreams(int ids, int channels, int substreams) {
  Bytes b = {1, 1 << 5, 0};
  PutUleb(b, ids);
  const uint32_t first = sym_u32("first") & 127;
  for (int i = 0; i < ids; i++) PutUleb(b, i ? 127 + i : first);
  b.insert(b.end(), {0, 0, (uint8_t)channels, (uint8_t)substreams});
  const uint8_t m = sym_u8("map");
  for (int i = 0; i < channels; i++) b.push_back(i ? (uint8_t)(i < substreams ? i : 255) : m);
  auto rb = Reader(b);
  auto obu = AudioElementObu::CreateFromBuffer(kHdr, b.size(), *rb);
  sym_assert(obu.ok() == ((m == 0) & (ids == substreams)), "as many substreams as the configuration has");
  if (obu.ok()) {
    Bytes w;
    const bool written = WrittenPayload(*obu, w);
    sym_assert(written && SameBytes(w, b), "written back byte-identically");
    sym_reach("many_substreams");
  }
}
// Any bytes: what is parsed can be written back when its parts can.
static void Any(int n) {
  Bytes b = SymBytes(n, "payload");
  auto rb = Reader(b);
  auto obu = AudioElementObu::CreateFromBuffer(kHdr, n, *rb);
  if (!obu.ok()) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * n, "exactly the payload is consumed");
  for (const auto& p : obu->audio_element_params_)
    if ((int)p.GetType() < 3) return;  // Validity of definitions: see P13.
  Bytes w;
  const bool written = WrittenPayload(*obu, w);
  sym_assert(written, "a parsed element is written back");
  if (!written) return;
  sym_assert(w.size() <= b.size(), "not longer");
  if (w.size() == b.size()) { sym_assert(SameBytes(w, b), "byte-identical"); sym_reach("any"); }
}
extern "C" void harness_main() {
  int c = sym_case();
  // Every configuration with matching and mismatching substream counts.
  if (c < 4 * kKinds) return Read(c % kKinds, c / kKinds, 0, 1, (int)sym_choose("extra", 3) - 1);
  c -= 4 * kKinds;
  static const int kSome[] = {1, 6, 10, 13};
  if (c < 4 * kParamSets) return Read(kSome[c % 4], 1, c / 4, 1, 0);
  c -= 4 * kParamSets;
  if (c < 4) return Read(kSome[c], 1, 0, 5, 0);
  c -= 4;
  if (c < 16) { WriteLayers(c / 4, c % 4); return; }
  c -= 16;
  if (c < 3) return WriteLayers(c == 0 ? 6 : c == 1 ? 7 : 4, 2);
  c -= 3;
  static const int kMany[] = {2, 6, 7, 8, 255, 256, 257, 258, 262};
  if (c < 9) return ManyLayers(kMany[c]);
  c -= 9;
  if (c < 11) return WriteOther(c);
  c -= 11;
  if (c < kParamSets) return WriteParams(c);
  c -= kParamSets;
  static const int kCounts[] = {1, 3, 4, 256, 257, 100000};
  if (c == 0) { ManyParams(kCounts[sym_choose("count", 6)]); return; }
  c--;
  if (c < 3) return Read(15 + c, 1, 0, 1, (int)sym_choose("extra", 3) - 1);
  c -= 3;
  static const int kIds[][3] = {{225, 225, 225}, {81, 81, 81}, {257, 1, 1}, {256, 1, 1}, {258, 4, 2}, {481, 225, 225}};
  if (c < 6) return ManySubstreams(kIds[c][0], kIds[c][1], kIds[c][2]);
  c -= 6;
  Any(c + 1);
}
