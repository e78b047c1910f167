// The JSON report of a probe: parsed back by an independent parser and
// compared with the report it was made from.
#include <cstring>
#include "obu_common.h"
#include "iamf/cli/probe.h"
#include "iamf/cli/probe_json.h"
using namespace iamf_tools;
struct V {
  enum Kind { kNull, kBool, kInt, kFloat, kString, kArray, kObject } kind = kNull;
  int64_t i = 0;  // also bool
  double f = 0;
  std::string s;
  std::vector<V> a;
  std::vector<std::string> keys;  // of an object, parallel to `a`
  V* Get(const std::string& k) { for (size_t n = 0; n < keys.size(); n++) if (keys[n] == k) return &a[n]; return nullptr; }
  V& Put(const std::string& k) { kind = kObject; keys.push_back(k); a.emplace_back(); return a.back(); }
};
// ---- RFC 8259 parser.
struct Parser {
  const std::string& t;
  size_t p = 0;
  bool ok = true;
  char Peek() { return p < t.size() ? t[p] : 0; }
  void Space() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
  bool Lit(const char* l) { size_t n = strlen(l); if (t.size() - p < n || t.compare(p, n, l) != 0) return false; p += n; return true; }
  static int HexDigit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  std::string Str() {
    std::string s;
    if (Peek() != '"') { ok = false; return s; }
    for (p++; p < t.size();) {
      unsigned char c = t[p++];
      if (c == '"') return s;
      if (c < 0x20) break;
      if (c != '\\') { s.push_back((char)c); continue; }
      c = Peek();
      p++;
      if (c == '"' || c == '\\' || c == '/') s.push_back((char)c);
      else if (c == 'b') s.push_back('\b');
      else if (c == 'f') s.push_back('\f');
      else if (c == 'n') s.push_back('\n');
      else if (c == 'r') s.push_back('\r');
      else if (c == 't') s.push_back('\t');
      else if (c == 'u') {
        int v = 0;
        for (int i = 0; i < 4; i++) { int h = HexDigit(Peek()); p++; if (h < 0) { ok = false; return s; } v = v * 16 + h; }
        if (v >= 0x80) { ok = false; return s; }  // Never needed for bytes that are not control characters.
        s.push_back((char)v);
      } else break;
    }
    ok = false;
    return s;
  }
  V Value() {
    V v;
    Space();
    const char c = Peek();
    if (c == '{') {
      v.kind = V::kObject;
      p++;
      Space();
      if (Peek() == '}') { p++; return v; }
      while (ok) {
        Space();
        std::string k = Str();
        Space();
        if (Peek() != ':') { ok = false; return v; }
        p++;
        if (v.Get(k)) { ok = false; return v; }  // Names are unique.
        V x = Value();
        v.Put(k) = x;
        Space();
        if (Peek() == ',') { p++; continue; }
        if (Peek() == '}') { p++; return v; }
        ok = false;
      }
    } else if (c == '[') {
      v.kind = V::kArray;
      p++;
      Space();
      if (Peek() == ']') { p++; return v; }
      while (ok) {
        v.a.push_back(Value());
        Space();
        if (Peek() == ',') { p++; continue; }
        if (Peek() == ']') { p++; return v; }
        ok = false;
      }
    } else if (c == '"') { v.kind = V::kString; v.s = Str(); }
    else if (Lit("true")) { v.kind = V::kBool; v.i = 1; }
    else if (Lit("false")) v.kind = V::kBool;
    else if (Lit("null")) v.kind = V::kNull;
    else {
      bool neg = false;
      if (c == '-') { neg = true; p++; }
      v.kind = V::kInt;
      size_t digits = 0, start = p;
      while (p < t.size() && t[p] >= '0' && t[p] <= '9') { v.i = v.i * 10 + (t[p] - '0'); digits++; p++; }
      if (!digits || (digits > 1 && t[start] == '0')) { ok = false; return v; }
      double f = (double)v.i;
      if (Peek() == '.') {
        v.kind = V::kFloat;
        p++;
        digits = 0;
        for (double w = 0.1; p < t.size() && t[p] >= '0' && t[p] <= '9'; p++, digits++, w /= 10) f += w * (t[p] - '0');
        if (!digits) { ok = false; return v; }
      }
      if (Peek() == 'e' || Peek() == 'E') {
        v.kind = V::kFloat;
        p++;
        bool eneg = Peek() == '-';
        if (eneg || Peek() == '+') p++;
        int e = 0;
        digits = 0;
        for (; p < t.size() && t[p] >= '0' && t[p] <= '9'; p++, digits++) e = e * 10 + (t[p] - '0');
        if (!digits || e > 30) { ok = false; return v; }
        for (; e > 0; e--) f = eneg ? f / 10 : f * 10;
      }
      if (neg) { v.i = -v.i; f = -f; }
      v.f = f;
    }
    return v;
  }
};
static void Match(V& e, V& g) {
  if (e.kind == V::kFloat) {
    sym_assert(g.kind == V::kFloat || g.kind == V::kInt, "a number");
    const double d = g.f - e.f, m = e.f < 0 ? -e.f : e.f;
    sym_assert(d <= 1e-5 * m + 1e-12 && -d <= 1e-5 * m + 1e-12, "the number to six digits");
    return;
  }
  sym_assert(e.kind == g.kind, "the kind of the value");
  if (e.kind != g.kind) return;
  if (e.kind == V::kInt || e.kind == V::kBool) sym_assert(e.i == g.i, "the value of the field");
  if (e.kind == V::kString) {
    sym_assert(e.s.size() == g.s.size(), "the length of the string");
    bool same = e.s.size() == g.s.size();
    for (size_t i = 0; same && i < e.s.size(); i++) sym_assert(e.s[i] == g.s[i], "the characters of the string");
  }
  if (e.kind == V::kArray) {
    sym_assert(e.a.size() == g.a.size(), "the number of elements");
    for (size_t i = 0; i < e.a.size() && i < g.a.size(); i++) Match(e.a[i], g.a[i]);
  }
  if (e.kind == V::kObject) {
    for (size_t i = 0; i < e.keys.size(); i++) {
      V* x = g.Get(e.keys[i]);
      sym_assert(x != nullptr, "every field of the report is present");
      if (x) Match(e.a[i], *x);
    }
    sym_assert(e.keys.size() == g.keys.size(), "absent fields are left out");
  }
}
// ---- Building a report together with what the JSON should say.
static int g_string = -1, g_strings, g_group = -1, g_salt;
static void Str(V& o, const char* k, std::string& field) {
  const int n = g_strings++;
  if (n == g_string) {
    // Two characters in the first string of every section.
    const int size = n ? STR : STR + 1;
    field.assign(size, 0);
    sym_make(field.data(), size, "string");
    sym_reach("string");
  } else field = "s" + std::to_string(n);
  V& v = o.Put(k);
  v.kind = V::kString;
  v.s = field;
}
template <typename T> static T Digit() {
  const uint8_t d = sym_u8("digit");
  if constexpr (std::is_signed_v<T>) {
    if (++g_salt % 2) { sym_assume((d >= 1) & (d <= 9)); return (T)-(int)d; }
  }
  sym_assume(d <= 9);
  return (T)d;
}
static V IntV(int64_t i) { V v; v.kind = V::kInt; v.i = i; return v; }
template <typename T> static void Num(V& o, const char* k, T& field) { field = Digit<T>(); o.Put(k) = IntV((int64_t)field); }
template <typename T> static void Flt(V& o, const char* k, T& field) {
  static const double values[] = {0, 0.5, -3.75, 127.996, -0.00390625, 1048576.5, 1e-7, -128, 1e12};
  V& v = o.Put(k);
  field = (T)values[g_salt++ % 9];
  v.kind = V::kFloat;
  v.f = (double)field;
}
static bool Choice(int group, bool other = true) { return group == g_group ? sym_choose("choice", 2) : other; }
static int Count(int group, int other = 1) { return group == g_group ? (int)sym_choose("count", 3) : other; }
static void Bool(V& o, const char* k, bool& field, int group) { field = Choice(group, ++g_salt % 2); V& v = o.Put(k); v.kind = V::kBool; v.i = field; }
static V& Arr(V& o, const char* k) { V& v = o.Put(k); v.kind = V::kArray; return v; }
static V& Obj(V& o, const char* k) { V& v = o.Put(k); v.kind = V::kObject; return v; }
static V& Item(V& arr) { arr.a.emplace_back(); arr.a.back().kind = V::kObject; return arr.a.back(); }
template <typename T> static void Nums(V& o, const char* k, std::vector<T>& f, int n) {
  V& v = Arr(o, k);
  for (int i = 0; i < n; i++) { f.push_back(Digit<T>()); v.a.push_back(IntV((int64_t)f.back())); }
}
template <typename T> static void OptNum(V& o, const char* k, std::optional<T>& f, bool on) { if (on) { f.emplace(); Num(o, k, *f); } }
template <typename T> static void OptFlt(V& o, const char* k, std::optional<T>& f, bool on) { if (on) { f.emplace(); Flt(o, k, *f); } }
static void OptStr(V& o, const char* k, std::optional<std::string>& f, bool on) { if (on) { f.emplace(); Str(o, k, *f); } }
static void Codec(V& o, CodecConfigReport& c, int which) {
  Num(o, "id", c.id); Str(o, "codec_id", c.codec_id); Num(o, "codec_id_raw", c.codec_id_raw); Num(o, "num_samples_per_frame", c.num_samples_per_frame);
  Num(o, "audio_roll_distance", c.audio_roll_distance); Num(o, "output_sample_rate", c.output_sample_rate); Num(o, "input_sample_rate", c.input_sample_rate); Num(o, "bit_depth", c.bit_depth);
  if (which & 1) {
    auto& x = c.opus.emplace(); V& v = Obj(o, "opus");
    Num(v, "version", x.version); Num(v, "output_channel_count", x.output_channel_count); Num(v, "pre_skip", x.pre_skip); Num(v, "input_sample_rate", x.input_sample_rate);
    Num(v, "output_gain_q7_8", x.output_gain_q7_8); Flt(v, "output_gain", x.output_gain); Num(v, "mapping_family", x.mapping_family);
  }
  if (which & 2) {
    auto& x = c.lpcm.emplace(); V& v = Obj(o, "lpcm");
    Str(v, "sample_format", x.sample_format); Num(v, "sample_format_raw", x.sample_format_raw); Num(v, "sample_size", x.sample_size); Num(v, "sample_rate", x.sample_rate);
  }
  if (which & 4) {
    auto& x = c.aac.emplace(); V& v = Obj(o, "aac");
    Num(v, "object_type_indication", x.object_type_indication); Num(v, "stream_type", x.stream_type); Bool(v, "upstream", x.upstream, 0); Bool(v, "reserved", x.reserved, 0);
    Num(v, "buffer_size_db", x.buffer_size_db); Num(v, "max_bitrate", x.max_bitrate); Num(v, "average_bit_rate", x.average_bit_rate); Num(v, "audio_object_type", x.audio_object_type);
    Str(v, "sample_frequency_index", x.sample_frequency_index); Num(v, "sample_frequency_index_raw", x.sample_frequency_index_raw); Num(v, "channel_configuration", x.channel_configuration);
  }
  if (which & 8) {
    auto& x = c.flac.emplace(); V& blocks = Arr(Obj(o, "flac"), "metadata_blocks");
    const int n = Count(1);
    for (int i = 0; i < n; i++) {
      FlacMetaBlockReport b; V& v = Item(blocks);
      Str(v, "block_type", b.block_type); Num(v, "block_type_raw", b.block_type_raw);
      b.is_stream_info = Choice(1);
      if (b.is_stream_info) {
        Num(v, "minimum_block_size", b.minimum_block_size); Num(v, "maximum_block_size", b.maximum_block_size); Num(v, "minimum_frame_size", b.minimum_frame_size); Num(v, "maximum_frame_size", b.maximum_frame_size);
        Num(v, "sample_rate", b.sample_rate); Num(v, "number_of_channels", b.number_of_channels); Num(v, "bits_per_sample", b.bits_per_sample); Num(v, "total_samples_in_stream", b.total_samples_in_stream);
      }
      x.metadata_blocks.push_back(b);
    }
  }
}
static void Element(V& o, AudioElementReport& e) {
  Num(o, "id", e.id); Str(o, "type", e.type); Num(o, "type_raw", e.type_raw); Num(o, "reserved", e.reserved); Num(o, "codec_config_id", e.codec_config_id); Num(o, "num_substreams", e.num_substreams);
  Nums(o, "substream_ids", e.substream_ids, Count(2, 2));
  V& ps = Arr(o, "params");
  for (int i = Count(2); i > 0; i--) {
    AudioElementParamReport p; V& v = Item(ps);
    Str(v, "param_type", p.param_type); Num(v, "param_type_raw", p.param_type_raw); Num(v, "parameter_id", p.parameter_id); Num(v, "parameter_rate", p.parameter_rate);
    Num(v, "param_definition_mode", p.param_definition_mode); Num(v, "duration", p.duration); Num(v, "constant_subblock_duration", p.constant_subblock_duration);
    e.params.push_back(p);
  }
  if (int n = Count(3)) {
    V& ls = Arr(o, "scalable_layers");
    for (int i = 0; i < n; i++) {
      ChannelAudioLayerReport l; V& v = Item(ls);
      Str(v, "loudspeaker_layout", l.loudspeaker_layout); Num(v, "loudspeaker_layout_raw", l.loudspeaker_layout_raw); Num(v, "substream_count", l.substream_count); Num(v, "coupled_substream_count", l.coupled_substream_count);
      Bool(v, "output_gain_is_present_flag", l.output_gain_is_present_flag, 4); Bool(v, "recon_gain_is_present_flag", l.recon_gain_is_present_flag, 4);
      Num(v, "output_gain_flag", l.output_gain_flag); Num(v, "output_gain_q7_8", l.output_gain_q7_8); Flt(v, "output_gain", l.output_gain);
      OptStr(v, "expanded_loudspeaker_layout", l.expanded_loudspeaker_layout, Choice(3)); OptNum(v, "expanded_loudspeaker_layout_raw", l.expanded_loudspeaker_layout_raw, Choice(3));
      e.scalable_layers.push_back(l);
    }
  }
  if (Choice(5)) {
    auto& x = e.ambisonics.emplace(); V& v = Obj(o, "ambisonics");
    Str(v, "mode", x.mode); Num(v, "mode_raw", x.mode_raw); OptNum(v, "order", x.order, Choice(5));
    if (Choice(5)) { auto& m = x.mono.emplace(); V& w = Obj(v, "mono"); Num(w, "output_channel_count", m.output_channel_count); Num(w, "substream_count", m.substream_count); Nums(w, "channel_mapping", m.channel_mapping, Count(5)); }
    if (Choice(5)) { auto& m = x.projection.emplace(); V& w = Obj(v, "projection"); Num(w, "output_channel_count", m.output_channel_count); Num(w, "substream_count", m.substream_count); Num(w, "coupled_substream_count", m.coupled_substream_count); Nums(w, "demixing_matrix", m.demixing_matrix, Count(5, 3)); }
  }
  OptStr(o, "channel_layout", e.channel_layout, Choice(6)); OptNum(o, "channel_layout_raw", e.channel_layout_raw, Choice(6)); OptNum(o, "expanded_channel_layout_raw", e.expanded_channel_layout_raw, Choice(6));
  OptNum(o, "ambisonics_order", e.ambisonics_order, Choice(6)); OptNum(o, "ambisonics_channels", e.ambisonics_channels, Choice(6)); OptNum(o, "num_channels", e.num_channels, Choice(6));
}
static void MixGain(V& o, MixGainParamDefinitionReport& g) {
  V& v = Obj(o, "param_definition"); auto& d = g.param_definition;
  Num(v, "parameter_id", d.parameter_id); Num(v, "parameter_rate", d.parameter_rate); Num(v, "param_definition_mode", d.param_definition_mode); Num(v, "duration", d.duration); Num(v, "constant_subblock_duration", d.constant_subblock_duration);
  Num(o, "default_mix_gain_q7_8", g.default_mix_gain_q7_8); Flt(o, "default_mix_gain", g.default_mix_gain);
}
static void Strs(V& o, const char* k, std::vector<std::string>& f, int n) {
  V& v = Arr(o, k);
  for (int i = 0; i < n; i++) { V t; f.emplace_back(); Str(t, "x", f.back()); v.a.push_back(t.a[0]); }
}
static void Mix(V& o, MixPresentationReport& m) {
  Num(o, "id", m.id); Num(o, "count_label", m.count_label); Num(o, "num_sub_mixes", m.num_sub_mixes);
  V& an = Arr(o, "annotations");
  for (int i = Count(7); i > 0; i--) { m.annotations.emplace_back(); V& v = Item(an); Str(v, "language", m.annotations.back().first); Str(v, "label", m.annotations.back().second); }
  V& subs = Arr(o, "sub_mixes");
  for (int i = Count(7); i > 0; i--) {
    SubMixReport s; V& w = Item(subs);
    V& aes = Arr(w, "audio_elements");
    for (int j = Count(8); j > 0; j--) {
      SubMixAudioElementReport a; V& v = Item(aes);
      Num(v, "audio_element_id", a.audio_element_id); Strs(v, "localized_element_annotations", a.localized_element_annotations, Count(8));
      V& r = Obj(v, "rendering_config"); auto& rc = a.rendering_config;
      Str(r, "headphones_rendering_mode", rc.headphones_rendering_mode); Num(r, "headphones_rendering_mode_raw", rc.headphones_rendering_mode_raw);
      Str(r, "binaural_filter_profile", rc.binaural_filter_profile); Num(r, "binaural_filter_profile_raw", rc.binaural_filter_profile_raw);
      MixGain(Obj(v, "element_mix_gain"), a.element_mix_gain);
      s.audio_elements.push_back(a);
    }
    MixGain(Obj(w, "output_mix_gain"), s.output_mix_gain);
    V& ls = Arr(w, "layouts");
    for (int j = Count(9); j > 0; j--) {
      MixPresentationLayoutReport l; V& v = Item(ls);
      V& y = Obj(v, "loudness_layout"); auto& ll = l.loudness_layout;
      Str(y, "layout_type", ll.layout_type); Num(y, "layout_type_raw", ll.layout_type_raw); OptStr(y, "sound_system", ll.sound_system, Choice(9)); OptNum(y, "sound_system_raw", ll.sound_system_raw, Choice(9));
      V& z = Obj(v, "loudness"); auto& lo = l.loudness;
      Num(z, "info_type", lo.info_type); Bool(z, "true_peak_present", lo.true_peak_present, 10); Bool(z, "anchored_loudness_present", lo.anchored_loudness_present, 10); Bool(z, "has_layout_extension", lo.has_layout_extension, 10);
      Flt(z, "integrated_loudness", lo.integrated_loudness); Flt(z, "digital_peak", lo.digital_peak); OptFlt(z, "true_peak", lo.true_peak, Choice(10));
      if (int n = Count(11)) {
        V& els = Arr(z, "anchored_loudness_elements");
        for (int k = 0; k < n; k++) { AnchoredLoudnessElementReport x; V& q = Item(els); Str(q, "anchor_element", x.anchor_element); Num(q, "anchor_element_raw", x.anchor_element_raw); Num(q, "anchored_loudness_q7_8", x.anchored_loudness_q7_8); Flt(q, "anchored_loudness", x.anchored_loudness); lo.anchored_loudness_elements.push_back(x); }
      }
      s.layouts.push_back(l);
    }
    m.sub_mixes.push_back(s);
  }
  V& tags = Arr(o, "tags");
  for (int i = Count(7); i > 0; i--) { m.tags.emplace_back(); V& v = Item(tags); Str(v, "tag_name", m.tags.back().tag_name); Str(v, "tag_value", m.tags.back().tag_value); }
  Strs(o, "layouts", m.layouts, Count(11));
  OptFlt(o, "integrated_loudness_lkfs", m.integrated_loudness_lkfs, Choice(12)); OptFlt(o, "digital_peak_dbfs", m.digital_peak_dbfs, Choice(12)); OptFlt(o, "true_peak_dbfs", m.true_peak_dbfs, Choice(12));
}
static void Scan(V& o, TemporalUnitScanReport& s) {
  Num(o, "temporal_unit_count", s.temporal_unit_count); Num(o, "audio_frame_count", s.audio_frame_count); Num(o, "parameter_block_count", s.parameter_block_count); Num(o, "temporal_delimiter_count", s.temporal_delimiter_count);
  Num(o, "audio_frame_parse_errors", s.audio_frame_parse_errors); Num(o, "parameter_block_parse_errors", s.parameter_block_parse_errors); Num(o, "bytes_consumed", s.bytes_consumed); Str(o, "stopped_reason", s.stopped_reason);
  OptNum(o, "total_samples", s.total_samples, Choice(13)); OptNum(o, "output_sample_rate", s.output_sample_rate, Choice(13)); OptFlt(o, "duration_seconds", s.duration_seconds, Choice(13));
  V& fr = Arr(o, "audio_frames_by_substream");
  for (int i = Count(13); i > 0; i--) { AudioFrameSummaryReport f; V& v = Item(fr); Num(v, "substream_id", f.substream_id); Num(v, "codec_config_id", f.codec_config_id); Num(v, "frame_count", f.frame_count); Num(v, "total_samples", f.total_samples); s.audio_frames_by_substream.push_back(f); }
  V& bl = Arr(o, "parameter_blocks");
  for (int i = Count(14); i > 0; i--) {
    ParameterBlockReport b; V& v = Item(bl);
    Num(v, "parameter_id", b.parameter_id); Str(v, "param_type", b.param_type); Num(v, "param_type_raw", b.param_type_raw); Num(v, "start_timestamp", b.start_timestamp); Num(v, "end_timestamp", b.end_timestamp);
    Num(v, "duration", b.duration); Num(v, "constant_subblock_duration", b.constant_subblock_duration);
    V& sb = Arr(v, "subblocks");
    for (int j = Count(14); j > 0; j--) {
      ParameterSubblockReport u; V& w = Item(sb);
      Num(w, "subblock_duration", u.subblock_duration);
      if (Choice(14)) {
        auto& g = u.mix_gain.emplace(); V& y = Obj(w, "mix_gain");
        Str(y, "animation_type", g.animation_type); Num(y, "animation_type_raw", g.animation_type_raw); Num(y, "start_point_value_q7_8", g.start_point_value_q7_8); Flt(y, "start_point_value", g.start_point_value);
        // Both representations of a value come together.
        if (Choice(15)) { g.end_point_value_q7_8.emplace(); Num(y, "end_point_value_q7_8", *g.end_point_value_q7_8); g.end_point_value.emplace(); Flt(y, "end_point_value", *g.end_point_value); }
        if (Choice(15)) { g.control_point_value_q7_8.emplace(); Num(y, "control_point_value_q7_8", *g.control_point_value_q7_8); g.control_point_value.emplace(); Flt(y, "control_point_value", *g.control_point_value); }
        OptNum(y, "control_point_relative_time", g.control_point_relative_time, Choice(15));
      }
      if (Choice(15)) { auto& d = u.demixing.emplace(); V& y = Obj(w, "demixing"); Str(y, "dmixp_mode", d.dmixp_mode); Num(y, "dmixp_mode_raw", d.dmixp_mode_raw); Num(y, "reserved", d.reserved); }
      if (Choice(15)) {
        auto& r = u.recon_gain.emplace(); V& ls = Arr(Obj(w, "recon_gain"), "layers");
        for (int k = Count(15); k > 0; k--) { ReconGainForLayerReport l; V& y = Item(ls); Num(y, "layer_index", l.layer_index); Num(y, "recon_gain_flag", l.recon_gain_flag); Nums(y, "recon_gain", l.recon_gain, 2); r.layers.push_back(l); }
      }
      b.subblocks.push_back(u);
    }
    s.parameter_blocks.push_back(b);
  }
}
extern "C" void harness_main() {
  int c = sym_case();
  // Which of the sections are filled: string cases fill one section each.
  int section = -1;
  static const int kStrings[] = {2, 7, 6, 11, 4};
  if (c < 30) {
    section = 0;
    while (c >= kStrings[section]) c -= kStrings[section++];
    g_string = c;
  } else {
    g_group = c - 30;
    section = g_group < 2 ? 1 : g_group < 7 ? 2 : g_group < 13 ? 3 : g_group < 16 ? 4 : g_group < 17 ? 5 : 0;
  }
  ProbeReport r;
  V o;
  if (section == 0) { Str(o, "primary_profile", r.primary_profile); Str(o, "additional_profile", r.additional_profile); }
  else { g_strings = -1000; Str(o, "primary_profile", r.primary_profile); Str(o, "additional_profile", r.additional_profile); g_strings = 0; }
  Num(o, "primary_profile_raw", r.primary_profile_raw); Num(o, "additional_profile_raw", r.additional_profile_raw); Num(o, "descriptor_bytes_consumed", r.descriptor_bytes_consumed);
  OptNum(o, "descriptor_total_samples", r.descriptor_total_samples, Choice(17, section == 0)); OptFlt(o, "descriptor_duration_seconds", r.descriptor_duration_seconds, Choice(17, section == 0));
  // References to the entries of `o` are good once all are there.
  Arr(o, "codec_configs"), Arr(o, "audio_elements"), Arr(o, "mix_presentations");
  if (section == 4) Obj(o, "temporal_unit_scan");
  V &cc = *o.Get("codec_configs"), &ae = *o.Get("audio_elements"), &mp = *o.Get("mix_presentations");
  if (section == 1) {
    // One codec configuration of every kind.
    for (int k = 0; k < 4; k++) { CodecConfigReport x; Codec(Item(cc), x, 1 << k); r.codec_configs.push_back(x); }
  }
  if (section == 2) { AudioElementReport x; Element(Item(ae), x); r.audio_elements.push_back(x); }
  if (section == 3) { MixPresentationReport x; Mix(Item(mp), x); r.mix_presentations.push_back(x); }
  if (section == 4) Scan(*o.Get("temporal_unit_scan"), r.temporal_unit_scan.emplace());
  if (section == 5) {  // Several entries of every list.
    for (int k = Count(16); k > 0; k--) { CodecConfigReport x; Codec(Item(cc), x, 0); r.codec_configs.push_back(x); }
    for (int k = Count(16); k > 0; k--) { AudioElementReport x; Element(Item(ae), x); r.audio_elements.push_back(x); }
    for (int k = Count(16); k > 0; k--) { MixPresentationReport x; Mix(Item(mp), x); r.mix_presentations.push_back(x); }
  }
  sym_assert(g_string < g_strings, "harness: the string under test was placed");
  const std::string json = ProbeReportToJson(r);
  Parser p{json};
  V got = p.Value();
  p.Space();
  sym_assert(p.ok && p.p == json.size(), "the report is a JSON document");
  if (!p.ok) return;
  Match(o, got);
  sym_reach("parsed");
}
