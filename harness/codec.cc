// Codec configurations: exact acceptance, derived values and round trip.
#include "obu_roundtrip.h"
#include "iamf/obu/codec_config.h"
using namespace vh;
using CC = CodecConfig;
static const uint32_t kIds[4] = {0x6970636d, 0x4f707573, 0x664c6143, 0x6d703461};  // ipcm Opus fLaC mp4a
static uint32_t Be(const Bytes& b, size_t pos, int n) {
  uint32_t v = 0;
  for (int i = 0; i < n; i++) v = v << 8 | b[pos + i];
  return v;
}
static int16_t OpusRoll(uint32_t n) { return -(int)(3840 / n + (3840 % n != 0)); }
static bool OneOf(uint32_t v, std::initializer_list<uint32_t> l) {
  bool r = false;
  for (uint32_t x : l) r |= v == x;
  return r;
}
static bool FlacRate(uint32_t r) { return OneOf(r, {8000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000}); }
static bool LpcmRate(uint32_t r) { return OneOf(r, {16000, 32000, 44100, 48000, 96000}); }
static uint32_t AacRate(uint32_t i) {
  static const uint32_t k[13] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
  uint32_t r = 0;
  for (int j = 0; j < 13; j++) r = i == (uint32_t)j ? k[j] : r;
  return r;
}
struct Ref { bool ok = false; uint32_t id = 0, codec = 0, samples = 0; int16_t roll = 0; uint32_t out_rate = 0, in_rate = 0, depth = 0; bool writable = true, minimal = true; };
static bool IsoSize(const Bytes& b, size_t& pos, uint32_t& v, bool& minimal) {
  uint64_t x = 0;
  for (int i = 0; i < 8; i++) {
    if (pos >= b.size()) return false;
    const uint8_t c = b[pos++];
    if (i == 0 && c == 0x80) minimal = false;
    x = x << 7 | (c & 127);
    if (!(c & 128)) { v = (uint32_t)x; return x < (1u << 28); }
  }
  return false;
}
// Independent decoder of a codec config payload.
static Ref Decode(const Bytes& b) {
  Ref r;
  size_t p = 0;
  if (!RefUleb(b, p, r.id, &r.minimal)) return r;
  if (p + 4 > b.size()) return r;
  r.codec = Be(b, p, 4);
  p += 4;
  if (!RefUleb(b, p, r.samples, &r.minimal)) return r;
  if (r.samples < 1 || r.samples > 96000) return r;
  if (p + 2 > b.size()) return r;
  r.roll = (int16_t)Be(b, p, 2);
  p += 2;
  if (r.codec == kIds[0]) {
    if (p + 6 > b.size()) return r;
    const uint32_t rate = Be(b, p + 2, 4);
    r.out_rate = r.in_rate = rate;
    r.depth = b[p + 1];
    r.ok = (b[p] <= 1) & OneOf(b[p + 1], {16, 24, 32}) & LpcmRate(rate) & (r.roll == 0);
  } else if (r.codec == kIds[1]) {
    if (p + 11 > b.size()) return r;
    r.out_rate = 48000;
    r.in_rate = Be(b, p + 4, 4);
    r.depth = 32;
    r.ok = (b[p] >= 1) & (b[p] <= 15) & (b[p + 1] == 2) & (Be(b, p + 8, 2) == 0) & (b[p + 10] == 0) & (r.roll == OpusRoll(r.samples));
  } else if (r.codec == kIds[2]) {
    if (r.roll != 0) return r;
    bool last = false, good = true;
    for (int i = 0; !last; i++) {
      if (i >= 128 || p + 4 > b.size()) return r;
      last = b[p] >> 7;
      const int type = b[p] & 127;
      const uint32_t len = Be(b, p + 1, 3);
      p += 4;
      if (i == 0 && type != 0) good = false;
      if (type == 0) {
        if (len != 34 || p + 34 > b.size()) return r;
        if (i == 0) {
          const uint32_t minb = Be(b, p, 2), maxb = Be(b, p + 2, 2);
          const uint32_t rate = Be(b, p + 10, 3) >> 4, ch = (b[p + 12] >> 1) & 7, bits = (b[p + 12] & 1) << 4 | b[p + 13] >> 4;
          r.out_rate = r.in_rate = rate;
          r.depth = bits + 1;
          good = good && (minb == r.samples) & (maxb == r.samples) & FlacRate(rate) & (ch == 1 - 0) & OneOf(bits, {15, 23, 31});
          uint8_t loose = 0;
          for (int j = 4; j < 10; j++) loose |= b[p + j];
          for (int j = 18; j < 34; j++) loose |= b[p + j];
          r.writable = loose == 0;
        }
        p += 34;
      } else {
        if (len > b.size() - p) return r;
        p += len;
      }
    }
    r.ok = good;
  } else if (r.codec == kIds[3]) {
    if (p + 1 > b.size()) return r;
    const uint8_t tag = b[p++];
    uint32_t size, inner;
    if (!IsoSize(b, p, size, r.minimal)) return r;
    const uint64_t end = p + (uint64_t)size;
    if (p + 14 > b.size()) return r;
    bool good = (tag == 4) & (b[p] == 0x40) & (b[p + 1] == (5 << 2 | 0 << 1 | 1)) & (b[p + 13] == 5);
    p += 14;
    if (!IsoSize(b, p, inner, r.minimal)) return r;
    const uint64_t inner_end = p + (uint64_t)inner;
    if (p + 2 > b.size()) return r;
    const uint32_t asc = Be(b, p, 2);
    const uint32_t rate = AacRate((asc >> 7) & 15);
    r.out_rate = r.in_rate = rate;
    r.depth = 16;
    good = good & ((asc >> 11) == 2) & (rate != 0) & (((asc >> 3) & 15) == 2) & ((asc & 7) == 0) & (r.roll == -1);
    p += 2;
    r.ok = good && p <= inner_end && inner_end <= end && end <= b.size();
  }
  return r;
}
static auto Parse = [](const ObuHeader& h, int64_t s, ReadBitBuffer& rb) { return CodecConfigObu::CreateFromBuffer(h, s, rb); };
static void ReadSide(int codec, int n) {
  Bytes b = SymBytes(n, "payload");
  if (codec < 4) {
    sym_assume(b[0] < 128);
    for (int i = 0; i < 4; i++) sym_assume(b[1 + i] == (uint8_t)(kIds[codec] >> (8 * (3 - i))));
    for (int i = 0; i < 4; i++) b[1 + i] = (uint8_t)(kIds[codec] >> (8 * (3 - i)));
  }
  // Long FLAC payloads: a one-byte id, a two-byte frame size and a STREAMINFO
  // first (the shorter ones leave all of this open).
  if (codec == 2 && n > 30) sym_assume(b[5] >= 128 && b[6] < 128 && (b[9] & 127) == 0);
  if (codec == 3 && n > 26) sym_assume(b[5] >= 128 && b[6] < 128);
  auto rb = Reader(b);
  auto obu = Parse(Hdr(kObuIaCodecConfig), n, *rb);
  const Ref r = Decode(b);
  sym_assert(obu.ok() == r.ok, "a codec config is accepted exactly when it satisfies its codec's constraints");
  if (!obu.ok() || !r.ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == 8 * n, "exactly the payload is consumed");
  sym_assert(obu->GetCodecConfigId() == r.id && obu->GetCodecConfig().codec_id == r.codec, "ids");
  sym_assert(obu->GetNumSamplesPerFrame() == r.samples && obu->GetCodecConfig().audio_roll_distance == r.roll, "frame size and roll");
  sym_assert(obu->GetOutputSampleRate() == r.out_rate, "output sample rate");
  sym_assert(obu->GetInputSampleRate() == r.in_rate, "input sample rate");
  sym_assert(obu->GetBitDepthToMeasureLoudness() == r.depth, "bit depth");
  sym_assert(obu->IsLossless() == (r.codec == kIds[0] || r.codec == kIds[2]), "lossless");
  Bytes w;
  ObuHeader h;
  const bool written = WrittenPayload(*obu, w, &h);
  sym_assert(written == r.writable, "a parsed codec config can be written back");
  if (written) {
    sym_assert(w.size() <= b.size(), "rewritten size");
    if (w.size() == b.size()) { sym_assert(SameBytes(w, b), "rewritten bytes"); sym_reach("identical"); }
    sym_assert(!r.minimal || w.size() == b.size(), "minimal encodings keep their size");
    auto rb2 = Reader(w);
    auto again = Parse(h, w.size(), *rb2);
    sym_assert(again.ok() && *again == *obu, "reparsing gives the same configuration");
  } else sym_reach("read_only");
  sym_observe(obu->GetOutputSampleRate());
}
static void WriteSide(int codec, int variant) {
  CC c;
  c.codec_id = (CC::CodecId)kIds[codec];
  c.num_samples_per_frame = sym_u32("samples");
  c.audio_roll_distance = sym_i16("roll");
  const bool override_roll = sym_bool("override");
  bool valid = true;
  uint32_t rate = 0, in_rate = 0, depth = 0;
  if (codec == 0) {
    LpcmDecoderConfig d;
    d.sample_format_flags_bitmask_ = (LpcmDecoderConfig::LpcmFormatFlagsBitmask)sym_u8("flags");
    d.sample_size_ = sym_u8("size");
    d.sample_rate_ = sym_u32("rate");
    valid = (d.sample_format_flags_bitmask_ <= 1) & OneOf(d.sample_size_, {16, 24, 32}) & LpcmRate(d.sample_rate_);
    rate = in_rate = d.sample_rate_;
    depth = d.sample_size_;
    c.decoder_config = d;
  } else if (codec == 1) {
    OpusDecoderConfig d;
    d.version_ = sym_u8("version");
    d.output_channel_count_ = sym_u8("channels");
    d.pre_skip_ = sym_u16("pre_skip");
    d.input_sample_rate_ = sym_u32("rate");
    d.output_gain_ = sym_i16("gain");
    d.mapping_family_ = sym_u8("mapping");
    valid = (d.version_ >= 1) & (d.version_ <= 15) & (d.output_channel_count_ == 2) & (d.output_gain_ == 0) & (d.mapping_family_ == 0);
    rate = 48000;
    in_rate = d.input_sample_rate_;
    depth = 32;
    c.decoder_config = d;
  } else if (codec == 2) {
    FlacDecoderConfig d;
    FlacMetadataBlock m;
    FlacMetaBlockStreamInfo s;
    s.minimum_block_size = sym_u16("min");
    s.maximum_block_size = sym_u16("max");
    s.minimum_frame_size = sym_u32("minf");
    s.maximum_frame_size = sym_u32("maxf");
    s.sample_rate = sym_u32("rate");
    s.number_of_channels = sym_u8("channels");
    s.bits_per_sample = sym_u8("bits");
    s.total_samples_in_stream = sym_u64("total");
    Bytes md5 = SymBytes(16, "md5");
    uint8_t any = 0;
    for (int i = 0; i < 16; i++) { s.md5_signature[i] = md5[i]; any |= md5[i]; }
    m.header.block_type = FlacMetaBlockHeader::kFlacStreamInfo;
    m.payload = s;
    valid = (s.minimum_block_size == c.num_samples_per_frame) & (s.maximum_block_size == c.num_samples_per_frame) & (s.minimum_frame_size == 0) &
            (s.maximum_frame_size == 0) & FlacRate(s.sample_rate) & (s.number_of_channels == 1) & OneOf(s.bits_per_sample, {15, 23, 31}) &
            (s.total_samples_in_stream <= 0xfffffffffull) & (any == 0);
    rate = in_rate = s.sample_rate;
    depth = s.bits_per_sample + 1;
    if (variant != 1) d.metadata_blocks_.push_back(m); else valid = false;
    if (variant >= 2) {
      FlacMetadataBlock e;
      e.header.block_type = (FlacMetaBlockHeader::FlacBlockType)(sym_u8("type") & 127);
      sym_assume(e.header.block_type != 0);
      e.payload = SymBytes(variant - 2, "extra");
      if (variant == 5) d.metadata_blocks_.insert(d.metadata_blocks_.begin(), e), valid = false;
      else d.metadata_blocks_.push_back(e);
    }
    c.decoder_config = d;
  } else {
    AacDecoderConfig d;
    d.decoder_config_descriptor_tag_ = sym_u8("tag");
    d.object_type_indication_ = sym_u8("object");
    d.stream_type_ = sym_u8("stream");
    d.upstream_ = sym_bool("upstream");
    d.reserved_ = sym_bool("reserved");
    d.buffer_size_db_ = sym_u32("buffer");
    d.max_bitrate_ = sym_u32("max");
    d.average_bit_rate_ = sym_u32("avg");
    auto& s = d.decoder_specific_info_;
    s.decoder_specific_info_tag = sym_u8("itag");
    auto& a = s.audio_specific_config;
    a.audio_object_type_ = sym_u8("aot");
    a.sample_frequency_index_ = (AudioSpecificConfig::SampleFrequencyIndex)(sym_u8("freq") & 15);
    a.channel_configuration_ = sym_u8("chan");
    a.ga_specific_config_.frame_length_flag = sym_bool("ga0");
    a.ga_specific_config_.depends_on_core_coder = sym_bool("ga1");
    a.ga_specific_config_.extension_flag = sym_bool("ga2");
    s.decoder_specific_info_extension = SymBytes(variant & 3, "iext");
    d.decoder_config_extension_ = SymBytes((variant >> 2) * 60, "oext");
    rate = in_rate = AacRate((uint32_t)a.sample_frequency_index_);
    depth = 16;
    valid = (d.decoder_config_descriptor_tag_ == 4) & (d.object_type_indication_ == 0x40) & (d.stream_type_ == 5) & !d.upstream_ & d.reserved_ &
            (d.buffer_size_db_ < (1u << 24)) & (s.decoder_specific_info_tag == 5) & (a.audio_object_type_ == 2) & (rate != 0) & (a.channel_configuration_ == 2) &
            !a.ga_specific_config_.frame_length_flag & !a.ga_specific_config_.depends_on_core_coder & !a.ga_specific_config_.extension_flag;
    c.decoder_config = d;
  }
  const uint32_t n = c.num_samples_per_frame;
  const bool frame_ok = n >= 1 && n <= 96000;
  const int16_t need = codec == 1 && frame_ok ? OpusRoll(n) : codec == 3 ? -1 : 0;
  valid = valid && frame_ok && (override_roll || c.audio_roll_distance == need);
  const uint32_t id = sym_u32("id");
  auto obu = CodecConfigObu::Create(Hdr(kObuIaCodecConfig), id, c, override_roll);
  Bytes w;
  ObuHeader h;
  const bool ok = obu.ok() && WrittenPayload(*obu, w, &h);
  sym_assert(ok == valid, "a codec config is written exactly when it satisfies its codec's constraints");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(obu->GetOutputSampleRate() == rate && obu->GetInputSampleRate() == in_rate && obu->GetBitDepthToMeasureLoudness() == depth, "derived values");
  sym_assert(obu->GetCodecConfig().audio_roll_distance == need, "roll distance");
  auto rb = Reader(w);
  auto back = Parse(h, w.size(), *rb);
  sym_assert(back.ok(), "a written codec config reads back");
  if (!back.ok()) return;
  sym_assert(back->GetCodecConfig() == obu->GetCodecConfig() && back->GetCodecConfigId() == id, "the same configuration is read back");
  sym_assert(*back == *obu, "equal OBUs");
  sym_observe(w.size());
  sym_reach("written");
  // Changing the codec delay touches only the Opus pre-skip.
  const uint16_t delay = sym_u16("delay");
  CodecConfigObu moved = *obu;
  sym_assert(moved.SetCodecDelay(delay).ok(), "codec delay");
  if (codec == 1) {
    OpusDecoderConfig e = std::get<OpusDecoderConfig>(obu->GetCodecConfig().decoder_config);
    e.pre_skip_ = delay;
    sym_assert(std::get<OpusDecoderConfig>(moved.GetCodecConfig().decoder_config) == e, "pre-skip follows the codec delay");
  } else sym_assert(moved == *obu, "no pre-skip for this codec");
}
extern "C" void harness_main() {
  const int c = sym_case();
  // Write side: 0..3 LPCM, Opus, FLAC (6 variants), AAC (8 variants).
  if (c < 2) WriteSide(c, 0);
  else if (c < 8) WriteSide(2, c - 2);
  else if (c < 16) WriteSide(3, c - 8);
  // Read side.
  else if (c < 24) ReadSide(0, 11 + c - 16);
  else if (c < 30) ReadSide(1, 17 + c - 24);
  else if (c < 38) { static const int k[8] = {13, 17, 20, 46, 47, 51, 52, 53}; ReadSide(2, k[c - 30]); }
  else if (c < 46) ReadSide(3, 23 + c - 38);
  else ReadSide(4, c - 46);
}
