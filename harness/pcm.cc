// PCM packing, LPCM encoding and decoding.
#include "obu_common.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/cli_util.h"
#include "iamf/cli/codec/lpcm_decoder.h"
#include "iamf/cli/codec/lpcm_encoder.h"
#include "iamf/cli/sample_processing_utils.h"
#include "iamf/common/utils/numeric_utils.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/decoder_config/lpcm_decoder_config.h"
#include "iamf/obu/substream_channel_count.h"
using namespace vh;
static void Store(Bytes& b, uint32_t sample, int size, bool big) {
  for (int i = 0; i < size / 8; i++)
    b.push_back(big ? sample >> (24 - 8 * i) : sample >> (32 - size + 8 * i));
}
static uint32_t Truncated(uint32_t s, int size) { return size == 0 ? 0 : s & (0xffffffffu << (32 - size)); }
static void Sample(bool big) {
  const uint32_t sample = sym_u32("sample");
  const int size = (int)sym_choose("size", 42);
  uint8_t buf[8];
  sym_make(buf, 8, "before");
  Bytes e(buf, buf + 8);
  size_t pos = sym_choose("pos", 4);
  const size_t start = pos;
  const bool ok = WritePcmSample(sample, (uint8_t)size, big, buf, pos).ok();
  sym_assert(ok == (size % 8 == 0 && size <= 32), "whole bytes up to four");
  if (!ok) {
    sym_assert(pos == start && SameBytes(e, Bytes(buf, buf + 8)), "nothing written on failure");
    sym_reach("refused");
    return;
  }
  Bytes w;
  Store(w, sample, size, big);
  std::copy(w.begin(), w.end(), e.begin() + start);
  sym_assert(pos == start + size / 8, "the position advances by the bytes written");
  sym_assert(SameBytes(e, Bytes(buf, buf + 8)), "exactly the sample's bytes are written");
  if (size) {
    int32_t r = 0;
    auto in = absl::MakeConstSpan(buf + start, size / 8);
    sym_assert((big ? BigEndianBytesToInt32(in, r) : LittleEndianBytesToInt32(in, r)).ok(), "reads back");
    sym_assert((uint32_t)r == Truncated(sample, size), "the sample is kept up to its size");
    sym_reach("sample");
  }
}
static std::vector<std::vector<int32_t>> SymFrame(int channels, int ticks, int odd) {
  std::vector<std::vector<int32_t>> f(channels);
  for (int c = 0; c < channels; c++) {
    f[c].resize(ticks + (c + 1 == odd ? -1 : 0));
    for (auto& x : f[c]) x = sym_i32("sample");
  }
  return f;
}
static Bytes Interleaved(const std::vector<std::vector<int32_t>>& f, int size, bool big) {
  Bytes e;
  if (!f.empty())
    for (size_t t = 0; t < f[0].size(); t++)
      for (size_t c = 0; c < f.size(); c++) Store(e, (uint32_t)f[c][t], size, big);
  return e;
}
static void Pack(int channels, int ticks) {
  const int odd = channels > 1 && ticks > 0 ? (int)sym_choose("odd", channels + 1) : 0;
  auto f = SymFrame(channels, ticks, odd);
  const int sizes[] = {8, 16, 24, 32, 7, 12, 33};
  const int size = sizes[sym_choose("size", 7)];
  const bool big = sym_choose("big", 2);
  Bytes out = SymBytes(2, "old");
  const bool ok = WritePcmFrameToBuffer(f, (uint8_t)size, big, out).ok();
  sym_assert(ok == (size % 8 == 0 && odd == 0), "frames of equal channels with whole bytes are packed");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(SameBytes(out, Interleaved(f, size, big)), "samples are interleaved tick by tick");
  sym_reach("packed");
}
static bool SameSamples(absl::Span<const std::vector<InternalSampleType>> got, const std::vector<std::vector<int32_t>>& f, int size) {
  if (got.size() != f.size()) return false;
  bool same = true;
  for (size_t c = 0; c < f.size(); c++) {
    if (got[c].size() != f[c].size()) return false;
    for (size_t t = 0; t < f[c].size(); t++) same &= got[c][t] == (double)(int32_t)Truncated((uint32_t)f[c][t], size) / 2147483648.0;
  }
  return same;
}
static void Decode(int channels, int per_frame) {
  LpcmDecoderConfig config;
  // The values that occur, then any values.
  const bool usual = sym_choose("usual", 2);
  config.sample_size_ = usual ? 16 + 8 * sym_choose("sample_size", 3) : sym_u8("size");
  config.sample_format_flags_bitmask_ = (LpcmDecoderConfig::LpcmFormatFlagsBitmask)(usual ? sym_choose("little", 2) : sym_u8("flags"));
  config.sample_rate_ = usual ? 48000 : sym_u32("rate");
  const int size = config.sample_size_, flags = config.sample_format_flags_bitmask_;
  const uint32_t rate = config.sample_rate_;
  auto count = SubstreamChannelCount::Create(channels);
  sym_assert(count.ok() == (channels == 1 || channels == 2), "substreams have one or two channels");
  if (!count.ok()) { sym_reach("refused"); return; }
  sym_assert(count->num_channels() == (size_t)channels, "channel count");
  auto d = LpcmDecoder::Create(config, *count, per_frame);
  const bool valid = (flags <= 1) & ((size == 16) | (size == 24) | (size == 32)) & ((rate == 16000) | (rate == 32000) | (rate == 44100) | (rate == 48000) | (rate == 96000));
  sym_assert(d.ok() == valid, "a decoder is made for exactly the valid configurations");
  if (!d.ok() || !valid) { sym_reach("refused"); return; }
  if (!usual) return;
  const int bytes = size / 8;
  const bool big = flags == 0;
  std::vector<std::vector<int32_t>> f(channels);
  for (int frame = 0; frame < 2; frame++) {
    const int n = (int)sym_choose("n", bytes * channels * per_frame + bytes + 2);
    Bytes in = SymBytes(n, "frame");
    const bool whole = n % (bytes * channels) == 0 && n / (bytes * channels) <= per_frame;
    const bool ok = (*d)->DecodeAudioFrame(absl::MakeConstSpan(in)).ok();
    sym_assert(ok == whole, "a frame is decoded exactly when it holds whole ticks and not too many");
    if (ok && whole) {
      for (auto& x : f) x.assign(n / (bytes * channels), 0);
      for (size_t t = 0; t < f[0].size(); t++)
        for (int c = 0; c < channels; c++) {
          uint32_t v = 0;
          for (int i = 0; i < bytes; i++) v |= (uint32_t)in[(t * channels + c) * bytes + i] << (big ? 24 - 8 * i : 32 - 8 * bytes + 8 * i);
          f[c][t] = (int32_t)v;
        }
      sym_assert(SameSamples((*d)->ValidDecodedSamples(), f, 32), "decoded samples");
      sym_reach("decoded");
    } else sym_reach("refused");
    if (n > 2 * bytes && frame == 0) return;  // A second frame after short ones only.
  }
}
static void Codec(int channels, int size, bool big) {
  const int per_frame = 2;
  LpcmDecoderConfig config{.sample_format_flags_bitmask_ = big ? LpcmDecoderConfig::kLpcmBigEndian : LpcmDecoderConfig::kLpcmLittleEndian, .sample_size_ = (uint8_t)size, .sample_rate_ = 48000};
  auto obu = CodecConfigObu::Create(ObuHeader(), 7, CodecConfig{.codec_id = CodecConfig::kCodecIdLpcm, .num_samples_per_frame = (uint32_t)per_frame, .audio_roll_distance = 0, .decoder_config = config});
  sym_assert(obu.ok(), "codec configuration");
  if (!obu.ok()) return;
  auto count = channels == 1 ? SubstreamChannelCount::MakeSingular() : SubstreamChannelCount::MakeCoupled();
  LpcmEncoder lpcm(*obu, count);
  EncoderBase& enc = lpcm;
  sym_assert(enc.Initialize(false).ok() && enc.GetNumberOfSamplesToDelayAtStart() == 0, "encoder starts without delay");
  auto dec = LpcmDecoder::Create(config, count, per_frame);
  sym_assert(dec.ok(), "decoder");
  if (!dec.ok()) return;
  std::vector<std::vector<std::vector<int32_t>>> sent;
  bool finalized = false;
  for (int k = 0; k < 3; k++) {
    const int op = (int)sym_choose("op", 5);  // 0..2: frames, 3: finalize, 4: pop
    if (op == 3) { sym_assert(enc.Finalize().ok(), "finalize"); finalized = true; continue; }
    std::list<AudioFrameWithData> popped;
    if (op == 4) {
      sym_assert(enc.Pop(popped).ok() && popped.size() == (sent.empty() ? 0 : 1), "frames come out one by one");
      if (sent.empty()) continue;
      const Bytes& b = popped.front().obu.audio_frame_;
      sym_assert(SameBytes(b, Interleaved(sent.front(), size, big)), "encoded frame");
      sym_assert((*dec)->DecodeAudioFrame(absl::MakeConstSpan(b)).ok() && SameSamples((*dec)->ValidDecodedSamples(), sent.front(), size), "decoding returns the frame");
      sent.erase(sent.begin());
      sym_reach("codec");
      continue;
    }
    const int ticks = op == 0 ? per_frame : per_frame + (op == 1 ? 1 : -1);
    const int given = op == 2 ? channels + 1 : channels;
    auto f = SymFrame(given, ticks, 0);
    auto partial = std::make_unique<AudioFrameWithData>(AudioFrameWithData{.obu = AudioFrameObu(ObuHeader(), 3, {}), .start_timestamp = 0, .end_timestamp = per_frame, .audio_element_with_data = nullptr});
    const bool closed = enc.Finished();
    sym_assert(closed == (finalized && sent.empty()), "finished when finalized and drained");
    const bool ok = enc.EncodeAudioFrame(f, std::move(partial)).ok();
    sym_assert(ok == (op == 0 && !closed), "frames of the configured shape are encoded");
    if (ok) sent.push_back(f); else sym_reach("refused");
    sym_assert(enc.FramesAvailable() == !sent.empty(), "available");
  }
}
static void Transpose(int channels, int ticks) {
  const int n = channels * ticks + (int)sym_choose("extra", channels ? 2 : 1);
  std::vector<double> in(n);
  for (auto& x : in) x = sym_double("x");
  std::vector<std::vector<double>> out;
  const bool ok = ConvertInterleavedToChannelTime<double, double>(absl::MakeConstSpan(in), channels, out).ok();
  sym_assert(ok == (n % channels == 0), "whole ticks are split");
  if (!ok) { sym_reach("refused"); return; }
  std::vector<absl::Span<const double>> spans;
  bool same = out.size() == (size_t)channels;
  for (int c = 0; same && c < channels; c++) {
    same = out[c].size() == (size_t)n / channels;
    spans.push_back(absl::MakeConstSpan(out[c]));
    for (size_t t = 0; same && t < out[c].size(); t++) sym_assert(std::bit_cast<uint64_t>(out[c][t]) == std::bit_cast<uint64_t>(in[t * channels + c]), "sample is in place");
  }
  sym_assert(same, "shape");
  std::vector<double> back;
  sym_assert(ConvertChannelTimeToInterleaved<double, double>(absl::MakeConstSpan(spans), back).ok() && back.size() == in.size(), "interleaves again");
  bool id = back.size() == in.size();
  for (size_t i = 0; id && i < in.size(); i++) sym_assert(std::bit_cast<uint64_t>(back[i]) == std::bit_cast<uint64_t>(in[i]), "identical");
  if (channels > 1 && ticks > 0) {
    spans[channels - 1] = spans[channels - 1].subspan(1);
    sym_assert(!ConvertChannelTimeToInterleaved<double, double>(absl::MakeConstSpan(spans), back).ok(), "channels of unequal length are refused");
  }
  sym_reach("transposed");
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 2) return Sample(c);
  c -= 2;
  if (c < 16) return Pack(c % 4, c / 4);
  c -= 16;
  if (c < 12) return Decode(c % 4, c / 4);
  c -= 12;
  if (c < 12) return Codec(c % 2 + 1, 16 + 8 * (c / 2 % 3), c / 6);
  c -= 12;
  Transpose(c % 3 + 1, c / 3);
}
