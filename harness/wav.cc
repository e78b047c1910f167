// WavReader against a stand-in for the third-party WAV library: any header it
// may report, any sample values, a file that ends anywhere.
#include <cmath>
#include <cstring>
#include <utility>
#include <vector>
#include "iamf/cli/wav_reader.h"
#include "src/dsp/read_wav_file.h"
#include "harness.h"
using namespace iamf_tools;
namespace {
bool exists, header_ok;
int opened, closed;
ReadWavInfo header;
char token;
FILE* const kFile = reinterpret_cast<FILE*>(&token);
std::vector<int32_t> samples;  // Everything the file has.
size_t position;
bool misuse;
bool expect_bytes_4;
}
// The value of a float sample, in the code's own operations; the one-sample
// case settles those against integer arithmetic.
static int32_t FullScale(int32_t raw) {
  float x;
  std::memcpy(&x, &raw, 4);
  if (std::isnan(x)) return 0;
  x *= 2147483648.0f;
  if (x >= 2147483648.0f) return INT32_MAX;
  if (x <= -2147483648.0f) return INT32_MIN;
  return (int32_t)x;
}
FILE* vh_open(const char* name, const char* mode) {
  if (std::strcmp(name, "in.wav") || mode[0] != 'r') misuse = true;
  if (!exists) { errno = ENOENT; return nullptr; }
  opened++;
  return kFile;
}
int vh_close(FILE* f) {
  if (f != kFile) misuse = true;
  closed++;
  return 0;
}
extern "C" int ReadWavHeader(FILE* f, ReadWavInfo* info) {
  if (f != kFile || closed) misuse = true;
  if (!header_ok) return 0;
  *info = header;
  return 1;
}
extern "C" size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* out, size_t n) {
  if (f != kFile || closed) misuse = true;
  // Samples are delivered in the width the caller asked for.
  if (info->destination_alignment_bytes != 4) misuse = true;
  size_t want = n < info->remaining_samples ? n : info->remaining_samples;
  size_t got = 0;
  int32_t* dst = static_cast<int32_t*>(out);
  while (got < want && position < samples.size()) dst[got++] = samples[position++];
  // A file that ends early has no more samples.
  info->remaining_samples = got < want ? 0 : info->remaining_samples - got;
  return got;
}
extern "C" void harness_main() {
  const int c = sym_case();
  // channels, samples per frame, ticks in the file.
  exists = header_ok = true;
  if (c < 3) {
    exists = c != 0;
    header_ok = c != 1;
    header = {.num_channels = 2, .sample_rate_hz = 48000, .remaining_samples = 4, .bit_depth = 16, .destination_alignment_bytes = 2, .encoding = ReadWavInfo::kPcm16Encoding, .sample_format = ReadWavInfo::kInt16};
    auto r = WavReader::CreateFromFile("in.wav", c == 2 ? 0 : 4);
    sym_assert(!r.ok(), "a missing or malformed file or an empty frame size is refused");
    sym_assert(opened == closed && !misuse, "nothing is left open");
    sym_reach("refused");
    return;
  }
  if (c == 3) {
    header = {.num_channels = 1, .sample_rate_hz = 48000, .remaining_samples = 1, .bit_depth = 32, .destination_alignment_bytes = 4, .encoding = ReadWavInfo::kIeeeFloat32Encoding, .sample_format = ReadWavInfo::kFloat};
    const uint32_t bits = sym_u32("bits");
    samples.push_back((int32_t)bits);
    auto r = WavReader::CreateFromFile("in.wav", 1);
    sym_assert(r.ok(), "a valid file is accepted");
    if (!r.ok()) return;
    sym_assert(r->ReadFrame() == 1, "one sample");
    const uint32_t got = (uint32_t)r->buffers_[0][0];
    // IEEE-754 taken apart with integers.
    const uint32_t exponent = bits >> 23 & 0xff;
    const uint64_t mantissa = (bits & 0x7fffff) | 0x800000;
    const bool nan = (exponent == 0xff) & ((bits & 0x7fffff) != 0), negative = bits >> 31;
    // Value: mantissa * 2^(exponent - 150); times 2^31: exponent - 119.
    const uint32_t up = (exponent - 119) & 63, down = (119 - exponent) & 63;
    uint64_t magnitude = exponent >= 127 ? 0x80000000ull : exponent >= 119 ? mantissa << up : exponent >= 95 ? mantissa >> down : 0;
    const uint32_t want = nan ? 0 : negative ? (uint32_t)(0 - magnitude) : magnitude >= 0x80000000ull ? 0x7fffffffu : (uint32_t)magnitude;
    sym_assert(got == want, "a float sample is scaled to full scale, clipped, and NaN is silence");
    sym_reach("scaled");
    return;
  }
  const int k = c - 4;
  const int channels = 1 + k % MAXC, frame = 1 + k / MAXC % MAXF;
  const int total = (int)sym_choose("total", channels * (2 * frame + 1) + 1);  // Samples in the file.
  const int missing = (int)sym_choose("claimed", 2) * channels;                // The header may claim more.
  header = {.num_channels = channels, .sample_rate_hz = (int)sym_u32("rate"), .remaining_samples = (size_t)(total + missing), .bit_depth = (int)sym_u8("depth"), .destination_alignment_bytes = 2,
            .encoding = ReadWavInfo::kPcm16Encoding, .sample_format = sym_choose("float", 2) ? ReadWavInfo::kFloat : ReadWavInfo::kInt32};
  const bool is_float = header.sample_format == ReadWavInfo::kFloat;
  for (int i = 0; i < total; i++) samples.push_back(sym_i32("sample"));
  {
    auto created = WavReader::CreateFromFile("in.wav", frame);
    sym_assert(created.ok(), "a valid file is accepted");
    if (!created.ok()) return;
    WavReader r(std::move(*created));
    sym_assert(opened == 1 && closed == 0, "moving neither closes nor reopens");
    sym_assert(r.num_channels() == channels && (uint32_t)r.sample_rate_hz() == (uint32_t)header.sample_rate_hz && r.bit_depth() == header.bit_depth, "the header is reported");
    size_t at = 0;
    for (int f = 0; f < 4; f++) {
      const size_t left = total - at;
      const size_t expected = left < (size_t)(channels * frame) ? left : channels * frame;
      const size_t n = r.ReadFrame();
      sym_assert(n == expected, "a frame has as many samples as the file still has, up to the frame's size");
      if (n != expected) return;
      sym_assert((int)r.buffers_.size() == channels, "one buffer per channel");
      bool same = true;
      for (size_t t = 0; t < n / channels; t++)
        for (int ch = 0; ch < channels; ch++) {
          const int32_t raw = samples[at + t * channels + ch];
          const int32_t want = is_float ? FullScale(raw) : raw;
          same = same & (r.buffers_[ch][t] == want);
        }
      sym_assert(same, "samples arrive in order, on their channel, at full scale");
      at += n;
      if (n == 0) { sym_reach("end"); break; }
      sym_reach(n == (size_t)(channels * frame) ? "full" : "short");
      if (is_float) sym_reach("float");
      if (missing == 0) sym_assert(r.remaining_samples() == total - (int)at, "what is left is reported");
      else if (n < (size_t)(channels * frame)) sym_assert(r.remaining_samples() == 0, "a truncated file has nothing left");
    }
    sym_assert(closed == 0, "the file stays open while reading");
  }
  sym_assert(opened == 1 && closed == 1 && !misuse, "the file is closed once, at the end");
}
