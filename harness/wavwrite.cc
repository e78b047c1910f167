// WavWriter against stand-ins for the file and the third-party header writer:
// any samples, calls in any order, failures of every operation.
#include "harness.h"
#include <cstring>
#include <memory>
#include <vector>
#include "iamf/cli/wav_writer.h"
#include "iamf/common/utils/numeric_utils.h"
#include "src/dsp/write_wav_file.h"
using namespace iamf_tools;
namespace {
char token;
FILE* const kFile = reinterpret_cast<FILE*>(&token);
bool can_open = true, header_ok = true, misuse;
int opened, closed, removed, headers, header_depth, rate, channels;
size_t header_samples;
bool at_start, data_before_header;
std::vector<uint8_t> data;  // What is in the file behind the header.
int short_write = -1;       // Which write fails.
int writes;
}
FILE* vh_open(const char* name, const char* mode) {
  if (std::strcmp(name, "out.wav") || mode[0] != 'w') misuse = true;
  if (!can_open) { errno = EACCES; return nullptr; }
  opened++;
  at_start = true;
  return kFile;
}
static void Open(FILE* f) { if (f != kFile || closed) misuse = true; }
int vh_close(FILE* f) { Open(f); closed++; return 0; }
size_t vh_write(const void* p, size_t size, size_t n, FILE* f) {
  Open(f);
  if (size != 1) misuse = true;
  if (writes++ == short_write) { errno = ENOSPC; return n - 1; }
  const uint8_t* b = static_cast<const uint8_t*>(p);
  data.insert(data.end(), b, b + n);
  at_start = false;
  return n;
}
int vh_seek(FILE* f, long at, int from) { Open(f); at_start = at == 0 && from == SEEK_SET; return 0; }
int vh_remove(const char* name) { if (std::strcmp(name, "out.wav") || (opened && !closed)) misuse = true; removed++; return 0; }
static int Header(int depth, FILE* f, size_t n, int r, int c) {
  Open(f);
  if (!at_start) data_before_header = true;
  if (!header_ok) return 0;
  headers++;
  header_depth = depth;
  header_samples = n;
  rate = r;
  channels = c;
  at_start = false;
  return 1;
}
extern "C" {
int WriteWavHeader(FILE* f, size_t n, int r, int c) { return Header(16, f, n, r, c); }
int WriteWavHeader24Bit(FILE* f, size_t n, int r, int c) { return Header(24, f, n, r, c); }
int WriteWavHeader32Bit(FILE* f, size_t n, int r, int c) { return Header(32, f, n, r, c); }
}
static void PutSample(std::vector<uint8_t>& b, uint32_t v, int depth) {
  for (int i = 4 - depth / 8; i < 4; i++) b.push_back((uint8_t)(v >> (8 * i)));
}
static bool Same(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) {
  if (a.size() != b.size()) return false;
  bool same = true;
  for (size_t i = 0; i < a.size(); i++) same &= a[i] == b[i];
  return same;
}
static void Refused() {
  const uint8_t depth = sym_u8("depth");
  const bool with_header = sym_choose("header", 2);
  can_open = sym_choose("open", 2);
  header_ok = sym_choose("header_ok", 2);
  const bool known = (depth == 16) | (depth == 24) | (depth == 32);
  {
    auto w = WavWriter::Create("out.wav", 2, 48000, depth, 4, with_header);
    sym_assert((w != nullptr) == (can_open && known && (header_ok || !with_header)), "a writer is made exactly for a depth it knows and a file it can write");
    if (w) {
      sym_assert(w->bit_depth() == depth, "the depth is kept");
      sym_assert(opened == 1 && !closed && !removed && headers == (with_header ? 1 : 0), "the file is open with one header");
      sym_reach("made");
    } else {
      sym_assert(opened == closed, "nothing is left open");
      if (can_open) sym_assert(removed == 1, "no useless file is left behind");
      sym_reach("refused");
    }
  }
  sym_assert(opened == closed && !misuse && !data_before_header, "closed once at the end");
}
static void Calls(int num_channels, int depth, int frame, bool with_header) {
  short_write = (int)sym_choose("short", 3) - 1;
  std::vector<uint8_t> want;
  size_t total = 0;
  bool flushed = false, aborted = false, abandoned = false, broken = false, symbolic = false;
  int value = 0;
  const int kRate = 44100;
  auto w = WavWriter::Create("out.wav", num_channels, kRate, depth, frame, with_header);
  if (!w) { sym_fail("made"); return; }
  const int bytes = depth / 8;
  for (int op = 0; op < OPS; op++) {
    const int what = (int)sym_choose("op", 4);
    if (what == 0) {
      // A frame; possibly too long, or with another number of channels.
      const int ticks = (int)sym_choose("ticks", frame + 2), nc = num_channels + (sym_choose("extra_channel", 2) ? 1 : 0);
      std::vector<std::vector<double>> samples(nc, std::vector<double>(ticks));
      std::vector<absl::Span<const double>> spans;
      std::vector<uint8_t> add;
      // One sample is anything, the others differ from each other; one may not be a number.
      for (auto& c : samples) for (auto& x : c) {
        x = (++value % 2 ? 1 : -1) * value / 21.0;
        if (!symbolic && ticks <= frame && nc == num_channels) x = sym_double("x"), symbolic = true;
      }
      for (auto& c : samples) spans.push_back(absl::MakeConstSpan(c));
      bool convertible = true;
      for (int t = 0; t < ticks; t++)
        for (int c = 0; c < num_channels; c++) {
          int32_t v = 0;
          convertible &= NormalizedFloatingPointToInt32(samples[c][t], v).ok();
          PutSample(add, (uint32_t)v, depth);
        }
      const int before = writes;
      const bool ok = w->PushFrame(absl::MakeConstSpan(spans)).ok();
      bool valid = !flushed && nc == num_channels && ticks <= frame && convertible;
      if (valid && aborted) valid = false;
      const bool failed = valid && ticks && before == short_write;
      sym_assert(ok == (valid && !failed), "a frame is written exactly when it fits and the file takes it");
      if (ok) { want.insert(want.end(), add.begin(), add.end()); total += (size_t)ticks * nc; sym_reach("pushed"); }
      if (failed) broken = true;
      sym_assert(w->GetOutputSamplesAsSpan().empty() || w->GetOutputSamplesAsSpan()[0].empty(), "samples are consumed");
    } else if (what == 1) {
      const int n = (int)sym_choose("bytes", 2 * bytes * num_channels + 2);
      std::vector<uint8_t> b(n);
      for (auto& x : b) x = sym_u8("byte");
      const int before = writes;
      const bool ok = w->WritePcmSamples(absl::MakeConstSpan(b)).ok();
      const bool whole = n == 0 || (n % (bytes * num_channels) == 0 && n / (bytes * num_channels) <= frame);
      const bool valid = !flushed && !aborted && whole;
      const bool failed = valid && n && before == short_write;
      sym_assert(ok == (valid && !failed), "bytes are written exactly when they are whole ticks that fit and the file takes them");
      if (ok) { want.insert(want.end(), b.begin(), b.end()); total += n / bytes; sym_reach("bytes"); }
      if (failed) broken = true;
    } else if (what == 2) {
      const bool ok = w->Flush().ok();
      sym_assert(ok == !flushed, "flushing works once");
      flushed = true;
    } else {
      w->Abort();
      if (!flushed) abandoned = true;
      sym_assert(removed > 0 && closed == 1, "an aborted file is closed and removed");
      aborted = true;
      sym_reach("aborted");
    }
    sym_assert(Same(data, want), "the file has exactly the samples accepted so far, in order");
    sym_assert(!(aborted || flushed) || closed == 1, "finished files are closed");
  }
  w.reset();
  sym_assert(opened == 1 && closed == 1 && !misuse, "the file is closed exactly once and never used afterwards");
  sym_assert((removed > 0) == aborted, "the file is removed exactly when writing was aborted");
  sym_assert(!data_before_header && headers == (with_header ? (abandoned ? 1 : 2) : 0), "the header is written in front, at the start and at the end");
  if (with_header) sym_assert((rate == kRate) & (channels == num_channels) & (header_depth == depth), "the header has the format");
  if (with_header && !abandoned) sym_assert(header_samples == total, "the header counts the samples that were written");
  sym_reach(broken ? "short" : "finished");
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c == 0) return Refused();
  static const int k[][4] = {{1, 16, 2, 1}, {2, 24, 1, 1}, {2, 32, 1, 0}, {2, 16, 1, 1}, {3, 32, 1, 1}, {1, 24, 2, 0}};
  Calls(k[c - 1][0], k[c - 1][1], k[c - 1][2], k[c - 1][3]);
}
