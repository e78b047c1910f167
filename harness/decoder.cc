// The decoder of the public interface: whatever the chunks, and whenever the
// caller takes the output, the samples are those of the stream, in order.
#include "stream_common.h"
#include "iamf/api/decoder/iamf_decoder.h"
using namespace vh;
using namespace iamf_tools;
namespace {
using api::IamfDecoder;
constexpr int kFrame = 2;
// A 16-bit sample which tells the unit, channel and tick.
int Sample(int unit, int channel, int tick) { return 0x100 * (unit + 1) + 0x10 * channel + tick + 1; }
struct Stream {
  Bytes descriptors, units;
  std::vector<size_t> ends;        // Of the temporal units.
  std::vector<std::vector<int>> expected;  // Per unit, interleaved.
  int channels = 2;
};
void PutUnit(Stream& s, const std::vector<std::vector<int>>& substreams, const std::vector<int>& order, int index, int trim_end = -1, int trim_start = 0) {
  for (size_t i = 0; i < substreams.size(); i++) {
    Bytes b;
    for (int t = 0; t < kFrame; t++)
      for (int c : substreams[i]) {
        const int v = Sample(index, c, t);
        Add(b, {(uint8_t)v, (uint8_t)(v >> 8)});
      }
    Add(s.units, vh::Frame(1 + (int)i, b, trim_end, trim_start));
  }
  std::vector<int> e;
  for (int t = trim_start; t < kFrame - (trim_end < 0 ? 0 : trim_end); t++)
    for (int c : order) e.push_back(Sample(index, c, t));
  s.expected.push_back(e);
}
// shape 0: plain stereo; 1: delimiters, one of them twice; 2: a unit with only
// what is skipped; 3: 7.1, perhaps for Android, with a last unit without
// frames; 4: trims; 5: parameter blocks, with a last unit without frames.
Stream Make(int shape, bool android) {
  Stream s;
  const bool seven = shape == 3;
  s.channels = seven ? 8 : 2;
  s.descriptors = SequenceHeader();
  Add(s.descriptors, Obu(0, LpcmPayload(3, kFrame)));
  if (seven) Add(s.descriptors, Obu(1, ElementPayload(40, 3, {1, 2, 3, 4, 5}, 5, 3)));
  else Add(s.descriptors, Obu(1, ElementPayload(40, 3, {1}, 1, 1)));
  Add(s.descriptors, Obu(2, MixPayload(9, {40}, 90, {seven ? 8 : 0}, 1)));
  std::vector<std::vector<int>> sub = {{0, 1}};
  std::vector<int> order = {0, 1};
  if (seven) {
    sub = {{0, 1}, {4, 5}, {6, 7}, {2}, {3}};
    order = android ? std::vector<int>{0, 1, 2, 3, 6, 7, 4, 5} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7};
  }
  auto unit = [&](int i, int trim_end = -1, int trim_start = 0) { PutUnit(s, sub, order, i, trim_end, trim_start); };
  switch (shape) {
    case 0: for (int i = 0; i < 3; i++) { unit(i); s.ends.push_back(s.units.size()); } break;
    case 1:
      for (int i = 0; i < 3; i++) {
        Add(s.units, Delimiter());
        if (i == 1) Add(s.units, Delimiter());
        unit(i);
        s.ends.push_back(s.units.size());
      }
      break;
    case 2:
      unit(0);
      s.ends.push_back(s.units.size());
      Add(s.units, Delimiter());
      Add(s.units, vh::Frame(7, {1, 2}));
      Add(s.units, Delimiter());
      unit(1);
      s.ends.push_back(s.units.size());
      Add(s.units, Delimiter());
      unit(2);
      s.ends.push_back(s.units.size());
      break;
    case 3:
      for (int i = 0; i < 2; i++) { unit(i); s.ends.push_back(s.units.size()); }
      Add(s.units, GainBlock(90, kFrame, 0));
      s.ends.push_back(s.units.size());
      break;
    case 4:
      unit(0, 0, 1);
      s.ends.push_back(s.units.size());
      unit(1, 0, 0);
      s.ends.push_back(s.units.size());
      unit(2, 1, 0);
      s.ends.push_back(s.units.size());
      break;
    default:
      for (int i = 0; i < 2; i++) {
        Add(s.units, GainBlock(90, kFrame, 0));
        unit(i);
        s.ends.push_back(s.units.size());
      }
      Add(s.units, GainBlock(90, kFrame, 0));
      s.ends.push_back(s.units.size());
  }
  return s;
}
struct Output {
  const Stream& s;
  bool wide;
  size_t next = 0;
  void Take(IamfDecoder& d, bool small) {
    sym_assert(d.IsTemporalUnitAvailable(), "available");
    const size_t bytes = next < s.expected.size() ? s.expected[next].size() * (wide ? 4 : 2) : 0;
    uint8_t out[512];
    size_t written = 77;
    if (small && bytes) {
      const auto refused = d.GetOutputTemporalUnit(out, bytes - 1, written);
      sym_assert(!refused.ok(), "output which does not fit is refused");
      sym_assert(d.IsTemporalUnitAvailable(), "output which did not fit is still available");
      sym_reach("small");
    }
    const auto status = d.GetOutputTemporalUnit(out, sizeof(out), written);
    sym_assert(status.ok(), "output is written");
    sym_assert(next < s.expected.size(), "no more units than the stream has");
    if (next >= s.expected.size()) sym_stop();
    sym_assert(written == bytes, "the size of a unit");
    bool good = true;
    for (size_t i = 0; i < s.expected[next].size() && good; i++) {
      const uint32_t want = (uint32_t)s.expected[next][i];
      if (wide) {
        const uint8_t* p = out + 4 * i;
        good = (p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24) == want << 16;
      } else {
        const uint8_t* p = out + 2 * i;
        good = (uint32_t)(p[0] | p[1] << 8) == want;
      }
    }
    sym_assert(good, "the samples of the stream, in order");
    next++;
  }
};
}  // namespace
extern "C" void harness_main() {
  const int shape = (int)sym_case() % 6, mode = (int)sym_case() / 6;
  // mode 0: standalone; 1: created from descriptors, units fed whole.
  const bool android = shape == 3 && sym_choose("android", 2);
  const Stream s = Make(shape, android);
  IamfDecoder::Settings settings;
  settings.requested_mix.output_layout = shape == 3 ? api::OutputLayout::kItu2051_SoundSystemI_0_7_0 : api::OutputLayout::kItu2051_SoundSystemA_0_2_0;
  settings.channel_ordering = android ? api::ChannelOrdering::kOrderingForAndroid : api::ChannelOrdering::kIamfOrdering;
  const bool wide = mode == 0 || sym_choose("wide", 2);
  settings.requested_output_sample_type = wide ? api::OutputSampleType::kInt32LittleEndian : api::OutputSampleType::kInt16LittleEndian;
  std::unique_ptr<IamfDecoder> d;
  // How the caller takes the output: all there is after every chunk, nothing
  // before the end, or one unit after every chunk.
  const int policy = mode == 1 ? 2 : (int)sym_choose("policy", 3);
  const bool small = mode == 0 && sym_choose("small", 2);
  Output o{s, wide};
  auto drain = [&](int p) {
    if (p == 1) return;
    for (int n = 0; d->IsTemporalUnitAvailable() && (p == 0 || n < 1); n++) o.Take(*d, small);
  };
  if (mode == 0) {
    Bytes all = s.descriptors;
    Add(all, s.units);
    sym_assert(IamfDecoder::Create(settings, d).ok() && d, "created");
    const int n = (int)all.size();
    int a = (int)sym_choose("cut", (unsigned)n + 1), b = n;
    if (CUTS > 1) b = a + (int)sym_choose("cut", (unsigned)(n - a + 1));
    sym_assert(d->Decode(all.data(), a).ok(), "decode");
    drain(policy);
    if (b > a) { sym_assert(d->Decode(all.data() + a, b - a).ok(), "decode"); drain(policy); }
    if (n > b) { sym_assert(d->Decode(all.data() + b, n - b).ok(), "decode"); drain(policy); }
  } else {
    sym_assert(IamfDecoder::CreateFromDescriptors(settings, s.descriptors.data(), s.descriptors.size(), d).ok() && d, "created");
    sym_assert(d->IsDescriptorProcessingComplete(), "descriptors are known");
    // Part of a first run, then a reset.
    const int reset = (int)sym_choose("reset", 4);
    if (reset) {
      const int part = reset == 3 || shape == 3 ? (int)s.ends[0] : (int)sym_choose("part", (unsigned)s.units.size() + 1);
      (void)d->Decode(s.units.data(), part);
      if (d->IsTemporalUnitAvailable() && sym_choose("take", 2)) { uint8_t out[512]; size_t w; (void)d->GetOutputTemporalUnit(out, sizeof(out), w); }
      if (sym_choose("end", 2)) (void)d->SignalEndOfDecoding();
      api::SelectedMix mix;
      if (reset == 3) {
        // A mix which cannot be rendered here.
        api::RequestedMix none;
        none.output_layout = api::OutputLayout::kIAMF_Binaural;
        (void)d->ResetWithNewMix(none, mix);
        sym_assert(!d->IsTemporalUnitAvailable(), "nothing is left after a reset");
        uint8_t out[512];
        size_t w;
        (void)d->Decode(s.units.data(), part);
        (void)d->GetOutputTemporalUnit(out, sizeof(out), w);
        sym_assert(w == 0, "nothing is decoded without a mix");
        sym_reach("unrendered");
      }
      if (reset == 1) sym_assert(d->Reset().ok(), "reset");
      else sym_assert(d->ResetWithNewMix(settings.requested_mix, mix).ok() && mix.mix_presentation_id == 9 && mix.output_layout == settings.requested_mix.output_layout, "reset to the same mix");
      sym_assert(!d->IsTemporalUnitAvailable(), "nothing is left after a reset");
      sym_reach("reset");
    }
    size_t at = 0;
    // Each chunk holds one or more whole units.
    for (size_t i = 0; i < s.ends.size();) {
      size_t last = i + sym_choose("units", (unsigned)(s.ends.size() - i));
      sym_assert(d->Decode(s.units.data() + at, s.ends[last] - at).ok(), "decode");
      drain(policy);
      at = s.ends[last];
      i = last + 1;
    }
  }
  sym_assert(d->SignalEndOfDecoding().ok(), "end");
  drain(0);
  sym_assert(o.next == s.expected.size(), "every unit of the stream is delivered");
  int channels = 0;
  uint32_t rate = 0, size = 0;
  api::SelectedMix mix;
  sym_assert(d->GetNumberOfOutputChannels(channels).ok() && channels == s.channels, "channels");
  sym_assert(d->GetSampleRate(rate).ok() && rate == 48000 && d->GetFrameSize(size).ok() && size == kFrame, "rate and frame size");
  sym_assert(d->GetOutputMix(mix).ok() && mix.mix_presentation_id == 9, "mix");
  sym_assert(!d->Decode(s.units.data(), 1).ok(), "nothing is decoded after the end");
  sym_reach("delivered");
}
