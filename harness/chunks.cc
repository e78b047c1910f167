// Streams cut into chunks anywhere: descriptors, temporal units and decoded
// samples are those of the whole stream.
#include "stream_common.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/obu_processor.h"
using namespace vh;
using namespace iamf_tools;
namespace {
constexpr int kFrame = 2;
// What the descriptors of a stream amount to.
Bytes Descriptors(int kind) {
  Bytes b = SequenceHeader(2, kind == 2 ? 4 : 0);
  if (kind == 1) Add(b, Obu(26, SymBytes(3, "reserved")));
  if (kind == 1) Add(b, Obu(0, {5, 'i', 'p', 'c', 'm', 1}));  // Implausibly small.
  Add(b, Obu(0, LpcmPayload(3, kFrame)));
  if (kind == 2) { Add(b, SequenceHeader(2, 4)); Add(b, Obu(0, LpcmPayload(3, kFrame), 4)); }
  Add(b, Obu(1, ElementPayload(40, 3, {1}, 1, 1)));
  if (kind == 1) Add(b, Obu(24, {1, 1, 'a', 0, 'b', 0}));
  if (kind == 1) Add(b, Obu(1, {41}));  // Cut short.
  Add(b, Obu(2, MixPayload(9, {40}, 90)));
  return b;
}
void CheckDescriptors(const DescriptorObus& d) {
  sym_assert(d.codec_config_obus.size() == 1 && d.codec_config_obus.count(3) == 1, "the codec configs of the stream");
  sym_assert(d.audio_elements.size() == 1 && d.audio_elements.count(40) == 1, "the audio elements of the stream");
  sym_assert(d.mix_presentation_obus.size() == 1 && d.mix_presentation_obus.front().GetMixPresentationId() == 9, "the mix presentations of the stream");
  sym_assert(d.ia_sequence_header.GetPrimaryProfile() == ProfileVersion::kIamfBaseEnhancedProfile, "the sequence header of the stream");
}
// Descriptors with the data ending anywhere.
void CutDescriptors(int kind, bool exact) {
  const Bytes d = Descriptors(kind);
  Bytes all = d;
  const int after = (int)sym_choose("after", exact ? 1 : 3);
  if (after == 1) Add(all, Delimiter());
  if (after == 2) Add(all, SequenceHeader());
  if (kind == 2 && after == 2) return;  // A header after a redundant one is part of the same sequence.
  const int n = (int)all.size(), first = (int)sym_choose("first", (unsigned)n + 1);
  auto rb = StreamBasedReadBitBuffer::Create(1024);
  sym_assert(rb->PushBytes(absl::MakeConstSpan(all.data(), first)).ok(), "push");
  bool insufficient = false;
  auto r = DescriptorObuParser::ProcessDescriptorObus(exact, *rb, insufficient);
  // Without the exact flag, the end is known by the header of what follows
  // (for an IA sequence header, by all of it).
  bool complete = exact ? first >= (int)d.size() : after == 1 ? first >= (int)d.size() + 2 : after == 2 && first == n;
  // A boundary between OBUs looks like the end when told that there is no more.
  if (exact && first < (int)d.size()) {
    size_t at = 0;
    while (at < (size_t)first) at += 2 + d[at + 1];
    if (at == (size_t)first && at > 0) {
      sym_assert(r.ok() && !insufficient && rb->NumBytesAvailable() == 0, "whole OBUs are descriptors");
      return;
    }
  }
  if (!complete) {
    sym_assert(!r.ok() && absl::IsResourceExhausted(r.status()) && insufficient, "incomplete descriptors ask for more");
    sym_assert(rb->Tell() == 0 && rb->NumBytesAvailable() == first, "incomplete descriptors are left unconsumed");
    sym_reach("incomplete");
    sym_assert(rb->PushBytes(absl::MakeConstSpan(all.data() + first, n - first)).ok(), "push");
    r = DescriptorObuParser::ProcessDescriptorObus(exact, *rb, insufficient);
    if (!exact && !after) {
      sym_assert(!r.ok() && insufficient && rb->Tell() == 0, "the end is not known yet");
      return;
    }
  }
  sym_assert(r.ok() && !insufficient, "complete descriptors are parsed");
  if (!r.ok()) return;
  CheckDescriptors(*r);
  sym_assert(rb->Tell() == 8 * (int64_t)d.size(), "nothing but the descriptors is consumed");
  sym_reach("complete");
}

// ---- Temporal units.
struct Unit {
  int64_t time = 0;
  Bytes samples;
  int blocks = 0;
  int trim_end = 0, trim_start = 0;
};
struct Stream {
  Bytes bytes;
  std::vector<size_t> ends;  // Of each OBU.
  std::vector<Unit> units;
  size_t stop = 0;  // Where reading ends.
  bool stopped = false, concrete = false;
  int64_t time = 0;
  void Put(const Bytes& b) { Add(bytes, b); ends.push_back(bytes.size()); if (!stopped) stop = bytes.size(); }
  void PutUnit(bool block = false, int trim_end = -1, int trim_start = 0) {
    Unit u;
    u.time = time;
    if (concrete) for (int i = 0; i < 4 * kFrame; i++) u.samples.push_back((uint8_t)(16 * time + i));
    else u.samples = SymBytes(4 * kFrame, "samples");
    u.trim_end = trim_end < 0 ? 0 : trim_end;
    u.trim_start = trim_start;
    if (block) { Put(GainBlock(90, kFrame, 0)); u.blocks = 1; }
    Put(vh::Frame(1, u.samples, trim_end, trim_start));
    if (!stopped) units.push_back(u);
    time += kFrame;
  }
};
Stream Units(int shape) {
  Stream s;
  switch (shape) {
    case 0: for (int i = 0; i < 3; i++) s.PutUnit(); break;
    case 1: for (int i = 0; i < 3; i++) { s.Put(Delimiter()); s.PutUnit(); } break;
    case 2: for (int i = 0; i < 3; i++) s.PutUnit(i < 2); break;
    case 3:  // Things to skip.
      s.Put(Obu(27, SymBytes(2, "reserved")));
      s.PutUnit();
      s.Put(vh::Frame(7, SymBytes(3, "unknown")));
      s.Put(SequenceHeader(2, 4));
      s.PutUnit();
      s.Put(Obu(3, {77, 2, 2, 0, 0, 0}));
      s.Put(Obu(3, {90, 2}));
      s.PutUnit();
      s.Put(Obu(24, SymBytes(2, "metadata")));
      break;
    case 4:  // Units without anything.
      s.Put(Delimiter()); s.Put(Delimiter());
      s.PutUnit();
      s.Put(Delimiter()); s.Put(vh::Frame(7, SymBytes(1, "unknown"))); s.Put(Delimiter());
      s.PutUnit();
      s.Put(Delimiter());
      s.PutUnit();
      break;
    case 5:  // Another sequence.
      s.PutUnit(); s.PutUnit();
      s.stopped = true;
      s.Put(SequenceHeader());
      s.PutUnit();
      break;
    default:  // Trimmed frames.
      s.PutUnit(false, 0, 2);
      s.PutUnit(false, 0, 1);
      s.PutUnit(false, 1, 0);
  }
  return s;
}
void CutUnits(int shape, int cuts) {
  const Bytes d = Descriptors(0);
  Stream s = Units(shape);
  const int n = (int)s.bytes.size();
  int cut[3] = {0, 0, n};
  if (cuts > 1) cut[0] = (int)sym_choose("cut", (unsigned)n + 1);
  cut[1] = cut[0] + (int)sym_choose("cut", (unsigned)(n - cut[0] + 1));
  auto rb = StreamBasedReadBitBuffer::Create(1024);
  Bytes head = d;
  if (!s.bytes.empty()) head.insert(head.end(), s.bytes.begin(), s.bytes.begin() + cut[0]);
  sym_assert(rb->PushBytes(absl::MakeConstSpan(d)).ok(), "push");
  bool insufficient = false;
  auto p = ObuProcessor::Create(true, rb.get(), insufficient);
  sym_assert(p != nullptr && !insufficient, "descriptors");
  if (!p) return;
  size_t got = 0;
  for (int i = 0; i < 3; i++) {
    const int from = i ? cut[i - 1] : 0;
    sym_assert(rb->PushBytes(absl::MakeConstSpan(s.bytes.data() + from, cut[i] - from)).ok(), "push");
    const bool last = i == 2;
    bool more = true;
    int calls = 0;
    while (more) {
      std::optional<ObuProcessor::OutputTemporalUnit> u;
      const int64_t before = rb->Tell();
      const bool ok = p->ProcessTemporalUnit(last, u, more).ok();
      sym_assert(ok, "no error");
      if (!ok) return;
      sym_assert(!more || rb->Tell() > before, "progress");
      if (++calls > 20) { sym_fail("processing ends"); return; }
      if (!u) continue;
      sym_assert(got < s.units.size(), "no more units than in the stream");
      if (got >= s.units.size()) return;
      const Unit& want = s.units[got++];
      sym_assert(u->output_timestamp == want.time, "the unit's time");
      sym_assert((int)u->output_parameter_blocks.size() == want.blocks && u->output_audio_frames.size() == 1, "the unit's contents");
      if (u->output_audio_frames.size() == 1) sym_assert(SameBytes(u->output_audio_frames.front().obu.audio_frame_, want.samples), "the frame's samples");
      for (auto& b : u->output_parameter_blocks) sym_assert((b.start_timestamp == want.time) & (b.end_timestamp == want.time + kFrame), "the block's time");
    }
    // Everything complete is consumed, nothing else.
    size_t done = 0;
    for (size_t e : s.ends) if (e <= (size_t)cut[i] && e <= s.stop) done = e;
    sym_assert(rb->Tell() == 8 * (int64_t)(d.size() + done), "an incomplete OBU is left unconsumed");
  }
  sym_assert(got == s.units.size(), "all units come out");
  sym_reach("units");
}
// What comes out of a stream given in pieces.
struct Trace {
  struct Event { int kind; int64_t time; Bytes samples; int blocks; };
  std::vector<Event> events;
  int64_t end = 0;
  bool endless = false;
};
Trace Run(const Bytes& descriptors, const Bytes& units, const std::vector<int>& ends) {
  Trace t;
  auto rb = StreamBasedReadBitBuffer::Create(1024);
  sym_assert(rb->PushBytes(absl::MakeConstSpan(descriptors)).ok(), "push");
  bool insufficient = false;
  auto p = ObuProcessor::Create(true, rb.get(), insufficient);
  sym_assert(p != nullptr, "descriptors");
  if (!p) sym_stop();
  int from = 0;
  for (size_t i = 0; i < ends.size(); i++) {
    sym_assert(rb->PushBytes(absl::MakeConstSpan(units.data() + from, ends[i] - from)).ok(), "push");
    from = ends[i];
    bool more = true;
    for (int calls = 0; more; calls++) {
      if (calls > 30) { t.endless = true; return t; }
      std::optional<ObuProcessor::OutputTemporalUnit> u;
      if (!p->ProcessTemporalUnit(i + 1 == ends.size(), u, more).ok()) { t.events.push_back({1, 0, {}, 0}); return t; }  // What follows is not specified.
      if (!u) continue;
      t.events.push_back({0, u->output_timestamp, {}, (int)u->output_parameter_blocks.size()});
      for (auto& f : u->output_audio_frames) t.events.push_back({2, (int64_t)f.obu.GetSubstreamId(), f.obu.audio_frame_, 0});
    }
  }
  t.end = rb->Tell();
  return t;
}
// Any OBU of a few bytes between the units: the pieces do not matter.
void CutAnything(int group) {
  const Bytes d = Descriptors(0);
  Stream s;
  s.concrete = true;  // What is wrongly sized may be read further.
  s.PutUnit();
  const size_t at = s.bytes.size();
  const int size = group / 4, type = group % 4 * 8 + (int)sym_choose("type", 8);
  s.bytes.push_back((uint8_t)(type << 3 | (size == 0 ? (int)sym_choose("flags", 8) : 2 * (int)sym_choose("flags", 4))));
  s.bytes.push_back((uint8_t)size);
  if (size && (type == 3 || type == 5)) {  // An id: known, unknown or cut short.
    static const uint8_t kIds[] = {1, 7, 90, 0x81};
    s.bytes.push_back(kIds[sym_choose("id", 4)]);
    Add(s.bytes, SymBytes(size - 1, "payload"));
  } else {
    Add(s.bytes, SymBytes(size, "payload"));
  }
  s.PutUnit();
  s.PutUnit();
  const int n = (int)s.bytes.size();
  const int first = (int)at - 1, span = size + 4;
  const int cut = first + (int)sym_choose("cut", (unsigned)span + 1);
  const Trace whole = Run(d, s.bytes, {n}), pieces = Run(d, s.bytes, {cut, n});
  sym_assert(!whole.endless && !pieces.endless, "processing ends");
  sym_assert(whole.end == pieces.end, "the same is consumed");
  sym_assert(whole.events.size() == pieces.events.size(), "the same comes out");
  if (whole.events.size() != pieces.events.size()) return;
  for (size_t i = 0; i < whole.events.size(); i++) {
    const auto &a = whole.events[i], &b = pieces.events[i];
    sym_assert((a.kind == b.kind) & (a.time == b.time) & (a.blocks == b.blocks) & (a.samples.size() == b.samples.size()), "the same comes out");
    if (a.samples.size() == b.samples.size()) sym_assert(SameBytes(a.samples, b.samples), "the same samples come out");
  }
  sym_reach("anything");
}
}  // namespace
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 6) { CutDescriptors(c % 3, c / 3); return; }
  c -= 6;
  if (c < 7) { CutUnits(c, CUTS); return; }
  CutAnything(c - 7);
}
