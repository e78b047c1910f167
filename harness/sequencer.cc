// The OBU sequencer: histories of calls with any of the output's operations
// failing, and the order of what one call writes.
#include <list>
#include "desc_common.h"
#include "iamf/cli/obu_sequencer_base.h"
#include "iamf/cli/obu_sequencer_streaming_iamf.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_presentation.h"
using namespace vh;
namespace {
constexpr uint32_t kFrame = 8;
Bytes Written(const ObuBase& o) {
  WriteBitBuffer wb(16);
  sym_assert(o.ValidateAndWriteObu(wb).ok(), "a valid OBU is written");
  return wb.bit_buffer();
}
void Append(Bytes& to, const Bytes& b) { to.insert(to.end(), b.begin(), b.end()); }
ArbitraryObu Mark(ArbitraryObu::InsertionHook hook, uint8_t byte, std::optional<int64_t> tick = std::nullopt, bool invalid = false) {
  const uint8_t p[] = {byte};
  return ArbitraryObu(kObuIaReserved25, Hdr(kObuIaReserved25), absl::MakeConstSpan(p), hook, tick, invalid);
}
// A temporal delimiter of a key frame.
ArbitraryObu Key(int64_t tick) { return ArbitraryObu(kObuIaTemporalDelimiter, Hdr(kObuIaTemporalDelimiter), {}, ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, tick); }
struct Event {
  char what;  // D(escriptors) T(emporal unit) F(inalized) C(lose) A(bort)
  bool failed;
  Bytes bytes;
  int64_t time = 0;
  int64_t samples = 0;
  bool has_first = false;
  int64_t first = 0;
  bool key = false;
  uint32_t spf = 0, rate = 0;
  int depth = 0, channels = 0;
};
class Recorder : public ObuSequencerBase {
 public:
  Recorder(bool delimiters, bool delay, int faults) : ObuSequencerBase(*LebGenerator::Create(), delimiters, delay), faults_(faults) {}
  ~Recorder() override {}
  std::vector<Event> log;

 private:
  absl::Status Done(Event e) {
    if (faults_ > 0 && sym_choose("fails", 2)) {
      faults_--;
      e.failed = true;
    }
    log.push_back(e);
    return e.failed ? absl::UnknownError("output") : absl::OkStatus();
  }
  absl::Status PushSerializedDescriptorObus(uint32_t spf, uint32_t rate, uint8_t depth, std::optional<InternalTimestamp> first, int channels, absl::Span<const uint8_t> b) override {
    Event e{'D', false, Bytes(b.begin(), b.end())};
    e.has_first = first.has_value();
    e.first = first.value_or(0);
    e.spf = spf;
    e.rate = rate;
    e.depth = depth;
    e.channels = channels;
    return Done(e);
  }
  absl::Status PushSerializedTemporalUnit(InternalTimestamp t, int n, bool key, absl::Span<const uint8_t> b) override {
    Event e{'T', false, Bytes(b.begin(), b.end())};
    e.time = t;
    e.samples = n;
    e.key = key;
    return Done(e);
  }
  absl::Status PushFinalizedDescriptorObus(absl::Span<const uint8_t> b) override { return Done({'F', false, Bytes(b.begin(), b.end())}); }
  void CloseDerived() override { log.push_back({'C'}); }
  void AbortDerived() override { log.push_back({'A'}); }
  int faults_;
};
struct Descriptors {
  IASequenceHeaderObu header;
  std::list<MetadataObu> metadata;
  DescriptorObus::CodecConfigsById codecs;
  DescriptorObus::AudioElementsById elements;
  DescriptorObus::MixPresentationObus mixes;
  std::list<ArbitraryObu> arbitrary;
};
enum Kind { kSame, kChanged, kResized, kOtherRate, kBroken };
Descriptors Make(Kind k) {
  ObuHeader h = Hdr(kObuIaSequenceHeader);
  if (k == kResized) h.extension_header_bytes = Bytes{1, 2};
  Descriptors d{.header = IASequenceHeaderObu(h, ProfileVersion::kIamfSimpleProfile, k == kChanged ? ProfileVersion::kIamfBaseProfile : ProfileVersion::kIamfSimpleProfile)};
  auto c = Lpcm(1, kFrame, k == kOtherRate ? 44100 : 48000);
  d.codecs.insert({1, *c});
  if (k == kBroken) d.arbitrary.push_back(Mark(ArbitraryObu::kInsertionHookAfterCodecConfigs, 9, std::nullopt, true));
  return d;
}
Bytes Serialized(const Descriptors& d) {
  Bytes b = Written(d.header);
  Append(b, Written(d.codecs.at(1)));
  return b;
}
absl::Status Push(ObuSequencerBase& s, const Descriptors& d) { return s.PushDescriptorObus(d.header, d.metadata, d.codecs, d.elements, d.mixes, d.arbitrary); }
absl::Status Update(ObuSequencerBase& s, const Descriptors& d) { return s.UpdateDescriptorObusAndClose(d.header, d.metadata, d.codecs, d.elements, d.mixes, d.arbitrary); }
// A unit of one frame.
struct Unit {
  std::vector<ParameterBlockWithData> blocks;
  std::vector<AudioFrameWithData> frames;
  std::vector<ArbitraryObu> arbitrary;
  int64_t start;
  uint32_t trim_start, trim_end;
  bool key = false;
  Bytes bytes;
};
void History(int c) {
  const bool delay = c & 1;
  const int first_op = c / 2;
  // What the caller may do at each step.
  enum { kPush, kPushBroken, kUnit, kBrokenUnit, kUpdate, kUpdateChanged, kUpdateResized, kUpdateOther, kUpdateBroken, kClose, kAbort, kOps };
  const Descriptors same = Make(kSame), changed = Make(kChanged), resized = Make(kResized), other = Make(kOtherRate), broken = Make(kBroken);
  const Bytes same_bytes = Serialized(same), changed_bytes = Serialized(changed);
  auto codec = Lpcm(1, kFrame);
  AudioElementWithData element = ExtElement(1, {1}, &*codec);
  Recorder s(false, delay, FAULTS);
  // The model.
  enum { kNew, kPending, kWriting, kOver } state = kNew;
  bool found = false;   // The first sample that is not trimmed.
  std::list<Unit> units;  // Accepted.
  unsigned keys = 0;      // Every second unit is a key frame.
  for (int step = 0; step < OPS; step++) {
    const int op = step == 0 ? first_op : step == OPS - 1 || state == kOver ? (int)sym_choose("op", kOps) : (int)sym_choose("op", kOps - 1);
    const size_t before = s.log.size();
    absl::Status st = absl::OkStatus();
    bool accepted = true;        // The caller's side allows it.
    int64_t max_first = 0;
    Unit* u = nullptr;
    if (op == kPush || op == kPushBroken) {
      st = Push(s, op == kPush ? same : broken);
      accepted = state == kNew && op == kPush;
    } else if (op == kUnit || op == kBrokenUnit) {
      units.emplace_back();
      u = &units.back();
      u->start = sym_i32("start");
      u->trim_start = sym_u32("trim_start");
      u->trim_end = sym_u32("trim_end");
      sym_assume((u->trim_start <= kFrame) & (u->trim_end <= kFrame));
      sym_assume(u->trim_start + u->trim_end <= kFrame);
      ObuHeader h = Hdr(kObuIaAudioFrame);
      h.num_samples_to_trim_at_start = u->trim_start;
      h.num_samples_to_trim_at_end = u->trim_end;
      const Bytes payload = SymBytes(1, "payload");
      u->frames.push_back(AudioFrameWithData{.obu = AudioFrameObu(h, 1, absl::MakeConstSpan(payload)), .start_timestamp = u->start, .end_timestamp = u->start + kFrame, .audio_element_with_data = &element});
      if (units.size() == 1) keys = delay ? sym_choose("keys", 2) : 1;
      u->key = op == kUnit && (units.size() + keys) % 2 == 0;
      if (u->key) u->arbitrary.push_back(Key(u->start));
      if (op == kBrokenUnit) u->arbitrary.push_back(Mark(ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, 1, u->start, true));
      auto v = TemporalUnitView::Create(u->blocks, u->frames, u->arbitrary);
      sym_assert(v.ok(), "unit");
      if (!v.ok()) return;
      st = s.PushTemporalUnit(*v);
      const bool late_trim = found && u->trim_start > 0;
      accepted = (state == kPending || state == kWriting) && op == kUnit && !late_trim;
      if (op == kUnit) {
        u->bytes = Written(u->frames[0].obu);
        for (auto& a : u->arbitrary) Append(u->bytes, Written(a));
      }
    } else if (op == kClose) {
      st = s.Close();
      accepted = state != kOver;
    } else if (op == kAbort) {
      s.Abort();
    } else {
      const Descriptors& d = op == kUpdate ? same : op == kUpdateChanged ? changed : op == kUpdateResized ? resized : op == kUpdateOther ? other : broken;
      st = Update(s, d);
      accepted = (state == kPending || state == kWriting) && (op == kUpdate || op == kUpdateChanged);
    }
    // What reached the output in this step.
    std::vector<Event> now(s.log.begin() + before, s.log.end());
    bool fault = false, aborted = false, closed = false;
    for (auto& e : now) {
      fault = fault || e.failed;
      aborted = aborted || e.what == 'A';
      closed = closed || e.what == 'C';
    }
    sym_assert(st.ok() == (accepted && !fault), "a call succeeds exactly when it is in order and the output took everything");
    if (st.ok() != (accepted && !fault)) return;
    const bool may_abort = op != kClose;
    if (op == kAbort || (!st.ok() && may_abort)) sym_assert(aborted, "a failure aborts the output");
    else sym_assert(!aborted, "only a failure aborts the output");
    if (op == kAbort || (!st.ok() && may_abort)) {
      bool data = false;
      for (auto& e : now) data = data || (state == kOver && e.what != 'A');
      sym_assert(!data, "nothing is written after the end");
      sym_reach(state == kOver ? "refused_over" : fault ? "fault" : "aborted");
      state = kOver;
      continue;
    }
    if (!st.ok()) {
      sym_assert(!closed, "a failed close does not close");
      sym_reach(state == kOver ? "closed_twice" : "close_failed");
      continue;
    }
    // Accepted: exactly the right data.
    std::vector<Event> want;
    bool finals = true;
    if (op == kPush) {
      state = kPending;
      if (!delay) { want.push_back({'D', false, same_bytes}); state = kWriting; }
    } else if (op == kUnit) {
      const uint32_t left = kFrame - u->trim_start - u->trim_end;
      const bool has_samples = left != 0;
      if (state == kPending && !has_samples) {
        sym_reach("delayed");
      } else if (state == kPending) {
        Event d{'D', false, same_bytes};
        d.has_first = true;
        d.first = u->start + u->trim_start;
        want.push_back(d);
        for (auto& x : units) {
          Event e{'T', false, x.bytes};
          e.time = x.start;
          e.samples = kFrame - x.trim_start - x.trim_end;
          e.key = x.key;
          want.push_back(e);
        }
        state = kWriting;
        sym_reach("first");
      } else {
        Event e{'T', false, u->bytes};
        e.time = u->start;
        e.samples = left;
        e.key = u->key;
        if (u->key) sym_reach("key");
        want.push_back(e);
        sym_reach("unit");
      }
      found = found || has_samples;
    } else {  // One of the closing calls.
      if (state == kPending) {
        // The descriptors were never written: the last ones given are.
        Event d{'D', false, op == kUpdateChanged ? changed_bytes : same_bytes};
        d.has_first = true;
        want.push_back(d);
        sym_reach("trivial");
      } else if (state == kWriting && op == kUpdateChanged) {
        want.push_back({'F', false, changed_bytes});
        sym_reach("finalized");
      }
      want.push_back({'C'});
      state = kOver;
      sym_reach("closed");
    }
    bool same_events = now.size() == want.size();
    sym_assert(same_events, "the output gets exactly what is due");
    if (!same_events) return;
    bool match = true;
    for (size_t i = 0; i < now.size(); i++) {
      const Event &a = now[i], &b = want[i];
      const bool kinds = a.what == b.what;
      sym_assert(kinds, "in the mandated order");
      if (!kinds) return;
      sym_assert(SameBytes(a.bytes, b.bytes), "the bytes of the OBUs themselves");
      match = match & (a.time == b.time) & (a.samples == b.samples) & (a.has_first == b.has_first) & (a.first == b.first) & (a.key == b.key);
      if (a.what == 'D') match = match & (a.spf == kFrame) & (a.rate == 48000) & (a.depth == 16);
    }
    sym_assert(match, "with their time, number of samples and statistics");
    (void)finals;
    (void)max_first;
  }
}
AudioElementObu Mono(uint32_t id) {
  const Ids ids{1};
  const uint8_t mapping[] = {0};
  return *AudioElementObu::CreateForAmbisonics(Hdr(kObuIaAudioElement), id, 0, 1, absl::MakeConstSpan(ids), AmbisonicsConfig{*AmbisonicsMonoConfig::Create(1, absl::MakeConstSpan(mapping))});
}
MixPresentationObu Mix(uint32_t id, uint32_t element) {
  SubMixAudioElement e;
  e.audio_element_id = element;
  e.element_mix_gain = MixGainParamDefinition(ParamArgs(100, 1, 8));
  MixPresentationSubMix m;
  m.audio_elements.push_back(e);
  m.output_mix_gain = MixGainParamDefinition(ParamArgs(100, 1, 8));
  m.layouts.push_back(MixPresentationLayout{.loudness_layout = {.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention, .specific_layout = LoudspeakersSsConventionLayout{.sound_system = LoudspeakersSsConventionLayout::kSoundSystemA_0_2_0}}, .loudness = {}});
  std::vector<MixPresentationSubMix> mixes{m};
  return MixPresentationObu(Hdr(kObuIaMixPresentation), id, 0, {}, {}, mixes);
}
// The order of descriptors, whatever their ids.
void DescriptorOrder(int c) {
  static const uint32_t ids[][3] = {{1, 2, 3}, {3, 2, 1}, {2, 3, 1}, {300, 5, 128}, {0xffffffff, 0, 0x80000000}};
  const uint32_t* id = ids[c % 5];
  const bool streaming = c / 5;
  Descriptors d{.header = IASequenceHeaderObu(Hdr(kObuIaSequenceHeader), ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfBaseProfile)};
  const uint8_t tag = sym_u8("payload");
  for (int i = 0; i < 2; i++) {
    const Bytes p{(uint8_t)(tag + i)};
    d.metadata.push_back(MetadataObu::Create(Hdr(kObuIaMetadata), MetadataITUTT35{.itu_t_t35_country_code = 1, .itu_t_t35_payload_bytes = p}));
  }
  const int nc = (int)sym_choose("codecs", 4), ne = nc ? (int)sym_choose("elements", 4) : 0, nm = ne ? (int)sym_choose("mixes", 3) : 0;
  // Any frame size and rate, as long as they agree.
  const uint32_t frame = 1 + sym_u8("frame"), rate = sym_choose("rate", 2) ? 96000 : 44100;
  const int odd = nc > 1 ? (int)sym_choose("odd", 4) : 0;  // One codec config disagrees on the size, rate or depth.
  for (int i = 0; i < nc; i++) {
    const bool last = i == nc - 1;
    auto x = Lpcm(id[i], frame + (odd == 1 && last), odd == 2 && last ? 48000 : rate, odd == 3 && last ? 24 : 16);
    sym_assert(x.ok(), "codec config");
    if (!x.ok()) return;
    d.codecs.insert({id[i], *x});
  }
  for (int i = 0; i < ne; i++) {
    AudioElementWithData e{Mono(id[i]), &d.codecs.at(id[0]), {}, {}, {}};
    e.substream_id_to_labels[1] = {ChannelLabel::kMono};
    d.elements.insert({id[i], e});
  }
  for (int i = 0; i < nm; i++) d.mixes.push_back(Mix(id[2 - i], id[0]));
  // Arbitrary OBUs at every point, out of order.
  using A = ArbitraryObu;
  static const A::InsertionHook hooks[] = {A::kInsertionHookAfterDescriptors, A::kInsertionHookAfterCodecConfigs, A::kInsertionHookBeforeDescriptors, A::kInsertionHookAfterMixPresentations, A::kInsertionHookAfterIaSequenceHeader, A::kInsertionHookAfterAudioElements};
  for (int n = 0; n < 2; n++)
    for (int i = 0; i < 6; i++) d.arbitrary.push_back(Mark(hooks[i], (uint8_t)(sym_u8("payload"))));
  // The oracle.
  Bytes want;
  auto marks = [&](A::InsertionHook h) {
    for (auto& a : d.arbitrary)
      if (a.insertion_hook_ == h) Append(want, Written(a));
  };
  std::vector<uint32_t> order(id, id + 3);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j + 1 < 3; j++)
      if (order[j] > order[j + 1]) std::swap(order[j], order[j + 1]);
  marks(A::kInsertionHookBeforeDescriptors);
  Append(want, Written(d.header));
  marks(A::kInsertionHookAfterIaSequenceHeader);
  for (auto& m : d.metadata) Append(want, Written(m));
  for (uint32_t i : order)
    for (int k = 0; k < nc; k++)
      if (id[k] == i) Append(want, Written(d.codecs.at(i)));
  marks(A::kInsertionHookAfterCodecConfigs);
  for (uint32_t i : order)
    for (int k = 0; k < ne; k++)
      if (id[k] == i) Append(want, Written(d.elements.at(i).obu));
  marks(A::kInsertionHookAfterAudioElements);
  for (auto& m : d.mixes) Append(want, Written(m));
  marks(A::kInsertionHookAfterMixPresentations);
  marks(A::kInsertionHookAfterDescriptors);
  const bool valid = odd != 1 && odd != 2;
  if (streaming) {
    ObuSequencerStreamingIamf s(false, *LebGenerator::Create());
    const bool ok = Push(s, d).ok();
    sym_assert(ok == valid, "codec configs have to agree on the frame size and the sample rate");
    auto got = s.GetSerializedDescriptorObus();
    sym_assert(SameBytes(Bytes(got.begin(), got.end()), ok ? want : Bytes()), "descriptors in the mandated order, or nothing after a failure");
    if (ok) s.Abort();
    sym_assert(s.GetSerializedDescriptorObus().empty(), "nothing is left after an abort");
    sym_reach("streaming");
    return;
  }
  Recorder s(false, false, 0);
  const bool ok = Push(s, d).ok();
  sym_assert(ok == valid, "codec configs have to agree on the frame size and the sample rate");
  if (!ok) { sym_assert(s.log.size() == 1 && s.log[0].what == 'A', "aborted without output"); sym_reach("disagree"); return; }
  sym_assert(s.log.size() == 1 && s.log[0].what == 'D', "written once");
  sym_assert(SameBytes(s.log[0].bytes, want), "descriptors in the mandated order, ids ascending");
  sym_assert((s.log[0].spf == (nc ? frame : 1024)) & (s.log[0].rate == (nc ? rate : 48000)) & (s.log[0].depth == 16), "statistics of the codec configs");
  sym_reach("ordered");
}
// The order of a temporal unit.
void UnitOrder(int c) {
  const bool delimiters = c & 1, streaming = c & 2;
  auto codec = Lpcm(1, kFrame);
  AudioElementWithData element = ExtElement(1, {1, 2}, &*codec);
  Unit u;
  u.start = sym_i32("start");
  const int nf = (int)sym_choose("frames", 2) + 1, nb = (int)sym_choose("blocks", 3);
  for (int i = nf; i > 0; i--) {
    const Bytes p = SymBytes(2, "payload");
    u.frames.push_back(AudioFrameWithData{.obu = AudioFrameObu(Hdr(kObuIaAudioFrame), (uint32_t)i, absl::MakeConstSpan(p)), .start_timestamp = u.start, .end_timestamp = u.start + kFrame, .audio_element_with_data = &element});
  }
  MixGainParamDefinition d1(ParamArgs(5, 1, 8)), d2(ParamArgs(3, 1, 8));
  for (int i = 0; i < nb; i++) {
    auto b = ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), i ? d2 : d1);
    sym_assert(b != nullptr, "block");
    if (!b) return;
    auto gain = std::make_unique<MixGainParameterData>(AnimationStepInt16{.start_point_value = sym_i16("gain")});
    b->subblocks_[0] = std::move(gain);
    u.blocks.push_back(ParameterBlockWithData{.obu = std::move(b), .start_timestamp = u.start, .end_timestamp = u.start + kFrame});
  }
  using A = ArbitraryObu;
  static const A::InsertionHook hooks[] = {A::kInsertionHookAfterAudioFramesAtTick, A::kInsertionHookBeforeParameterBlocksAtTick, A::kInsertionHookAfterParameterBlocksAtTick};
  for (int n = 0; n < 2; n++)
    for (auto h : hooks) u.arbitrary.push_back(Mark(h, sym_u8("payload"), u.start));
  auto v = TemporalUnitView::Create(u.blocks, u.frames, u.arbitrary);
  sym_assert(v.ok(), "unit");
  if (!v.ok()) return;
  Bytes want;
  auto marks = [&](A::InsertionHook h) {
    for (auto& a : u.arbitrary)
      if (a.insertion_hook_ == h) Append(want, Written(a));
  };
  if (delimiters) Append(want, {(uint8_t)(kObuIaTemporalDelimiter << 3), 0});
  marks(A::kInsertionHookBeforeParameterBlocksAtTick);
  for (int i = nb; i > 0; i--) Append(want, Written(*u.blocks[i - 1].obu));
  marks(A::kInsertionHookAfterParameterBlocksAtTick);
  for (int i = nf; i > 0; i--) Append(want, Written(u.frames[i - 1].obu));
  marks(A::kInsertionHookAfterAudioFramesAtTick);
  const Descriptors d = Make(kSame);
  if (streaming) {
    ObuSequencerStreamingIamf s(delimiters, *LebGenerator::Create());
    sym_assert(Push(s, d).ok(), "descriptors");
    sym_assert(s.PushTemporalUnit(*v).ok(), "accepted");
    auto got = s.GetPreviousSerializedTemporalUnit();
    sym_assert(SameBytes(Bytes(got.begin(), got.end()), want), "the previous unit is available");
    sym_assert(s.PushTemporalUnit(*v).ok(), "accepted");
    got = s.GetPreviousSerializedTemporalUnit();
    sym_assert(SameBytes(Bytes(got.begin(), got.end()), want), "only the previous unit is available");
    sym_assert(s.Close().ok() && s.GetPreviousSerializedTemporalUnit().empty(), "nothing after the end");
    got = s.GetSerializedDescriptorObus();
    sym_assert(SameBytes(Bytes(got.begin(), got.end()), Serialized(d)), "the descriptors stay available");
    sym_reach("streaming_unit");
    return;
  }
  Recorder s(delimiters, false, 0);
  sym_assert(Push(s, d).ok() && s.PushTemporalUnit(*v).ok(), "accepted");
  sym_assert(s.log.size() == 2 && s.log[1].what == 'T', "one unit");
  if (s.log.size() != 2) return;
  sym_assert(SameBytes(s.log[1].bytes, want), "the unit's OBUs in the mandated order");
  sym_assert((s.log[1].time == u.start) & (s.log[1].samples == kFrame), "time and duration");
  s.Abort();
  sym_reach("unit_order");
}
}  // namespace
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 10) { DescriptorOrder(c); return; }
  c -= 10;
  if (c < 4) { UnitOrder(c); return; }
  History(c - 4);
}
