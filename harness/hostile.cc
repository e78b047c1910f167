// Arbitrary bytes anywhere in otherwise valid data: every parser ends with an
// object or an error.  Memory errors, failed internal checks, uncaught
// exceptions, divisions by zero and oversized allocations are reported by the
// engine itself.
#include "stream_common.h"
#include "iamf/cli/descriptor_obu_parser.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/obu_processor.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/param_definitions/demixing_param_definition.h"
#include "iamf/obu/param_definitions/extended_param_definition.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/recon_gain_param_definition.h"
#include "iamf/obu/parameter_block.h"
using namespace vh;
using namespace iamf_tools;
namespace {
constexpr int kStep = 8;  // Positions per case.
struct Base {
  ObuType type;
  Bytes payload;
  int flags = 0;  // type-specific flag.
};
Bytes Cat(std::initializer_list<Bytes> l) {
  Bytes b;
  for (const auto& x : l) Add(b, x);
  return b;
}
Bytes Leb(uint32_t v) { Bytes b; PutUleb(b, v); return b; }
// A definition of constant subblocks, or one whose schedule is in the blocks.
Bytes Definition(int id, int duration, int constant) {
  return duration ? Cat({Leb(id), Leb(48000), {0}, Leb(duration), Leb(constant)}) : Cat({Leb(id), Leb(48000), {0x80}});
}
const Bytes kOpus = {3, 'O', 'p', 'u', 's', 0x40, 0xff, 0xc4, 1, 2, 1, 0x38, 0, 0, 0xbb, 0x80, 0, 0, 0};
Bytes Flac() {
  Bytes b = {3, 'f', 'L', 'a', 'C', 16, 0, 0, 0x00, 0, 0, 34, 0, 16, 0, 16, 0, 0, 0, 0, 0, 0};
  // 48 kHz, 2 channels, 16 bits, 64 samples.
  Add(b, {0x0b, 0xb8, 0x02, 0xf0, 0, 0, 0, 64});
  for (int i = 0; i < 16; i++) b.push_back(0);
  Add(b, {0x81, 0, 0, 2, 7, 7});
  return b;
}
Bytes Aac() {
  return {3, 'm', 'p', '4', 'a', 0x80, 0x08, 0xff, 0xff, 0x04, 17, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x05, 2, 0x11, 0x90};
}
Bytes Channels() {  // Mono, stereo, 5.1.2 with demixing and recon gain parameters.
  Bytes p = Cat({Leb(40), {0}, Leb(3), Leb(6), {1, 2, 3, 4, 5, 6}});
  Add(p, Cat({{2}, Leb(1), Definition(70, 64, 64), {0x00, 0x10}, Leb(2), Definition(71, 64, 64)}));
  Add(p, {3 << 5, 0x00, 1, 0, 0x1c, 1, 0, 0x04, 0x00, 0x10, 0x34, 4, 2});
  return p;
}
Bytes Mono() { return Cat({Leb(41), {1 << 5}, Leb(3), Leb(4), {11, 12, 13, 14}, {0}, {0, 4, 4, 0, 1, 2, 3}}); }
Bytes Projection() { return Cat({Leb(41), {1 << 5}, Leb(3), Leb(2), {11, 12}, {0}, {1, 4, 2, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}}); }
Bytes Objects() { return Cat({Leb(41), {2 << 5}, Leb(3), Leb(1), {11}, {1}, Leb(9), Leb(2), {1, 2}, {1, 1, 2}}); }
Bytes Extension() { return Cat({Leb(41), {3 << 5}, Leb(3), Leb(1), {11}, {0}, {3, 1, 2, 3}}); }
Bytes Mix(bool full) {
  Bytes p = Cat({Leb(9), {1}});
  Str(p, "en");
  Str(p, "a");
  Add(p, {1, 2});
  for (int e = 0; e < 2; e++) {
    Add(p, Leb(40 + e));
    Str(p, "b");
    if (full && !e) {  // A position and an offset.
      Bytes x = Cat({{1}, Leb(3), Definition(80, 64, 32), {10, 20, 30}, {0, 1, 2}});
      Add(p, {0x60, (uint8_t)x.size()});
      Add(p, x);
    } else if (full) {
      Add(p, {0x20, 9, 0, 1, 0, 1, 0, 1, 0, 1, 9});
    } else {
      Add(p, {0, 0});
    }
    Add(p, Cat({Definition(90 + e, full && e ? 64 : 0, 32), {0, 1}}));
  }
  Add(p, Cat({Definition(92, 0, 0), {1, 0}}));
  Add(p, {2, 2 << 6, 0, 1, 2, 3, 4});
  if (full) Add(p, {(uint8_t)(3 << 6), 7, 1, 2, 3, 4, 5, 6, 2, 1, 7, 8, 2, 9, 10, 2, 1, 2});
  else Add(p, {(uint8_t)(2 << 6 | 1 << 2), 0, 1, 2, 3, 4});
  if (full) {
    Add(p, {2});
    Str(p, "content_language"); Str(p, "eng"); Str(p, "x"); Str(p, "y");
    Add(p, {4, 1, 2, 3, 4});
  }
  return p;
}
// ---- Whole streams.
constexpr int kSamples = 2;
// Stereo over mono with demixing and recon gains, and a scene of one channel.
Bytes Descriptors() {
  Bytes b = SequenceHeader();
  Add(b, Obu(0, LpcmPayload(3, kSamples)));
  Bytes p = Cat({Leb(40), {0}, Leb(3), Leb(2), {1, 2}, {2, 1}, Definition(70, kSamples, kSamples), {0x00, 0x10, 2}, Definition(71, kSamples, kSamples)});
  Add(p, {2 << 5, 0x00, 1, 0, 0x1c, 1, 0, 0x04, 0x00, 0x10});
  Add(b, Obu(1, p));
  Add(b, Obu(1, Cat({Leb(41), {1 << 5}, Leb(3), Leb(1), {11}, {0}, {0, 1, 1, 0}})));
  Add(b, Obu(2, MixPayload(9, {40, 41}, 90, {0})));
  return b;
}
Bytes Units() {
  Bytes b;
  for (int i = 0; i < 2; i++) {
    Add(b, Delimiter());
    Add(b, Obu(3, {70, 0x20}));
    Add(b, Obu(3, {71, 0x05, 4, 5}));
    Add(b, Obu(3, {90, kSamples, 0, 2, 1, 0, 1, 2, 1, 1, 0, 3, 0, 4}));
    if (i) Add(b, vh::Frame(1, {1, 2, 3, 4}, 1, 0));
    else Add(b, vh::Frame(1, {1, 2, 3, 4}));
    if (i) Add(b, vh::Frame(2, {1, 2, 3, 4}, 1, 0));
    else Add(b, vh::Frame(2, {1, 2, 3, 4}));
    if (i) Add(b, vh::Frame(11, {1, 2, 3, 4}, 1, 0));
    else Add(b, vh::Frame(11, {1, 2, 3, 4}));
  }
  return b;
}
void Play(const Bytes& descriptors, const Bytes& units, bool valid) {
  auto rb = StreamBasedReadBitBuffer::Create(1024);
  sym_assert(rb->PushBytes(absl::MakeConstSpan(descriptors)).ok() && rb->PushBytes(absl::MakeConstSpan(units)).ok(), "push");
  bool insufficient = false;
  Layout layout;
  layout.layout_type = Layout::kLayoutTypeLoudspeakersSsConvention;
  layout.specific_layout = LoudspeakersSsConventionLayout{.sound_system = LoudspeakersSsConventionLayout::kSoundSystemA_0_2_0};
  auto p = ObuProcessor::CreateForRendering({ProfileVersion::kIamfSimpleProfile, ProfileVersion::kIamfBaseProfile, ProfileVersion::kIamfBaseEnhancedProfile}, std::nullopt, layout, false, rb.get(), {}, insufficient);
  if (valid) sym_assert(p != nullptr, "the data is valid to begin with");
  if (!p) { sym_reach("no_descriptors"); return; }
  (void)p->GetOutputSampleRate(); (void)p->GetOutputFrameSize(); (void)p->GetOutputMixPresentationId(); (void)p->GetOutputLayout();
  bool more = true;
  int played = 0;
  for (int calls = 0; more; calls++) {
    if (calls > 40) { sym_fail("processing ends"); return; }
    std::optional<ObuProcessor::OutputTemporalUnit> u;
    const int64_t before = rb->Tell();
    const bool ok = p->ProcessTemporalUnit(true, u, more).ok();
    if (!ok) { sym_reach("unit_rejected"); break; }
    sym_assert(!more || rb->Tell() > before, "progress");
    if (!u) continue;
    auto r = p->RenderTemporalUnitAndMeasureLoudness(u->output_timestamp, u->output_parameter_blocks, u->output_audio_frames);

    if (!r.ok()) { sym_reach("unrendered"); continue; }
    for (const auto& c : *r) sym_assert(c.size() <= kSamples, "no more samples than a frame has");
    played++;
    sym_reach("rendered");
  }
  if (valid) sym_assert(played == 2, "the data is valid to begin with");
}
Base Obu1(int i) {
  switch (i) {
    case 0: return {kObuIaSequenceHeader, {'i', 'a', 'm', 'f', 1, 2, 3}};
    case 1: return {kObuIaCodecConfig, LpcmPayload(3, 64)};
    case 2: return {kObuIaCodecConfig, kOpus};
    case 3: return {kObuIaCodecConfig, Flac()};
    case 4: return {kObuIaCodecConfig, Aac()};
    case 5: return {kObuIaAudioElement, Channels()};
    case 6: return {kObuIaAudioElement, Mono()};
    case 7: return {kObuIaAudioElement, Projection()};
    case 8: return {kObuIaAudioElement, Objects()};
    case 9: return {kObuIaAudioElement, Extension()};
    case 10: return {kObuIaMixPresentation, Mix(true), 1};
    case 11: return {kObuIaMetadata, {1, 0xff, 2, 3, 4, 5}};
    case 12: { Bytes b = {2, 2}; Str(b, "a"); Str(b, "b"); Str(b, ""); Str(b, "cd"); return {kObuIaMetadata, b}; }
    case 13: return {kObuIaAudioFrame, {0x81, 0x01, 2, 3}};
    case 14: return {kObuIaParameterBlock, {90, 0x40, 0x20, 0, 1, 2, 1, 3, 4, 5, 6}};             // Mix gain, constant subblocks.
    case 15: return {kObuIaParameterBlock, {90, 4, 0, 3, 1, 0, 1, 2, 1, 2, 1, 2, 3, 4, 5, 6, 7, 2, 0, 1, 2}};  // Listed subblocks.
    case 16: return {kObuIaParameterBlock, {90, 0x40}};                                            // Demixing.
    case 17: return {kObuIaParameterBlock, {90, 0x83, 0x01, 1, 2, 3, 0x05, 4, 5}};                 // Recon gain.
    default: return {kObuIaParameterBlock, {90, 2, 1, 2, 2, 1, 1, 3, 4, 5}};                       // An unknown kind.
  }
}
constexpr int kObus = 19;
void Parse(int i, const Base& base, const Bytes& b, bool valid) {
  auto rb = Reader(b);
  ObuHeader h = Hdr(base.type);
  h.type_specific_flag = base.flags;
  const int64_t n = (int64_t)b.size();
  bool ok = false;
  switch (base.type) {
    case kObuIaSequenceHeader: { auto o = IASequenceHeaderObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    case kObuIaCodecConfig: { auto o = CodecConfigObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    case kObuIaAudioElement: { auto o = AudioElementObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    case kObuIaMixPresentation: { auto o = MixPresentationObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    case kObuIaMetadata: { auto o = MetadataObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    case kObuIaAudioFrame: { auto o = AudioFrameObu::CreateFromBuffer(h, n, *rb); if ((ok = o.ok())) o->PrintObu(); break; }
    default: {
      ParamDefinition::BaseArgs a{.parameter_id = 90, .parameter_rate = 48000};
      if (i == 16 || i == 17) a.schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(64, 64);
      std::unique_ptr<ParamDefinition> d;
      if (i <= 15) d = std::make_unique<MixGainParamDefinition>(a);
      else if (i == 16) d = std::make_unique<DemixingParamDefinition>(a);
      else if (i == 17) {
        auto r = std::make_unique<ReconGainParamDefinition>(a, 40);
        for (bool f : {false, true, true}) r->aux_data_.push_back({f, {}});
        d = std::move(r);
      } else d = std::make_unique<ExtendedParamDefinition>((ParamDefinition::ParameterDefinitionType)9, a);
      auto o = ParameterBlockObu::CreateFromBuffer(h, n, *d, *rb);
      if ((ok = o.ok())) {
        (*o)->PrintObu();
        for (uint32_t k = 0; k < (*o)->GetNumSubblocks() && k < 4; k++) (void)(*o)->GetSubblockDuration(k);
      }
    }
  }
  if (valid) sym_assert(ok && rb->Tell() == 8 * n, "the data is valid to begin with");
  sym_assert(rb->Tell() <= 8 * n, "nothing is read past the end");
  sym_reach(ok ? "parsed" : "rejected");
}
}  // namespace
extern "C" void harness_main() {
  const int case_number = sym_case();
  int c = case_number;
  if (c == 0) {  // The data is valid to begin with.
    for (int i = 0; i < kObus; i++) {
      const Base b = Obu1(i);
      sym_observe((uint64_t)(b.payload.size() + kStep - 1) / kStep);
      Parse(i, b, b.payload, true);
    }
    const Bytes d = Descriptors(), u = Units();
    sym_observe(d.size());
    sym_observe(u.size());
    Play(d, u, true);
    return;
  }
  c--;
  for (int i = 0; i < kObus; i++) {
    const Base base = Obu1(i);
    const int n = (int)base.payload.size(), groups = (n + kStep - 1) / kStep;
    if (c >= groups) { c -= groups; continue; }
    // Some bytes replaced, and perhaps an early end.
    const int at = kStep * c + (int)sym_choose("at", (unsigned)(n - kStep * c < kStep ? n - kStep * c : kStep));
    Bytes b = base.payload;
    // Numbers of subblocks are iterated over; keep them below 128.
    const bool schedule = case_number == 20 || case_number == 21 || case_number == 37 || case_number == 41;
    const int window = schedule && WINDOW > 1 ? WINDOW - 1 : WINDOW, w = n - at < window ? n - at : window;
    const Bytes any = SymBytes(w, "any");
    for (int k = 0; k < w; k++) b[at + k] = any[k];
    if (sym_choose("cut", 2)) b.resize(at + w);
    Parse(i, base, b, false);
    return;
  }
  Bytes d = Descriptors(), u = Units();
  const bool in_units = (size_t)c * kStep >= d.size();
  Bytes& b = in_units ? u : d;
  int at = kStep * c - (in_units ? (int)(d.size() + kStep - 1) / kStep * kStep : 0);
  if (at >= (int)b.size()) return;
  at += (int)sym_choose("at", (unsigned)((int)b.size() - at < kStep ? (int)b.size() - at : kStep));
  Bytes any = SymBytes(STREAM_WINDOW, "any");
  // Sizes decide where everything which follows is; one value after the other.
  for (size_t start = 0; start < b.size(); start += 2 + b[start + 1])
    for (int k = 0; k < STREAM_WINDOW; k++)
      if ((int)start + 1 == at + k) any[k] = (uint8_t)sym_concretize(any[k]);
  for (int k = 0; k < STREAM_WINDOW && at + k < (int)b.size(); k++) b[at + k] = any[k];
  Play(d, u, false);
}
