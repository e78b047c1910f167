// Payload framing and rewriting of the simple OBUs, for arbitrary bytes.
#include "obu_roundtrip.h"
#include "iamf/obu/arbitrary_obu.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/ia_sequence_header.h"
#include "iamf/obu/metadata_obu.h"
#include "iamf/obu/temporal_delimiter.h"
using namespace vh;
extern "C" void harness_main() {
  const int c = sym_case();
  const int kind = c % 5, n = c / 5;
  Bytes p = SymBytes(n, "payload");
  const bool canonical = NoPaddedLeb(p, n);
  if (kind == 0) {
    auto r = RoundTrip(Hdr(kObuIaSequenceHeader), p, true, [](auto& h, int64_t s, auto& rb) { return IASequenceHeaderObu::CreateFromBuffer(h, s, rb); });
    if (r.ok) sym_reach("sequence_header");
  } else if (kind == 1) {
    auto r = RoundTrip(Hdr(kObuIaTemporalDelimiter), p, true, [](auto& h, int64_t s, auto& rb) { return TemporalDelimiterObu::CreateFromBuffer(h, s, rb); });
    if (r.ok) sym_reach("delimiter");
  } else if (kind == 2) {
    auto r = RoundTrip(Hdr(kObuIaAudioFrame), p, canonical, [](auto& h, int64_t s, auto& rb) { return AudioFrameObu::CreateFromBuffer(h, s, rb); });
    if (r.ok) sym_reach("audio_frame");
  } else if (kind == 3) {
    auto r = RoundTrip(Hdr((ObuType)(kObuIaAudioFrameId0 + sym_choose("id", 18))), p, true, [](auto& h, int64_t s, auto& rb) { return AudioFrameObu::CreateFromBuffer(h, s, rb); });
    if (r.ok) sym_reach("implicit_audio_frame");
  } else {
    auto r = RoundTrip(Hdr(kObuIaMetadata), p, canonical, [](auto& h, int64_t s, auto& rb) { return MetadataObu::CreateFromBuffer(h, s, rb); });
    if (r.ok) sym_reach("metadata");
  }
}
