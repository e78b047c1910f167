// Formation of temporal units from any collection of frames, blocks and
// arbitrary OBUs.
#include "desc_common.h"
#include "iamf/cli/temporal_unit_view.h"
#include "iamf/obu/arbitrary_obu.h"
using namespace vh;
extern "C" void harness_main() {
  int c = sym_case();
  const int nf = c % 4, nb = c / 4 % 3, na = c / 12;
  const uint32_t frame_size = sym_u32("frame_size");
  sym_assume((frame_size >= 1) & (frame_size <= 96000));
  auto codec = Lpcm(3, frame_size);
  sym_assert(codec.ok(), "codec config");
  if (!codec.ok()) return;
  std::vector<AudioElementWithData> elements;
  const uint32_t ids[2] = {sym_u32("element"), sym_u32("element")};
  for (uint32_t id : ids) elements.push_back(ExtElement(id, {1}, &*codec));
  // Frames.  An element or codec config may be missing.
  std::vector<AudioFrameWithData> frames;
  std::vector<int> element_of;
  AudioElementWithData no_codec = ExtElement(5, {1}, nullptr);
  for (int i = 0; i < nf; i++) {
    ObuHeader h = Hdr(kObuIaAudioFrame);
    h.num_samples_to_trim_at_start = sym_u32("trim_start");
    h.num_samples_to_trim_at_end = sym_u32("trim_end");
    const uint32_t id = sym_u32("substream");
    const int kind = (int)sym_choose("element_of", i == 0 ? 4 : 2);
    element_of.push_back(kind);
    const Bytes payload{1, 2};
    frames.push_back(AudioFrameWithData{.obu = AudioFrameObu(h, id, absl::MakeConstSpan(payload)), .start_timestamp = sym_i64("start"), .end_timestamp = sym_i64("end"),
                      .audio_element_with_data = kind < 2 ? &elements[kind] : kind == 2 ? &no_codec : nullptr});
  }
  std::vector<ParameterBlockWithData> blocks;
  for (int i = 0; i < nb; i++) {
    MixGainParamDefinition d(ParamArgs(sym_u32("parameter"), 1, 8));
    blocks.push_back(ParameterBlockWithData{.obu = ParameterBlockObu::CreateMode0(Hdr(kObuIaParameterBlock), d), .start_timestamp = sym_i64("start"), .end_timestamp = sym_i64("end")});
    sym_assert(blocks.back().obu != nullptr, "block");
    if (!blocks.back().obu) return;
  }
  std::vector<ArbitraryObu> arbitrary;
  for (int i = 0; i < na; i++) {
    std::optional<InternalTimestamp> tick;
    if (sym_choose("has_tick", 2)) tick = sym_i64("tick");
    arbitrary.emplace_back(kObuIaReserved25, Hdr(kObuIaReserved25), absl::Span<const uint8_t>(), ArbitraryObu::kInsertionHookAfterAudioFramesAtTick, tick, (bool)sym_choose("invalidates", 2));
  }
  auto v = TemporalUnitView::Create(blocks, frames, arbitrary);
  // The oracle.
  bool valid = nf + na > 0;
  int64_t start = 0, end = 0;
  uint64_t trims = 0;
  if (nf) {
    start = frames[0].start_timestamp;
    end = frames[0].end_timestamp;
    const auto& h = frames[0].obu.header_;
    trims = (uint64_t)h.num_samples_to_trim_at_start + h.num_samples_to_trim_at_end;
    valid = valid & (trims <= frame_size);
    for (int i = 0; i < nf; i++) {
      const auto& f = frames[i];
      valid = valid & (element_of[i] < 2) & (f.start_timestamp == start) & (f.end_timestamp == end) & (f.obu.header_.num_samples_to_trim_at_start == h.num_samples_to_trim_at_start) &
              (f.obu.header_.num_samples_to_trim_at_end == h.num_samples_to_trim_at_end);
      for (int j = 0; j < i; j++) valid = valid & (frames[j].obu.GetSubstreamId() != f.obu.GetSubstreamId());
    }
  } else if (na) {
    valid = valid && arbitrary[0].insertion_tick_.has_value();
    if (arbitrary[0].insertion_tick_.has_value()) start = end = *arbitrary[0].insertion_tick_;
  }
  for (int i = 0; i < nb; i++) {
    valid = valid & (blocks[i].start_timestamp == start) & (blocks[i].end_timestamp == end);
    for (int j = 0; j < i; j++) valid = valid & (blocks[j].obu->parameter_id_ != blocks[i].obu->parameter_id_);
  }
  bool invalidating = false;
  for (auto& a : arbitrary) {
    valid = valid && a.insertion_tick_.has_value();
    if (a.insertion_tick_.has_value()) valid = valid & (*a.insertion_tick_ == start);
    invalidating = invalidating || a.invalidates_bitstream_;
  }
  if (!nf) valid = valid & invalidating;
  sym_assert(v.ok() == valid, "a unit is formed exactly from consistent contents");
  if (!v.ok() || !valid) { sym_reach("refused"); return; }
  sym_assert((v->start_timestamp_ == start) & (v->end_timestamp_ == end), "interval");
  if (nf) {
    sym_assert(v->num_samples_to_trim_at_start_ == frames[0].obu.header_.num_samples_to_trim_at_start, "trim at start");
    sym_assert(v->num_untrimmed_samples_ == frame_size - trims, "untrimmed duration is the frame's minus the trims");
    sym_reach("frames");
  } else {
    sym_assert(v->num_untrimmed_samples_ == 0 && v->num_samples_to_trim_at_start_ == 0, "nothing to play");
    sym_reach("arbitrary");
  }
  // Every input exactly once, sorted.
  bool sizes = (int)v->audio_frames_.size() == nf && (int)v->parameter_blocks_.size() == nb && (int)v->arbitrary_obus_.size() == na;
  sym_assert(sizes, "nothing is lost or added");
  if (!sizes) return;
  for (auto& f : frames) {
    int times = 0;
    for (auto* p : v->audio_frames_) times += p == &f;
    sym_assert(times == 1, "each frame once");
  }
  for (auto& b : blocks) {
    int times = 0;
    for (auto* p : v->parameter_blocks_) times += p == &b;
    sym_assert(times == 1, "each block once");
  }
  for (int i = 0; i < na; i++) sym_assert(v->arbitrary_obus_[i] == &arbitrary[i], "arbitrary OBUs keep their order");
  bool sorted = true;
  for (int i = 1; i < nf; i++) {
    const auto *a = v->audio_frames_[i - 1], *b = v->audio_frames_[i];
    const uint32_t ea = a->audio_element_with_data->obu.GetAudioElementId(), eb = b->audio_element_with_data->obu.GetAudioElementId();
    sorted = sorted & ((ea < eb) | ((ea == eb) & (a->obu.GetSubstreamId() < b->obu.GetSubstreamId())));
  }
  sym_assert(sorted, "frames are sorted by audio element and substream");
  if (nb == 2) { sym_assert(v->parameter_blocks_[0]->obu->parameter_id_ < v->parameter_blocks_[1]->obu->parameter_id_, "blocks are sorted by id"); sym_reach("blocks"); }
}
