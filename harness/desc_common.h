// Builders for descriptor OBUs.
#ifndef VERIF_DESC_COMMON_H_
#define VERIF_DESC_COMMON_H_
#include "obu_common.h"
#include "iamf/cli/audio_element_with_data.h"
#include "iamf/cli/audio_frame_with_data.h"
#include "iamf/cli/descriptor_obus.h"
#include "iamf/cli/parameter_block_with_data.h"
#include "iamf/obu/audio_element.h"
#include "iamf/obu/audio_frame.h"
#include "iamf/obu/codec_config.h"
#include "iamf/obu/param_definitions/mix_gain_param_definition.h"
#include "iamf/obu/param_definitions/param_definition_variant.h"
#include "iamf/obu/parameter_block.h"
namespace vh {
using Ids = std::vector<DecodedUleb128>;
inline absl::StatusOr<CodecConfigObu> Lpcm(uint32_t id, uint32_t frame, uint32_t rate = 48000, uint8_t size = 16) {
  LpcmDecoderConfig d;
  d.sample_format_flags_bitmask_ = LpcmDecoderConfig::kLpcmLittleEndian;
  d.sample_size_ = size;
  d.sample_rate_ = rate;
  return CodecConfigObu::Create(Hdr(kObuIaCodecConfig), id, CodecConfig{.codec_id = CodecConfig::kCodecIdLpcm, .num_samples_per_frame = frame, .audio_roll_distance = 0, .decoder_config = d});
}
inline AudioElementWithData ExtElement(uint32_t id, const Ids& substreams, const CodecConfigObu* codec) {
  auto obu = AudioElementObu::CreateForExtension(Hdr(kObuIaAudioElement), id, AudioElementObu::kAudioElementBeginReserved, 0, 0, absl::MakeConstSpan(substreams), {});
  return AudioElementWithData{*obu, codec, {}, {}, {}};
}
inline ParamDefinition::BaseArgs ParamArgs(uint32_t id, uint32_t rate, uint32_t duration) {
  ParamDefinition::BaseArgs a{id, rate, 0, {}};
  if (duration) a.schedule = *SubblockSchedule::CreateWithConstantSubblockDuration(duration, duration);
  return a;
}
}  // namespace vh
#endif
