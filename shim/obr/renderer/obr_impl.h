// Stand-in for the third-party binaural renderer.  Whoever includes it defines
// what it does with the samples.
#ifndef VERIF_OBR_OBR_IMPL_H_
#define VERIF_OBR_OBR_IMPL_H_
#include <cstddef>
#include "absl/status/status.h"
#include "obr/audio_buffer/audio_buffer.h"
#include "obr/renderer/audio_element_type.h"
namespace obr {
class ObrImpl {
 public:
  ObrImpl(int buffer_size_per_channel, int sampling_rate);
  absl::Status AddAudioElement(AudioElementType type);
  size_t GetNumberOfInputChannels() const;
  size_t GetNumberOfOutputChannels() const;
  void Process(const AudioBuffer& input, AudioBuffer* output);
};
}  // namespace obr
#endif
