// Stand-in for the third-party binaural renderer's kinds of input.
#ifndef VERIF_OBR_AUDIO_ELEMENT_TYPE_H_
#define VERIF_OBR_AUDIO_ELEMENT_TYPE_H_
namespace obr {
enum class AudioElementType {
  kInvalidType = 0, k1OA, k2OA, k3OA, k4OA, k5OA, k6OA, k7OA, kObjectMono, kLayoutMono, kLayoutStereo, kLayout3_1_2_ch, kLayout5_1_0_ch, kLayout5_1_2_ch, kLayout5_1_4_ch,
  kLayout7_1_0_ch, kLayout7_1_2_ch, kLayout7_1_4_ch, kLayout9_1_0_ch, kLayout9_1_2_ch, kLayout9_1_4_ch, kLayout9_1_6_ch,
};
}  // namespace obr
#endif
