// Stand-in for the interface of the third-party WAV reader (audio_to_tactile).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
struct ReadWavInfo {
  int num_channels;
  int sample_rate_hz;
  size_t remaining_samples;
  int bit_depth;
  int destination_alignment_bytes;
  enum Encoding { kPcm16Encoding, kPcm24Encoding, kPcm32Encoding, kMuLawEncoding, kIeeeFloat32Encoding, kIeeeFloat64Encoding } encoding;
  enum SampleFormat { kInt16, kInt32, kFloat } sample_format;
};
