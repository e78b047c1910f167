// Stand-in for the interface of the third-party WAV writer (audio_to_tactile).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
extern "C" {
int WriteWavHeader(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader24Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
int WriteWavHeader32Bit(FILE* f, size_t num_samples, int sample_rate_hz, int num_channels);
}
