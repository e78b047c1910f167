#pragma once
#include "src/dsp/read_wav_info.h"
extern "C" {
int ReadWavHeader(FILE* f, ReadWavInfo* info);
size_t ReadWavSamples(FILE* f, ReadWavInfo* info, void* samples, size_t num_samples);
}
