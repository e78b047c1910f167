// Independent construction of IAMF streams, byte by byte.
#ifndef VERIF_STREAM_COMMON_H_
#define VERIF_STREAM_COMMON_H_
#include "obu_common.h"
namespace vh {
inline void Add(Bytes& b, const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
inline void Str(Bytes& b, const char* s) { do b.push_back((uint8_t)*s); while (*s++); }
inline Bytes Obu(int type, const Bytes& payload, int flags = 0) {
  Bytes b = {(uint8_t)(type << 3 | flags)};
  PutUleb(b, (uint32_t)payload.size());
  Add(b, payload);
  return b;
}
// An audio frame with trims (at the end, at the start) when asked for.
inline Bytes Frame(int substream, const Bytes& samples, int trim_end = -1, int trim_start = 0) {
  if (trim_end < 0) {
    if (substream < 18) return Obu(6 + substream, samples);
    Bytes p;
    PutUleb(p, (uint32_t)substream);
    Add(p, samples);
    return Obu(5, p);
  }
  Bytes rest = {(uint8_t)trim_end, (uint8_t)trim_start};
  if (substream >= 18) PutUleb(rest, (uint32_t)substream);
  Add(rest, samples);
  Bytes b = {(uint8_t)((substream < 18 ? 6 + substream : 5) << 3 | 2)};
  PutUleb(b, (uint32_t)rest.size());
  Add(b, rest);
  return b;
}
inline Bytes Delimiter() { return Obu(4, {}); }
inline Bytes SequenceHeader(int profile = 2, int flags = 0) { return Obu(31, {'i', 'a', 'm', 'f', (uint8_t)profile, (uint8_t)profile}, flags); }
inline Bytes LpcmPayload(int id, int frame, int size = 16, bool little = true) {
  Bytes p;
  PutUleb(p, (uint32_t)id);
  Add(p, {'i', 'p', 'c', 'm'});
  PutUleb(p, (uint32_t)frame);
  Add(p, {0, 0, (uint8_t)little, (uint8_t)size, 0, 0, 0xbb, 0x80});
  return p;
}
// A channel-based element of one layer (layouts 0: mono, 1: stereo, 2: 5.1 ...).
inline Bytes ElementPayload(int id, int codec, const std::vector<int>& substreams, int layout, int coupled, const Bytes& params = {0}) {
  Bytes p;
  PutUleb(p, (uint32_t)id);
  p.push_back(0);
  PutUleb(p, (uint32_t)codec);
  PutUleb(p, (uint32_t)substreams.size());
  for (int s : substreams) PutUleb(p, (uint32_t)s);
  Add(p, params);
  Add(p, {1 << 5, (uint8_t)(layout << 4), (uint8_t)substreams.size(), (uint8_t)coupled});
  return p;
}
// A mix gain definition whose schedule is in its blocks.
inline Bytes MixGain(int id, int16_t gain = 0) {
  Bytes p;
  PutUleb(p, (uint32_t)id);
  PutUleb(p, 48000);
  Add(p, {0x80, (uint8_t)((uint16_t)gain >> 8), (uint8_t)gain});
  return p;
}
// One sub-mix of the elements; element `i` uses parameter `first_param + i`, the output the one after.
inline Bytes MixPayload(int id, const std::vector<int>& elements, int first_param, const std::vector<int>& sound_systems = {0}, int headphones = 0) {
  Bytes p;
  PutUleb(p, (uint32_t)id);
  Add(p, {0, 1});
  PutUleb(p, (uint32_t)elements.size());
  int k = first_param;
  for (int e : elements) {
    PutUleb(p, (uint32_t)e);
    Add(p, {(uint8_t)(headphones << 6), 0});  // Rendering configuration.
    Add(p, MixGain(k++));
  }
  Add(p, MixGain(k));
  p.push_back((uint8_t)sound_systems.size());
  for (int s : sound_systems) Add(p, {(uint8_t)(2 << 6 | s << 2), 0, 0xef, 0, 0xf8, 0});
  return p;
}
// A mix-gain block of one constant step.
inline Bytes GainBlock(int id, int duration, int16_t gain) {
  Bytes p;
  PutUleb(p, (uint32_t)id);
  PutUleb(p, (uint32_t)duration);
  PutUleb(p, (uint32_t)duration);
  Add(p, {0, (uint8_t)((uint16_t)gain >> 8), (uint8_t)gain});
  return Obu(3, p);
}
}  // namespace vh
#endif
