// Independent reading of subblock schedules.
#ifndef VERIF_SCHEDULE_COMMON_H_
#define VERIF_SCHEDULE_COMMON_H_
#include "obu_common.h"
namespace vh {
struct RefSchedule {
  uint32_t duration = 0, constant = 0, num = 0;
  std::vector<uint32_t> durations;  // Only when constant == 0.
};
inline bool RefConstant(uint32_t duration, uint32_t constant, uint32_t& num) {
  if (duration == 0 || constant == 0 || constant > duration) return false;
  num = duration / constant;
  if (duration % constant != 0) num += 1;
  return num <= 192000;
}
// `max_constant` bounds the number of subblocks of a constant schedule.
inline bool RefReadSchedule(const Bytes& b, size_t& pos, RefSchedule& s, uint32_t max_constant) {
  if (!RefUleb(b, pos, s.duration) || !RefUleb(b, pos, s.constant)) return false;
  if (s.constant != 0) {
    if (!RefConstant(s.duration, s.constant, s.num)) return false;
    sym_assume(s.num <= max_constant);
    s.num = (uint32_t)sym_concretize(s.num);
    return true;
  }
  if (!RefUleb(b, pos, s.num)) return false;
  if (s.duration == 0 || s.num == 0 || s.num > 192000 || s.num > s.duration) return false;
  uint64_t sum = 0;
  bool zero = false;
  for (uint32_t i = 0; i < s.num; i++) {
    uint32_t d = 0;
    if (!RefUleb(b, pos, d)) return false;
    zero |= d == 0;
    sum += d;
    s.durations.push_back(d);
  }
  return !zero && sum == s.duration;
}
inline uint32_t RefSubblock(const RefSchedule& s, uint32_t i) {
  if (s.constant == 0) return s.durations[i];
  return i + 1 < s.num ? s.constant : s.duration - (s.num - 1) * s.constant;
}
}  // namespace vh
#endif
