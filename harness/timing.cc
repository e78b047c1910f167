// Timestamps of substreams and parameters over any history.
#include "desc_common.h"
#include "iamf/cli/global_timing_module.h"
using namespace vh;
static absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> Params(const std::vector<std::pair<uint32_t, uint32_t>>& id_rates) {
  absl::flat_hash_map<DecodedUleb128, ParamDefinitionVariant> m;
  for (auto& [id, rate] : id_rates) m.insert({id, MixGainParamDefinition(ParamArgs(id, rate, 0))});
  return m;
}
static void Creation(int shape) {
  auto codec = Lpcm(3, 8);
  const int first = shape % 3, second = shape / 3;
  Ids a, b;
  for (int i = 0; i < first; i++) a.push_back(sym_u8("substream"));
  for (int i = 0; i < second; i++) b.push_back(sym_u8("substream"));
  const uint32_t rate1 = sym_u32("rate"), rate2 = sym_u32("rate");
  bool unique = true, own = true;
  Ids all = a;
  all.insert(all.end(), b.begin(), b.end());
  for (size_t i = 0; i < all.size(); i++)
    for (size_t j = 0; j < i; j++) {
      unique &= all[i] != all[j];
      if ((i < a.size()) == (j < a.size())) own &= all[i] != all[j];
    }
  sym_assume(own);  // Within an element the ids are unique by construction.
  DescriptorObus::AudioElementsById e;
  e.insert({20, ExtElement(20, a, &*codec)});
  e.insert({10, ExtElement(10, b, &*codec)});
  auto m = GlobalTimingModule::Create(e, Params({{1, rate1}, {2, rate2}}));
  sym_assert((m != nullptr) == (unique & (rate1 != 0) & (rate2 != 0)), "created exactly for distinct substreams and non-zero rates");
  sym_reach(m ? "created" : "not_created");
}
struct Clock { uint32_t id; int64_t t = 0; bool known = true; };
static Clock* Find(std::vector<Clock>& v, uint32_t id) {
  for (auto& c : v)
    if (c.id == id) return &c;
  return nullptr;
}
static void CheckGlobal(const GlobalTimingModule& m, const std::vector<Clock>& frames) {
  std::optional<InternalTimestamp> g = 12345;
  const bool ok = m.GetGlobalAudioFrameTimestamp(g).ok();
  sym_assert(ok == !frames.empty(), "there is a global timestamp only with substreams");
  if (!ok || frames.empty()) return;
  bool same = true;
  for (auto& f : frames) same &= f.t == frames[0].t;
  sym_assert(g.has_value() == same, "a global timestamp is reported exactly when all substreams agree");
  if (g.has_value()) { sym_assert(*g == frames[0].t, "the global timestamp is the common one"); sym_reach("global"); }
}
extern "C" void harness_main() {
  int c = sym_case();
  if (c < 9) { Creation(c); return; }
  c -= 9;
  const int substreams = c % 3, ops = c / 3;
  auto codec = Lpcm(3, 8);
  std::vector<Clock> frames, params{{0x80000001}, {2}};
  DescriptorObus::AudioElementsById e;
  for (int i = 0; i < substreams; i++) {
    frames.push_back({7 + 0xf0000005u * i});
    e.insert({(uint32_t)(30 - i), ExtElement(30 - i, {frames.back().id}, &*codec)});
  }
  auto m = GlobalTimingModule::Create(e, Params({{0x80000001, 48000}, {2, 1}}));
  sym_assert(m != nullptr, "created");
  if (!m) return;
  CheckGlobal(*m, frames);
  for (int k = 0; k < OPS; k++) {
    const bool block = k < 2 ? ops >> k & 1 : sym_choose("block", 2);
    const uint32_t id = sym_u32("id"), duration = sym_u32("duration");
    const int64_t claimed = block ? sym_i64("claimed_start") : 0;
    InternalTimestamp start = -5, end = -7;
    auto& clocks = block ? params : frames;
    const bool ok = block ? m->GetNextParameterBlockTimestamps(id, claimed, duration, start, end).ok() : m->GetNextAudioFrameTimestamps(id, duration, start, end).ok();
    // The lookup fixed which id this is.
    Clock* clock = Find(clocks, id);
    if (clock && !clock->known) { sym_stop(); return; }
    const bool valid = clock && (!block || clock->t == claimed);
    sym_assert(ok == valid, "accepted exactly for known ids without gap or overlap");
    if (ok && valid) {
      sym_assert((start == clock->t) & (end == clock->t + (int64_t)duration), "the interval follows the previous one and lasts the duration");
      clock->t += duration;
      sym_reach(block ? "block" : "frame");
    } else {
      // What follows a misplaced block of this id is not specified.
      if (clock) clock->known = false;
      sym_reach(clock ? "misplaced" : "unknown");
    }
    CheckGlobal(*m, frames);
  }
}
