// Handing down-mixed channels to their substreams.
#include <cmath>
#include "desc_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/downmixer_manager.h"
#include "iamf/common/utils/numeric_utils.h"
using namespace vh;
using enum ChannelLabel::Label;
using Label = ChannelLabel::Label;
using Map = absl::flat_hash_map<uint32_t, SubstreamData>;
static void Put(Map& m, uint32_t id, size_t channels, size_t frame) {
  m.insert({id, SubstreamData{id, SubstreamFrames<InternalSampleType>(channels, frame), SubstreamFrames<int32_t>(channels, frame), {}, 0, 0}});
}
extern "C" void harness_main() {
  // No to two samples per channel, then samples that are given with a gain.
  const int kase = sym_case(), c = std::min(kase, 2);
  const float gain_db = kase < 3 ? 0.0f : kase == 3 ? -6.0f : 3.5f;
  const SubstreamIdLabelsMap labels{{4, {kL2, kR2}}, {2, {kCentre}}, {8, {kLFE}}};
  LabelGainMap gains;
  if (kase != 0) gains[kR2] = gain_db;
  if (kase > 2) gains[kLFE] = 2.25f;
  int called = 0;
  const bool mixer_fails = sym_choose("mixer_fails", 2);
  absl::flat_hash_map<DecodedUleb128, DownmixerManager::DownmixingConfig> configs;
  {
    DownmixerManager::DownmixingConfig config{.down_mixers = {}, .substream_id_to_labels = labels, .label_to_output_gain = gains};
    // The first makes the centre, the second copies it to the LFE.
    config.down_mixers.push_back([&called](const DownMixingParams& p, LabelSamplesMap& m) {
      called = called * 10 + 1;
      auto s = m[kL2];
      m[kCentre] = s;
      return p.w == 0.25 ? absl::OkStatus() : absl::InvalidArgumentError("");
    });
    config.down_mixers.push_back([&called, mixer_fails](const DownMixingParams&, LabelSamplesMap& m) {
      called = called * 10 + 2;
      auto s = m[kCentre];
      m[kLFE] = s;
      return mixer_fails ? absl::InvalidArgumentError("") : absl::OkStatus();
    });
    configs.insert({7, std::move(config)});
  }
  configs.insert({9, DownmixerManager::DownmixingConfig{.down_mixers = {}, .substream_id_to_labels = {}, .label_to_output_gain = {}}});
  auto manager = DownmixerManager::Make(std::move(configs));
  uint32_t id = 7;
  if (const unsigned other = sym_choose("other", 3)) id = other == 1 ? 9 : sym_u32("element");
  sym_assume((id == 7) | (id == 9) | (c == 0));
  const unsigned missing = sym_choose("missing", 5);  // None, a substream or a channel.
  Map data;
  Put(data, 4, 2, 2);
  if (missing != 1) Put(data, 2, 1, 2);
  if (missing != 2) Put(data, 8, 1, 2);
  Put(data, 99, 1, 2);
  LabelSamplesMap in;
  std::vector<double> l, r;
  bool finite = true;
  for (int i = 0; i < c; i++) {
    if (kase < 3) {
      l.push_back(sym_double("l"));
      r.push_back(i ? 0.75 : sym_double("r"));
    } else {
      static const double kSome[] = {0.25, -1.0, 0.999, 1e-9, -0.6};
      l.push_back(kSome[(int)sym_concretize(sym_choose("l", 5))]);
      r.push_back(i ? -0.375 : kSome[(int)sym_concretize(sym_choose("r", 5))]);
    }
    finite &= !(std::isnan(l[i]) | std::isinf(l[i]) | std::isnan(r[i]) | std::isinf(r[i]));
  }
  in[kL2] = l;
  if (missing != 3) in[kR2] = r;
  sym_assert(manager->HasDownMixers(id) == (id == 7), "whether an element is down-mixed");
  const DownMixingParams p{.w = 0.25};
  const auto status = manager->DownMixSamplesToSubstreams(id, p, in, data);
  if (id != 7) {
    sym_assert(status.ok() == (id == 9) && called == 0, "an element that is not configured is an error");
    sym_reach("unknown");
    return;
  }
  sym_assert(called == 12, "the down-mixers run in order");
  const bool want = !mixer_fails & (missing == 0 || missing == 4) & finite;
  sym_assert(status.ok() == want, "a failing down-mixer, a missing substream or channel, or a sample that is not a number is an error");
  if (!status.ok()) { sym_reach("error"); return; }
  auto gain = [&](Label x) { auto it = gains.find(x); return it == gains.end() ? 1.0 : std::pow(10.0, it->second / 20.0); };
  auto check = [&](uint32_t substream, int channel, Label label, const std::vector<double>& samples) {
    auto& d = data.at(substream);
    size_t i = 0;
    auto obu = d.frames_in_obu;
    auto enc = d.frames_to_encode;
    while (i < samples.size()) {
      auto& fo = obu.Front()[channel];
      auto& fe = enc.Front()[channel];
      sym_assert(fo.size() == std::min<size_t>(2, samples.size() - i) && fe.size() == fo.size(), "each sample is handed on once");
      for (size_t k = 0; k < fo.size(); k++, i++) {
        int32_t e = 0;
        (void)NormalizedFloatingPointToInt32(samples[i] / gain(label), e);
        sym_assert(fo[k] == samples[i], "the samples of the substream are the channel's");
        sym_assert(fe[k] == e, "samples to encode are attenuated by the output gain");
      }
      return;  // The copies share iterators with the original; one frame each is enough.
    }
  };
  check(4, 0, kL2, l);
  check(4, 1, kR2, r);
  check(2, 0, kCentre, l);
  check(8, 0, kLFE, l);
  sym_assert(data.at(99).frames_in_obu.Empty(), "no other substream gets samples");
  sym_reach("handed");
}
