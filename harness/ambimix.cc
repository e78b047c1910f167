// AmbisonicsMixer: what the decoder's demixing matrix gives back is what went in.
#include "obu_common.h"
#include "iamf/cli/ambisonics_mixer.h"
#include "iamf/cli/renderer/renderer_utils.h"
using namespace vh;
using Samples = std::vector<std::vector<double>>;
static Samples Frame(int channels, int ticks) {
  Samples s(channels, std::vector<double>(ticks));
  for (auto& c : s) for (auto& x : c) x = sym_real("x", -1, 1);
  return s;
}
template <typename T> static std::vector<absl::Span<const double>> Spans(const T& s) {
  std::vector<absl::Span<const double>> v;
  for (auto& c : s) v.push_back(absl::MakeConstSpan(c));
  return v;
}
static bool Push(AmbisonicsMixer& m, const Samples& s) {
  const auto spans = Spans(s);
  return m.PushFrame(absl::MakeConstSpan(spans)).ok();
}
static void Near(double a, double b, double tolerance) {
  sym_assert((a - b <= tolerance) & (b - a <= tolerance), "decoding the mixed samples gives back the input");
}
static void CheckOutput(AmbisonicsMixer& m, const Samples& in, int ticks) {
  const AmbisonicsConfig c = m.GetAmbisonicsConfig();
  const auto out = m.GetOutputSamplesAsSpan();
  const size_t n = in.size();
  sym_assert(out.size() == n, "one output per substream channel");
  if (out.size() != n) return;
  bool sized = true;
  for (auto& ch : out) sized &= ch.size() == (size_t)ticks;
  sym_assert(sized, "as many ticks as were given");
  if (!sized) return;
  if (const auto* mono = std::get_if<AmbisonicsMonoConfig>(&c.ambisonics_config)) {
    const auto map = mono->GetChannelMappingView();
    sym_assert(map.size() == n && mono->GetSubstreamCount() == n, "each ambisonics channel has a substream");
    if (map.size() != n) return;
    for (size_t i = 0; i < n; i++)
      for (int t = 0; t < ticks; t++)
        if (map[i] < n) Near(out[map[i]][t], in[i][t], 0);
        else sym_fail("a channel is missing");
    sym_reach("mono");
    return;
  }
  const auto& p = std::get<AmbisonicsProjectionConfig>(c.ambisonics_config);
  const auto q15 = p.GetDemixingMatrixView();
  sym_assert(p.GetSubstreamCount() + p.GetCoupledSubstreamCount() == (int)n && p.GetOutputChannelCount() == n && q15.size() == n * n, "the matrix fits");
  if (q15.size() != n * n) return;
  std::vector<double> matrix;
  for (int16_t q : q15) matrix.push_back(q / 32768.0);
  Samples back(n, std::vector<double>(ticks, 7.0));
  std::vector<absl::Span<double>> back_spans;
  for (auto& ch : back) back_spans.push_back(absl::MakeSpan(ch));
  sym_assert(ProjectSamplesToRender(out, absl::MakeConstSpan(matrix), absl::MakeSpan(back_spans)).ok(), "decodable");
  for (size_t i = 0; i < n; i++)
    for (int t = 0; t < ticks; t++) Near(back[i][t], in[i][t], 5e-4);
  sym_reach("projection");
}
static void Run(AmbisonicsMixer& m, int n) {
  const auto labels = m.GetInputLabels();
  sym_assert(labels.size() == (size_t)n && m.GetAmbisonicsConfig().GetOutputChannelCount() == n, "a label per ambisonics channel");
  bool order = labels.size() == (size_t)n;
  for (size_t i = 0; order && i < labels.size(); i++) order &= labels[i] == (ChannelLabel::Label)(ChannelLabel::kA0 + i);
  sym_assert(order, "ambisonics channels are expected in order");
  WriteBitBuffer wb(64);
  sym_assert(m.GetAmbisonicsConfig().ValidateAndWrite(wb).ok(), "the configuration can be written");
  for (int f = 0; f < 3; f++) {
    const int ticks = f == 1 ? 0 : f == 2 ? 1 : TICKS;
    const Samples in = Frame(n, ticks);
    if (!Push(m, in)) { sym_fail("frames are accepted"); return; }
    CheckOutput(m, in, ticks);
  }
  sym_assert(m.Flush().ok(), "flushed");
  for (auto& ch : m.GetOutputSamplesAsSpan()) sym_assert(ch.empty(), "nothing is given out twice");
  sym_assert(!Push(m, Frame(n, 1)), "nothing is taken after the end");
}
static void Refuse(AmbisonicsMixer m, int n) {
  sym_assert(!Push(m, Frame(n, TICKS + 1)), "frames which are too long are refused");
  sym_assert(!Push(m, Frame(n + 1, 1)), "frames with too many channels are refused");
  if (n > 1) sym_assert(!Push(m, Frame(n - 1, 1)), "frames with too few channels are refused");
  sym_reach("refused");
}
extern "C" void harness_main() {
  const int c = sym_case();
  using Preset = AmbisonicsMixer::Preset;
  static const Preset k[] = {Preset::kBestPracticeForOrder0, Preset::kBestPracticeForOrder1, Preset::kBestPracticeForOrder2, Preset::kBestPracticeForOrder3};
  static const CodecConfig::CodecId codecs[] = {CodecConfig::kCodecIdOpus, CodecConfig::kCodecIdLpcm, CodecConfig::kCodecIdFlac, CodecConfig::kCodecIdAacLc};
  if (c < 16) {
    const int order = c % 4, n = (order + 1) * (order + 1);
    auto m = AmbisonicsMixer::MakeFromPreset(codecs[c / 4], k[order], TICKS);
    Run(m, n);
    Refuse(AmbisonicsMixer::MakeFromPreset(codecs[c / 4], k[order], TICKS), n);
    return;
  }
  // Given configurations: the samples are the substreams' already.
  const Bytes map = {0, 1, 2, 3};
  static const int16_t identity[] = {32767, 0, 0, 0, 0, 32767, 0, 0, 0, 0, 32767, 0, 0, 0, 0, 32767};
  AmbisonicsConfig given = c == 16 ? AmbisonicsConfig{.ambisonics_config = *AmbisonicsMonoConfig::Create(4, absl::MakeConstSpan(map))}
                                   : AmbisonicsConfig{.ambisonics_config = *AmbisonicsProjectionConfig::Create(4, 3, 1, absl::MakeConstSpan(identity))};
  auto m = AmbisonicsMixer::MakeFromAmbisonicsConfig(given, TICKS);
  Run(m, 4);
}
