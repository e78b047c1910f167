// Arranging and trimming the channels of a labelled frame.
#include <cstring>
#include "obu_common.h"
#include "iamf/cli/channel_label.h"
#include "iamf/cli/labeled_frame.h"
#include "iamf/cli/renderer/audio_element_renderer_base.h"
#include "iamf/cli/sample_processing_utils.h"
using namespace vh;
using L = ChannelLabel::Label;
using Samples = std::vector<double>;
static bool SameBits(double a, double b) {
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}
static Samples SymSamples(int n) {
  Samples s(n);
  if (n) sym_make(s.data(), 8 * n, "samples");
  return s;
}
static bool Same(absl::Span<const double> got, const Samples& e, size_t from, size_t n) {
  if (got.size() != n) return false;
  bool same = true;
  for (size_t i = 0; i < n; i++) same &= SameBits(got[i], e[from + i]);
  return same;
}
// Labels that fall back to a reconstructed channel.
static const std::pair<L, L> kDemixed[] = {
    {L::kR2, L::kDemixedR2}, {L::kL3, L::kDemixedL3}, {L::kR3, L::kDemixedR3}, {L::kL5, L::kDemixedL5}, {L::kR5, L::kDemixedR5},
    {L::kLs5, L::kDemixedLs5}, {L::kRs5, L::kDemixedRs5}, {L::kLtf2, L::kDemixedLtf2}, {L::kRtf2, L::kDemixedRtf2}, {L::kLtb4, L::kDemixedLtb4},
    {L::kRtb4, L::kDemixedRtb4}, {L::kL7, L::kDemixedL7}, {L::kR7, L::kDemixedR7}, {L::kLrs7, L::kDemixedLrs7}, {L::kRrs7, L::kDemixedRrs7}};
static const Samples* Find(const LabelSamplesMap& m, L l) {
  if (auto i = m.find(l); i != m.end()) return &i->second;
  for (auto& [a, b] : kDemixed)
    if (a == l)
      if (auto i = m.find(b); i != m.end()) return &i->second;
  return nullptr;
}
class Recorder : public AudioElementRendererBase {
 public:
  Recorder(const std::vector<L>& labels, size_t n, TrimmingSettings t) : AudioElementRendererBase(absl::MakeConstSpan(labels), n, labels.size(), t) {}
  std::vector<Samples> got;
  int calls = 0;
 protected:
  absl::Status RenderSamples(absl::Span<const absl::Span<const double>> s) override {
    calls++;
    got.clear();
    for (auto& c : s) got.push_back(Samples(c.begin(), c.end()));
    return absl::OkStatus();
  }
};
static void Check(const LabeledFrame& frame, const std::vector<L>& labels, int empty_size, bool any_trim) {
  TrimmingSettings t;
  t.trim_beginning = sym_choose("trim_beginning", 2);
  t.trim_end = !any_trim || sym_choose("trim_end", 2);
  const uint64_t start = t.trim_beginning ? frame.samples_to_trim_at_start : 0, end = t.trim_end ? frame.samples_to_trim_at_end : 0;
  std::vector<const Samples*> src;
  bool found = true, any = false, equal = true;
  size_t n = 0;
  for (L l : labels) {
    const Samples* s = l == L::kOmitted ? nullptr : Find(frame.label_to_samples, l);
    src.push_back(s);
    if (l == L::kOmitted) continue;
    if (!s) { found = false; continue; }
    if (any && s->size() != n) equal = false;
    if (!any) n = s->size();
    any = true;
  }
  const Samples empty(empty_size, 0.0);
  std::vector<absl::Span<const double>> out(labels.size());
  size_t ticks = 77;
  const bool ok = ArrangeSamples(frame, absl::MakeConstSpan(labels), absl::MakeConstSpan(empty), t, out, ticks).ok();
  const bool valid = found & any & equal & ((size_t)empty_size >= n) & (start + end <= n);
  sym_assert(ok == valid, "accepted exactly when the channels are present, of one length and longer than the trims");
  if (ok && valid) {
    sym_assert(ticks == n - start - end, "valid ticks are those left after trimming");
    const size_t from = sym_concretize(start), len = sym_concretize(n - start - end);
    bool same = true;
    for (size_t c = 0; c < labels.size(); c++) same &= Same(out[c], src[c] ? *src[c] : empty, from, len);
    sym_assert(same, "each channel keeps its samples in order and absent channels are silent");
    sym_reach("arranged");
  } else sym_reach("refused");
  // The same through a renderer.
  Recorder r(labels, empty_size, t);
  auto rendered = r.RenderLabeledFrame(frame);
  sym_assert(rendered.ok() == valid && r.calls == (valid ? 1 : 0), "a renderer is given exactly the valid frames");
  if (rendered.ok() && valid) {
    sym_assert(*rendered == ticks && r.got.size() == out.size(), "rendered ticks and channels");
    bool same = true;
    for (size_t c = 0; c < out.size() && c < r.got.size(); c++) same &= Same(absl::MakeConstSpan(r.got[c]), Samples(out[c].begin(), out[c].end()), 0, out[c].size());
    sym_assert(same, "the renderer sees the arranged samples");
    sym_reach("rendered");
  }
}
extern "C" void harness_main() {
  int c = sym_case();
  LabeledFrame frame{};
  constexpr int kCounts = MAXL + 1;
  if (c < kCounts * 4 * 2) {  // Chosen labels over a chosen set of channels.
    const int count = c % kCounts, n = c / kCounts % 4;
    const bool any_trim = c >= 4 * kCounts;  // Any trims of valid channels, or few trims of any channels.
    const L choices[] = {L::kOmitted, L::kL2, L::kR2, L::kDemixedR2};
    std::vector<L> labels;
    for (int i = 0; i < count; i++) labels.push_back(choices[any_trim ? 2 * sym_choose("label", 2) : sym_choose("label", 4)]);
    // L2, R2 and the reconstructed R2; at most one has another length.
    const unsigned present = any_trim ? 5 : sym_choose("present", 8), odd = any_trim ? 0 : sym_choose("odd", 4);
    frame.samples_to_trim_at_start = any_trim ? sym_u32("trim_start") : sym_choose("few_start", 2);
    frame.samples_to_trim_at_end = any_trim ? sym_u32("trim_end_samples") : 0;
    const L have[] = {L::kL2, L::kR2, L::kDemixedR2};
    for (unsigned i = 0; i < 3; i++)
      if (present >> i & 1) frame.label_to_samples[have[i]] = SymSamples(n + (i + 1 == odd ? 1 : 0));
    if (count == 0) {
      std::vector<absl::Span<const double>> out;
      size_t ticks = 5;
      sym_assert(ArrangeSamples(frame, {}, {}, TrimmingSettings{}, out, ticks).ok() && ticks == 5 && out.empty(), "no labels, nothing to do");
      sym_reach("none");
      return;
    }
    Check(frame, labels, any_trim ? n : n + (int)sym_choose("empty", 3) - (n > 0), any_trim);
  } else if (c < 8 * kCounts + 1) {  // Any label, with every reconstructed channel there.
    const uint32_t l = sym_u32("label");
    sym_assume(l <= (uint32_t)L::kA24);
    Samples first = SymSamples(2);
    int k = 0;
    for (auto& [a, b] : kDemixed) frame.label_to_samples[b] = Samples{(double)++k, first[0]};
    absl::Span<const double> got;
    const bool ok = FindSamplesOrDemixedSamples((L)l, frame.label_to_samples, got).ok();
    // The path fixed the label when it was found.
    int match = 0;
    k = 0;
    for (auto& [a, b] : kDemixed) { k++; if (l == (uint32_t)a || l == (uint32_t)b) match = k; }
    sym_assert(ok == (match != 0), "a label is found itself or as its reconstructed channel");
    if (ok && match) { sym_assert(got.size() == 2 && got[0] == match && SameBits(got[1], first[0]), "the right channel is found"); sym_reach("demixed"); }
  } else {  // Presence and equal length.
    c -= 8 * kCounts + 1;
    std::vector<L> labels;
    const L have[] = {L::kL2, L::kR2, L::kCentre};
    size_t sizes[3];
    bool present[3];
    for (int i = 0; i < 3; i++) {
      present[i] = sym_choose("present", 2);
      sizes[i] = sym_choose("size", 2) + c % 2;
      if (present[i]) frame.label_to_samples[have[i]] = SymSamples((int)sizes[i]);
    }
    bool found = true, equal = true;
    const int count = c / 2;
    int first = -1;
    for (int i = 0; i < count; i++) {
      const int k = (int)sym_choose("label", 3);
      labels.push_back(have[k]);
      found = found && present[k];
      if (first < 0) first = k;
      equal = equal && (!present[k] || !present[first] || sizes[k] == sizes[first]);
    }
    auto n = CheckPresenceAndGetCommonNumTicks(frame.label_to_samples, absl::MakeConstSpan(labels));
    sym_assert(n.ok() == (found && equal), "labels are present with a common length");
    if (n.ok() && found && equal) { sym_assert(*n == (first < 0 ? 0 : sizes[first]), "common length"); sym_reach("common"); }
  }
}
