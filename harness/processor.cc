// The push/flush protocol of sample processors, with a recording stand-in for
// the processing step, and with the real ambisonics mixer.
#include "obu_common.h"
#include "iamf/cli/sample_processor_base.h"
using namespace iamf_tools;
typedef std::vector<std::vector<double>> Frame;
// Repeats every input sample `rate` times; keeps the last sample of every
// channel for the flush.
class Recorder : public SampleProcessorBase {
 public:
  Recorder(size_t max, size_t channels, int rate) : SampleProcessorBase(max, channels, max * rate), rate_(rate), last_(channels) {}
  ~Recorder() override {}
  int pushes = 0, flushes = 0;
  bool fail = false, dirty = false;
  Frame seen;
 protected:
  void Look() { for (auto& c : output_channel_time_samples_) dirty |= !c.empty(); }
  absl::Status PushFrameDerived(absl::Span<const absl::Span<const InternalSampleType>> in) override {
    pushes++;
    Look();
    seen.assign(in.size(), {});
    for (size_t c = 0; c < in.size(); c++) seen[c].assign(in[c].begin(), in[c].end());
    if (fail) return absl::InternalError("step");
    for (size_t c = 0; c < in.size(); c++)
      for (double x : in[c]) {
        for (int r = 0; r < rate_; r++) output_channel_time_samples_[c].push_back(x);
        last_[c].assign(1, x);
      }
    return absl::OkStatus();
  }
  absl::Status FlushDerived() override {
    flushes++;
    Look();
    if (fail) return absl::InternalError("step");
    for (size_t c = 0; c < last_.size(); c++) output_channel_time_samples_[c] = last_[c];
    return absl::OkStatus();
  }
  int rate_;
  Frame last_;
};
static bool SameFrame(absl::Span<const absl::Span<const double>> got, const Frame& e) {
  if (got.size() != e.size()) return false;
  for (size_t c = 0; c < e.size(); c++)
    if (got[c].size() != e[c].size()) return false;
  bool same = true;
  for (size_t c = 0; c < e.size(); c++)
    for (size_t t = 0; t < e[c].size(); t++) same &= std::bit_cast<uint64_t>(got[c][t]) == std::bit_cast<uint64_t>(e[c][t]);
  return same;
}
extern "C" void harness_main() {
  int c = sym_case();
  const int channels = c % 4;
  const int max = c / 4 % 3, rate = c / 12;  // 0, 1 or 2 output samples per input sample
  Recorder p(max, channels, rate);
  sym_assert(p.GetNumChannels() == (size_t)channels, "channel count");
  Frame expect(channels), last(channels);
  sym_assert(SameFrame(p.GetOutputSamplesAsSpan(), expect), "nothing to read before the first push");
  bool flushed = false;
  int pushes = 0, flushes = 0;
  for (int step = 0; step < OPS; step++) {
    p.fail = step == 1 && sym_choose("fail", 2);
    const unsigned op = sym_choose("op", 8);
    if (op == 0) {
      const bool ok = p.Flush().ok();
      if (!flushed) {
        flushes++;
        expect = p.fail ? Frame(channels) : last;
        sym_assert(ok == !p.fail, "the result of the flush step is reported");
        sym_reach("flush");
      } else {
        sym_assert(!ok, "a second flush is refused");
        sym_reach("refused");
      }
      flushed = true;
    } else {
      // The declared shape with its largest and a smaller length; too long; a
      // channel missing or too many; the first or last channel one longer.
      const int given = channels + (op == 4 ? -1 : op == 5 ? 1 : 0);
      if (given < 0 || (op == 2 && !max)) return;
      const int len = max + (op == 2 || op >= 6 ? -1 : op == 3 ? 1 : 0);
      if (len < 0 || (op == 7 && given < 2)) return;
      Frame in(given);
      for (int i = 0; i < given; i++) {
        in[i].resize(len + ((op == 6 && !i) || (op == 7 && i == given - 1)));
        for (auto& x : in[i]) x = sym_double("sample");
      }
      std::vector<absl::Span<const double>> spans;
      for (auto& x : in) spans.push_back(absl::MakeConstSpan(x));
      bool shape = given == channels;
      for (auto& x : in) shape = shape && x.size() == in[0].size() && (int)x.size() <= max;
      const bool ok = p.PushFrame(absl::MakeConstSpan(spans)).ok();
      if (flushed || !shape) {
        sym_assert(!ok, "a push after the flush or of the wrong shape is refused");
        auto now = p.GetOutputSamplesAsSpan();
        sym_assert(now.size() == expect.size(), "channel count of the output");
        for (int i = 0; i < channels; i++)
          sym_assert(now[i].empty() || SameFrame(now.subspan(i, 1), Frame(1, expect[i])), "a refused push adds nothing to the output");
        if (flushed) sym_assert(SameFrame(now, expect), "after the flush the output stays");
        for (int i = 0; i < channels; i++) expect[i].assign(now[i].begin(), now[i].end());
        sym_reach("refused");
      } else {
        pushes++;
        sym_assert(ok == !p.fail, "the result of the processing step is reported");
        sym_assert(p.pushes == pushes, "an accepted frame reaches the processing step");
        std::vector<absl::Span<const double>> seen;
        for (auto& x : p.seen) seen.push_back(absl::MakeConstSpan(x));
        sym_assert(SameFrame(absl::MakeConstSpan(seen), in), "the processing step sees the frame unchanged");
        expect.assign(channels, {});
        if (!p.fail)
          for (int i = 0; i < channels; i++)
            for (double x : in[i]) {
              for (int r = 0; r < rate; r++) expect[i].push_back(x);
              last[i].assign(1, x);
            }
        sym_reach("push");
      }
    }
    sym_assert(!p.dirty, "the previous output is cleared before every processing step");
    sym_assert(p.pushes == pushes && p.flushes == flushes, "refused calls never reach the processing step");
    sym_assert(SameFrame(p.GetOutputSamplesAsSpan(), expect), "the exposed output is exactly what was produced");
  }
}
