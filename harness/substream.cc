// Substream frame buffers against a per-channel queue.
#include "obu_common.h"
#include "iamf/cli/substream_frames.h"
using namespace iamf_tools;
extern "C" void harness_main() {
  int c = sym_case();
  const int channels = c % 3 + 1, frame = c / 3 % 3 + 1;
  SubstreamFrames<int32_t> s(channels, frame);
  // Everything pushed to a channel and not yet popped.
  std::vector<std::vector<int32_t>> q(channels);
  auto push = [&](int ch) {
    const int32_t v = sym_i32("sample");
    s.PushSample(ch, v);
    q[ch].push_back(v);
  };
  auto check = [&] {
    bool empty = true;
    for (auto& x : q) empty = empty && x.empty();
    sym_assert(s.Empty() == empty, "empty exactly when nothing is buffered");
    auto& front = s.Front();
    sym_assert((int)front.size() == channels, "channels of the front frame");
    for (int ch = 0; ch < channels && ch < (int)front.size(); ch++) {
      const size_t n = std::min<size_t>(frame, q[ch].size());
      sym_assert(front[ch].size() == n, "the front frame holds the oldest samples");
      if (front[ch].size() != n) return;
      bool same = true;
      for (size_t i = 0; i < n; i++) same &= front[ch][i] == q[ch][i];
      sym_assert(same, "samples come out in order, once");
    }
  };
  for (int k = 0; k < OPS; k++) {
    const unsigned op = sym_choose("op", 4);
    if (op == 0) {  // The documented pattern: a block, channel by channel.
      const int n = (int)sym_choose("n", frame + 1) + 1;
      for (int ch = 0; ch < channels; ch++) for (int i = 0; i < n; i++) push(ch);
      sym_reach("push");
    } else if (op == 1) {  // Padding reaches all channels.
      const int pads[] = {1, frame, 2 * frame + 1, 0};
      const int n = pads[sym_choose("pad", 4)];
      s.PadZeros(n);
      for (auto& x : q) x.insert(x.end(), n, 0);
      sym_reach("pad");
    } else if (op == 2) {
      s.PopFront();
      for (auto& x : q) x.erase(x.begin(), x.begin() + std::min<size_t>(frame, x.size()));
      sym_reach("pop");
    } else {  // Channels of a tick in descending order, or a partial block.
      for (int ch = channels; ch-- > 0;) push(ch);
    }
    check();
  }
}
