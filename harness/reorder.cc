// Output channel reordering for any layout and channel count.
#include <cstring>
#include <string>
#include "obu_common.h"
#include "iamf/api/conversion/channel_reorderer.h"
using namespace iamf_tools;
using SS = LoudspeakersSsConventionLayout::SoundSystem;
using Names = std::vector<std::string>;
static Names Split(const char* s) {
  Names n;
  n.emplace_back();
  for (const char* p = s; *p; p++) {
    if (*p == ' ') n.emplace_back();
    else n.back() += *p;
  }
  return n;
}
// Channel names in the order of ITU-R BS.2051-3 (or IAMF) and of Android.
struct Orders { Names from, to; };
static Orders OrdersOf(int ss) {
  switch (ss) {
    case 8:
    case 9:
    case 10:
      return {Split("L R C LFE Lss Rss Lrs Rrs"), Split("L R C LFE Lrs Rrs Lss Rss")};
    case 5:
      return {Split("C L R LH RH LS RS LB RB CH LFE1 LFE2"), Split("L R C LFE1 LB RB LS RS CH LH RH LFE2")};
    case 6:
      return {Split("L R C LFE Lss Rss Lrs Rrs Ltf Rtf Ltb Rtb Lsc Rsc"), Split("L R C LFE Lrs Rrs Lsc Rsc Lss Rss Ltf Rtf Ltb Rtb")};
    case 7:
      return {Split("FL FR FC LFE1 BL BR FLc FRc BC LFE2 SiL SiR TpFL TpFR TpFC TpC TpBL TpBR TpSiL TpSiR TpBC BtFC BtFL BtFR"),
              Split("FL FR FC LFE1 BL BR FLc FRc BC SiL SiR TpC TpFL TpFC TpFR TpBL TpBC TpBR TpSiL TpSiR BtFL BtFC BtFR LFE2")};
  }
  return {};
}
extern "C" void harness_main() {
  const int n = sym_case();
  const uint8_t raw = sym_u8("layout"), raw_scheme = (uint8_t)sym_choose("scheme", 2);
  // Any byte; the fork over its meaning is the code's.
  ChannelReorderer r = ChannelReorderer::Create((SS)raw, (ChannelReorderer::RearrangementScheme)raw_scheme);
  const int ss = (int)(raw <= 14 ? sym_concretize(raw) : 255);
  double samples[30];
  sym_make(samples, sizeof samples, "samples");
  std::vector<absl::Span<const double>> frame;
  for (int i = 0; i < n; i++) frame.push_back(absl::MakeConstSpan(samples + i, 1));
  const Orders o = raw_scheme ? OrdersOf(ss) : Orders{};
  const size_t need = ss == 5 && raw_scheme ? 11 : o.from.size();
  const bool ok = r.Reorder(frame).ok();
  sym_assert(ok == ((size_t)n >= need), "frames with too few channels for the layout are refused");
  sym_assert((int)frame.size() == n, "the number of channels stays");
  if (!ok) { sym_reach("refused"); }
  bool places = true;
  for (int i = 0; i < n; i++) {
    int from = i;
    if (ok && (size_t)i < o.to.size())
      for (size_t k = 0; k < o.from.size(); k++)
        if (o.from[k] == o.to[i]) from = (int)k;
    uint64_t a, b;
    if (frame[i].size() != 1) { places = false; break; }
    memcpy(&a, frame[i].data(), 8);
    memcpy(&b, samples + from, 8);
    places &= a == b;
  }
  sym_assert(places, "every channel is in its place");
  if (ok) sym_reach(o.from.empty() ? "unchanged" : "reordered");
}
