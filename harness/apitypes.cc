// The types of the public interface and the ones used inside.
#include "obu_common.h"
#include "iamf/api/conversion/mix_presentation_conversion.h"
#include "iamf/api/conversion/profile_conversion.h"
#include "iamf/include/iamf_tools/iamf_tools_api_types.h"
#include "iamf/obu/mix_presentation.h"
#include "iamf/obu/substream_channel_count.h"
using namespace vh;
using namespace iamf_tools;
// Channels listed for the layouts in the API's documentation.
static const int kApiChannels[15] = {2, 6, 8, 10, 11, 12, 14, 24, 8, 12, 10, 6, 1, 16, 2};
// The sound system each of them names, -1 for binaural.
static const int kSystem[15] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, -1};
static void FromApi() {
  const uint8_t a = sym_u8("layout");
  sym_assume(a < 15);
  const auto l = ApiToInternalType(std::optional<api::OutputLayout>((api::OutputLayout)a));
  sym_assert(l.has_value(), "every layout of the interface is known");
  if (!l.has_value()) return;
  const auto* ss = std::get_if<LoudspeakersSsConventionLayout>(&l->specific_layout);
  bool right = false;
  for (int i = 0; i < 15; i++) right |= (a == i) & (kSystem[i] < 0 ? (l->layout_type == 3) & !ss : (l->layout_type == 2) & (ss && (int)ss->sound_system == kSystem[i] && ss->reserved == 0));
  sym_assert(right, "a layout is the sound system it names");
  int32_t n = 0;
  sym_assert(MixPresentationObu::GetNumChannelsFromLayout(*l, n).ok(), "its channels are known");
  bool count = false;
  for (int i = 0; i < 15; i++) count |= (a == i) & (n == kApiChannels[i]);
  sym_assert(count, "as many channels as documented");
  const auto back = InternalToApiType(*l);
  sym_assert(back.ok() && (int)*back == a, "a layout survives a round trip");
  sym_assert(!ApiToInternalType(std::optional<api::OutputLayout>()).has_value(), "no layout stays none");
  sym_reach("from_api");
}
static void ToApi() {
  Layout l;
  const uint8_t type = sym_u8("type") & 3;
  l.layout_type = (Layout::LayoutType)type;
  const bool speakers = sym_bool("speakers");
  const uint8_t ss = sym_u8("system") & 15, reserved = sym_u8("reserved");
  if (speakers) l.specific_layout = LoudspeakersSsConventionLayout{.sound_system = (LoudspeakersSsConventionLayout::SoundSystem)ss, .reserved = (uint8_t)(reserved & 3)};
  else l.specific_layout = LoudspeakersReservedOrBinauralLayout{.reserved = (uint8_t)(reserved & 63)};
  const auto a = InternalToApiType(l);
  sym_assert(a.ok() == (speakers ? (type == 2) & (ss < 14) : type == 3), "exactly the layouts the interface has");
  if (!a.ok()) { sym_reach("unknown"); return; }
  sym_assert((int)*a == (speakers ? ss : 14), "the layout of the sound system");
  const auto back = ApiToInternalType(std::optional<api::OutputLayout>(*a));
  sym_assert(back.has_value() && back->layout_type == l.layout_type, "the type survives");
  if (back.has_value() && speakers) sym_assert((int)std::get<LoudspeakersSsConventionLayout>(back->specific_layout).sound_system == ss, "the sound system survives");
  sym_reach("to_api");
}
static void Profiles() {
  const uint8_t p = sym_u8("profile");
  const auto a = InternalToApiType((ProfileVersion)p);
  sym_assert(a.ok() == (p <= 2), "the profiles the interface has");
  if (!a.ok()) { sym_reach("unknown_profile"); return; }
  sym_assert((int)*a == p, "the profile keeps its meaning");
  sym_assert((int)ApiToInternalType(*a) == p, "a profile survives a round trip");
  sym_reach("profile");
}
static void Rest() {
  const int n = sym_i32("channels");
  const auto c = SubstreamChannelCount::Create(n);
  sym_assert(c.ok() == ((n == 1) | (n == 2)), "a substream has one or two channels");
  if (c.ok()) sym_assert((int)c->num_channels() == n, "as many as asked for");
  sym_assert(SubstreamChannelCount::MakeSingular().num_channels() == 1 && SubstreamChannelCount::MakeCoupled().num_channels() == 2, "named counts");
  const std::string why(sym_choose("length", 3), 'x');
  const auto e = api::IamfStatus::ErrorStatus(why), o = api::IamfStatus::OkStatus();
  sym_assert(!e.ok() && !e.success && e.error_message == why, "an error keeps its reason, and is one without");
  sym_assert(o.ok() && o.success && o.error_message.empty(), "success");
  sym_reach("rest");
}
extern "C" void harness_main() {
  switch (sym_case()) {
    case 0: return FromApi();
    case 1: return ToApi();
    case 2: return Profiles();
    default: return Rest();
  }
}
