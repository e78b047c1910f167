// IA sequence header: exact acceptance on both sides and round trip.
#include "obu_roundtrip.h"
#include "iamf/obu/ia_sequence_header.h"
using namespace vh;
extern "C" void harness_main() {
  const int c = sym_case();
  if (c == 0) {
    ObuHeader h = Hdr(kObuIaSequenceHeader);
    h.obu_redundant_copy = sym_bool("redundant");
    const uint8_t p = sym_u8("primary"), a = sym_u8("additional");
    IASequenceHeaderObu obu(h, (ProfileVersion)p, (ProfileVersion)a);
    const bool known = p <= 5;
    sym_assert(obu.Validate().ok() == known, "known primary profiles are valid");
    Bytes w;
    ObuHeader back;
    const bool ok = WrittenPayload(obu, w, &back);
    sym_assert(ok == known, "written exactly when the primary profile is known");
    if (!ok) { sym_reach("refused"); return; }
    const Bytes expected = {'i', 'a', 'm', 'f', p, a};
    sym_assert(SameBytes(w, expected), "payload bytes");
    auto rb = Reader(w);
    auto again = IASequenceHeaderObu::CreateFromBuffer(back, w.size(), *rb);
    sym_assert(again.ok() && *again == obu, "reads back equal");
    sym_reach("written");
    return;
  }
  const int n = c - 1;
  Bytes b = SymBytes(n, "payload");
  auto rb = Reader(b);
  auto obu = IASequenceHeaderObu::CreateFromBuffer(Hdr(kObuIaSequenceHeader), n, *rb);
  const bool ok = n >= 6 && b[0] == 'i' && b[1] == 'a' && b[2] == 'm' && b[3] == 'f' && b[4] <= 5;
  sym_assert(obu.ok() == ok, "accepted exactly when the code is iamf and the primary profile is known");
  if (!obu.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert((uint8_t)obu->GetPrimaryProfile() == b[4] && (uint8_t)obu->GetAdditionalProfile() == b[5], "profiles");
  Bytes w;
  sym_assert(WrittenPayload(*obu, w) && SameBytes(w, b), "rewritten bytes");
  sym_observe(b[4]);
  sym_reach("accepted");
}
