// Generic checks on an OBU payload parser: framing, independence from what
// follows, and re-serialisation.
#ifndef VERIF_OBU_ROUNDTRIP_H_
#define VERIF_OBU_ROUNDTRIP_H_
#include "obu_common.h"
namespace vh {
template <class T> const ObuBase& AsObu(const T& t) { return t; }
template <class T> const ObuBase& AsObu(const std::unique_ptr<T>& t) { return *t; }
// Payload bytes of a written OBU; false when the OBU cannot be written or its
// own header cannot be read back.
inline bool WrittenPayload(const ObuBase& obu, Bytes& payload, ObuHeader* header = nullptr) {
  WriteBitBuffer wb(0);
  if (!obu.ValidateAndWriteObu(wb).ok()) return false;
  Bytes all = wb.bit_buffer();
  auto rb = Reader(all);
  ObuHeader h;
  int64_t size = -1;
  if (!h.ReadAndValidate(*rb, size).ok()) return false;
  const size_t start = rb->Tell() / 8;
  if ((int64_t)start + size != (int64_t)all.size()) return false;
  payload.assign(all.begin() + start, all.end());
  if (header) *header = h;
  return true;
}
struct RtResult { bool ok = false; bool identical = false; };
// `input` is the payload handed to the parser.  `canonical` tells whether the
// input uses only the encodings the writer would use, i.e. whether a
// byte-identical rewrite is required.
template <class Parse>
RtResult RoundTrip(const ObuHeader& header, const Bytes& input, bool canonical, Parse parse, int trailing = 2) {
  RtResult out;
  const int n = (int)input.size();
  auto rb = Reader(input);
  auto obu = parse(header, (int64_t)n, *rb);
  if (trailing) {
    Bytes longer = input;
    Bytes extra = SymBytes(trailing, "after");
    longer.insert(longer.end(), extra.begin(), extra.end());
    auto rb2 = Reader(longer);
    auto obu2 = parse(header, (int64_t)n, *rb2);
    sym_assert(obu.ok() == obu2.ok(), "bytes after the OBU do not decide whether it is accepted");
    if (obu2.ok()) sym_assert(rb2->Tell() == 8 * n, "exactly the declared payload is consumed");
    if (obu.ok() && obu2.ok()) {
      Bytes a, b;
      const bool wa = WrittenPayload(AsObu(*obu), a), wbk = WrittenPayload(AsObu(*obu2), b);
      sym_assert(wa == wbk && (!wa || SameBytes(a, b)), "bytes after the OBU do not change what is parsed");
    }
  }
  if (!obu.ok()) { sym_reach("rejected"); return out; }
  out.ok = true;
  sym_assert(rb->Tell() == 8 * n, "exactly the declared payload is consumed");
  Bytes w1;
  ObuHeader h1;
  const bool written = WrittenPayload(AsObu(*obu), w1, &h1);
  sym_assert(written, "a parsed OBU can be written back");
  if (!written) return out;
  sym_assert(w1.size() <= input.size(), "the rewritten payload is not longer than the parsed one");
  if (w1.size() == input.size()) {
    out.identical = true;
    sym_assert(SameBytes(w1, input), "the rewritten payload is byte-identical");
    sym_reach("identical");
  }
  if (canonical) sym_assert(w1.size() == input.size(), "a minimally encoded payload keeps its size");
  auto rb3 = Reader(w1);
  auto obu3 = parse(h1, (int64_t)w1.size(), *rb3);
  sym_assert(obu3.ok(), "a written payload parses");
  if (!obu3.ok()) return out;
  Bytes w2;
  sym_assert(WrittenPayload(AsObu(*obu3), w2) && SameBytes(w1, w2), "writing and parsing again changes nothing");
  sym_observe(w1.size());
  return out;
}
}  // namespace vh
#endif
