// OBU headers: write/read round trip, acceptance of arbitrary bytes, peeking.
#include <limits>
#include "obu_common.h"
using namespace iamf_tools;
using namespace vh;
static bool Audio(uint8_t t) { return t >= 5 && t <= 23; }
// Sizes of the ULEB128 encoding with the selected generator; 0 = impossible.
static int LebSize(uint32_t v, int fixed) {
  int n = 1;
  for (uint32_t x = v >> 7; x; x >>= 7) n++;
  if (!fixed) return n;
  return n <= fixed ? fixed : 0;
}
static void WriteRead(int fixed, int ext) {
  ObuHeader h;
  const uint8_t t = sym_u8("type") & 31;
  h.obu_type = (ObuType)t;
  h.obu_redundant_copy = sym_bool("redundant");
  h.type_specific_flag = sym_bool("specific");
  h.num_samples_to_trim_at_end = sym_u32("trim_end");
  h.num_samples_to_trim_at_start = sym_u32("trim_start");
  if (ext >= 0) h.extension_header_bytes = SymBytes(ext, "ext");
  const int64_t payload = sym_i64("payload");
  auto gen = fixed ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fixed) : LebGenerator::Create();
  WriteBitBuffer wb(0, *gen);
  const absl::Status st = h.ValidateAndWrite(payload, wb);
  // Specification.
  const bool trim = Audio(t) && h.type_specific_flag;
  int64_t fields = 0;
  bool ok = payload >= 0 && payload <= 0xffffffffll;
  if (trim) {
    const int a = LebSize(h.num_samples_to_trim_at_end, fixed), b = LebSize(h.num_samples_to_trim_at_start, fixed);
    ok = ok && a && b;
    fields += a + b;
  }
  if (ext >= 0) {
    const int a = LebSize(ext, fixed);
    ok = ok && a;
    fields += a + ext;
  }
  int size_size = 0;
  if (ok) {
    const int64_t obu_size = payload + fields;
    ok = obu_size <= (1 << 21);
    if (ok) {
      size_size = LebSize((uint32_t)obu_size, fixed);
      ok = size_size && obu_size + size_size + 1 <= (1 << 21);
    }
  }
  ok = ok && !(h.obu_redundant_copy && (Audio(t) || t == 3 || t == 4));
  ok = ok && !(h.type_specific_flag && !(Audio(t) || t == 4 || t == 2));
  sym_assert(st.ok() == ok, "a header is accepted exactly when its flags are legal and the OBU fits in 2 MB");
  if (!st.ok()) { sym_reach("refused"); return; }
  sym_assert(wb.bit_offset() == 8 * (1 + size_size + fields), "header size");
  Bytes bytes = wb.bit_buffer();
  auto rb = Reader(bytes);
  auto peek = ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
  sym_assert(peek.ok() && peek->obu_type == t, "peeked type");
  if (peek.ok()) sym_assert(peek->total_obu_size == (int64_t)bytes.size() + payload, "peeked total size");
  sym_assert(rb->Tell() == 0, "peeking leaves the position");
  ObuHeader o;
  int64_t p2 = -1;
  sym_assert(o.ReadAndValidate(*rb, p2).ok(), "a written header reads back");
  sym_assert(p2 == payload, "payload size");
  sym_assert(rb->Tell() == wb.bit_offset(), "reader stands at the payload");
  sym_assert(o.obu_type == h.obu_type && o.obu_redundant_copy == h.obu_redundant_copy && o.type_specific_flag == h.type_specific_flag, "header flags");
  sym_assert(o.GetObuTrimmingStatusFlag() == trim, "trimming flag");
  sym_assert(o.GetOptionalFieldsFlag() == (t == 2 && h.type_specific_flag), "optional fields flag");
  sym_assert(o.GetIsKeyFrame() == (t == 4 && !h.type_specific_flag), "key frame flag");
  sym_assert(o.num_samples_to_trim_at_end == (trim ? h.num_samples_to_trim_at_end : 0), "trim at end");
  sym_assert(o.num_samples_to_trim_at_start == (trim ? h.num_samples_to_trim_at_start : 0), "trim at start");
  sym_assert(o.GetExtensionHeaderFlag() == (ext >= 0), "extension flag");
  if (ext >= 0 && o.extension_header_bytes) sym_assert(SameBytes(*o.extension_header_bytes, *h.extension_header_bytes), "extension bytes");
  sym_reach(trim ? "trim" : "plain");
  sym_observe(rb->Tell());
}
// Reading any bytes.
static void ReadAny(int n) {
  Bytes b = SymBytes(n, "bytes");
  auto rb = Reader(b);
  auto peek = ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
  sym_assert(rb->Tell() == 0, "peeking leaves the position");
  size_t pos = 1;
  uint32_t size = 0;
  const bool peek_ok = n >= 1 && RefUleb(b, pos, size);
  sym_assert(peek.ok() == peek_ok, "a header can be peeked exactly when type and size are present");
  const uint8_t t = n ? b[0] >> 3 : 0;
  const size_t base = pos;
  const int64_t total = peek_ok ? (int64_t)pos + size : 0;
  if (peek.ok() && peek_ok) {
    sym_assert(peek->obu_type == t, "peeked type");
    sym_assert(peek->total_obu_size == total, "peeked total size");
    sym_reach("peek");
  }
  ObuHeader o;
  int64_t payload = -1;
  const absl::Status st = o.ReadAndValidate(*rb, payload);
  bool ok = peek_ok && total <= (1 << 21);
  const bool redundant = n && (b[0] & 4), specific = n && (b[0] & 2), ext = n && (b[0] & 1);
  uint32_t te = 0, ts = 0, es = 0;
  if (ok && Audio(t) && specific) ok = RefUleb(b, pos, te) && RefUleb(b, pos, ts);
  if (ok && ext) ok = RefUleb(b, pos, es);
  if (ok) ok = (int64_t)es <= (int64_t)(n - pos);
  if (ok) pos += es;
  if (ok) ok = (int64_t)pos - (int64_t)base <= (int64_t)size;
  ok = ok && !(redundant && (Audio(t) || t == 3 || t == 4));
  ok = ok && !(specific && !(Audio(t) || t == 4 || t == 2));
  sym_assert(st.ok() == ok, "a header is accepted exactly when the declared size covers its optional fields");
  if (!st.ok() || !ok) { sym_reach("rejected"); return; }
  sym_assert(rb->Tell() == (int64_t)pos * 8, "reader stands at the payload");
  sym_assert((int64_t)pos + payload == total, "header and payload make up the whole OBU");
  sym_assert(o.obu_type == t && o.obu_redundant_copy == redundant && o.type_specific_flag == specific, "flags");
  sym_assert(o.num_samples_to_trim_at_end == te && o.num_samples_to_trim_at_start == ts, "trims");
  sym_assert(o.GetExtensionHeaderFlag() == ext && o.GetExtensionHeaderSize() == es, "extension size");
  if (ext) {
    bool same = true;
    for (uint32_t i = 0; i < es; i++) same &= (*o.extension_header_bytes)[i] == b[pos - es + i];
    sym_assert(same, "extension bytes");
    sym_reach("extension");
  }
  sym_observe(payload);
  sym_reach("accepted");
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c < 20) WriteRead((c % 5) == 0 ? 0 : (c % 5) == 1 ? 1 : (c % 5) == 2 ? 2 : (c % 5) == 3 ? 5 : 8, (c / 5) - 1);
  else if (c < 22) WriteRead(c == 20 ? 0 : 3, 200);
  else ReadAny(c - 22);
}
