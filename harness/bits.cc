// Literal write/read round trip and rejection of values that do not fit.
#include <cstdint>
#include <vector>
#include "absl/types/span.h"
#include "harness.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
using namespace iamf_tools;

// Independent oracle: bit `i` (MSB first) of the buffer.
static int BitAt(const std::vector<uint8_t>& b, int64_t i) { return (b[i / 8] >> (7 - i % 8)) & 1; }

static void Kinds(int prefix) {
  WriteBitBuffer wb(0);
  sym_assert(wb.WriteUnsignedLiteral(0, prefix).ok(), "prefix write must succeed");
  const int kind = (int)sym_choose("kind", 4);
  const int16_t v = sym_i16("v");
  absl::Status st;
  int n = 0;
  bool expect = true;
  switch (kind) {
    case 0: st = wb.WriteSigned16(v); n = 16; break;
    case 1: st = wb.WriteSigned9(v); n = 9; expect = v >= -256 && v < 256; break;
    case 2: st = wb.WriteSigned8((int8_t)v); n = 8; break;
    default: st = wb.WriteBoolean(v & 1); n = 1; break;
  }
  sym_assert(st.ok() == expect, "a signed value is accepted exactly when it fits");
  if (!st.ok()) return;
  sym_assert(wb.bit_offset() == prefix + n, "signed literal size");
  const uint32_t tail = sym_u8("tail");
  sym_assert(wb.WriteUnsignedLiteral(tail, 8).ok(), "following literal");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(wb.bit_buffer()));
  uint64_t p = 0;
  sym_assert(rb->ReadUnsignedLiteral(prefix, p).ok() && p == 0, "prefix reads back");
  int16_t o16 = 0;
  int8_t o8 = 0;
  bool b = false;
  switch (kind) {
    case 0: sym_assert(rb->ReadSigned16(o16).ok() && o16 == v, "signed 16-bit value reads back"); break;
    case 1: sym_assert(rb->ReadSigned9(o16).ok() && o16 == v, "signed 9-bit value reads back"); break;
    case 2: sym_assert(rb->ReadSigned8(o8).ok() && o8 == (int8_t)v, "signed 8-bit value reads back"); break;
    default: sym_assert(rb->ReadBoolean(b).ok() && b == (v & 1), "boolean reads back"); break;
  }
  uint8_t t = 0;
  sym_assert(rb->ReadUnsignedLiteral(8, t).ok() && t == tail, "following literal reads back");
  sym_assert(rb->Tell() == prefix + n + 8, "position after signed literal");
  sym_reach("kinds");
}
// Reads of too many bits for the destination, or a negative count.
static void BadReads() {
  uint8_t b[9];
  sym_make(b, 9, "bytes");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b, 9));
  const int n = sym_i32("n");
  sym_assume(n < -1 || n > 0);
  const unsigned w = sym_choose("dest", 4);
  uint64_t o64; uint32_t o32; uint16_t o16; uint8_t o8;
  const int max = 8 << w;
  sym_assume(n < 0 || n > max);
  absl::Status st = w == 3 ? rb->ReadUnsignedLiteral(n, o64) : w == 2 ? rb->ReadUnsignedLiteral(n, o32) : w == 1 ? rb->ReadUnsignedLiteral(n, o16) : rb->ReadUnsignedLiteral(n, o8);
  sym_assert(absl::IsInvalidArgument(st), "too many bits for the destination are refused");
  sym_assert(rb->Tell() == 0, "a refused read does not move");
  WriteBitBuffer wb(0);
  if (n < 0) sym_assert(!wb.WriteUnsignedLiteral(0, n).ok() && !wb.WriteUnsignedLiteral64(0, n).ok() && wb.bit_offset() == 0, "negative widths are refused");
}
extern "C" void harness_main() {
  if (sym_case() == 16) return BadReads();
  if (sym_case() >= 8) return Kinds(sym_case() - 8);
  // case = prefix bits (0..7).
  const int prefix = sym_case();
  const int n = (int)sym_choose("num_bits", 66);
  const bool wide = sym_bool("wide");
  const uint64_t v = sym_u64("value");
  WriteBitBuffer wb(0);
  uint32_t pre = sym_u8("prefix_bits");
  pre &= (1u << prefix) - 1;
  sym_assert(wb.WriteUnsignedLiteral(pre, prefix).ok(), "prefix write must succeed");
  absl::Status st = wide ? wb.WriteUnsignedLiteral64(v, n) : wb.WriteUnsignedLiteral((uint32_t)v, n);
  const uint64_t val = wide ? v : (uint32_t)v;
  const int max = wide ? 64 : 32;
  const bool expect = n <= max && (n == 0 || n == 64 || (val >> n) == 0);
  sym_assert(st.ok() == expect || n == 0, "a literal is accepted exactly when it fits in the requested bits");
  if (!st.ok()) { sym_reach("rejected"); return; }
  sym_assert(wb.bit_offset() == prefix + n, "bit offset advances by the written bits");
  const std::vector<uint8_t>& b = wb.bit_buffer();
  sym_assert((int64_t)b.size() * 8 >= wb.bit_offset(), "buffer covers all bits");
  for (int i = 0; i < n; i++) sym_assert(BitAt(b, prefix + i) == (int)((val >> (n - 1 - i)) & 1), "bits are written MSB first");
  for (int i = 0; i < prefix; i++) sym_assert(BitAt(b, i) == (int)((pre >> (prefix - 1 - i)) & 1), "earlier bits are preserved");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b));
  uint64_t p = 0, out = 0;
  sym_assert(rb->ReadUnsignedLiteral(prefix, p).ok() && p == pre, "prefix reads back");
  if (n == 0) return;
  if (wide) {
    sym_assert(rb->ReadUnsignedLiteral(n, out).ok(), "written literal can be read");
  } else {
    uint32_t o32 = 0;
    sym_assert(rb->ReadUnsignedLiteral(n, o32).ok(), "written literal can be read");
    out = o32;
  }
  sym_assert(out == val, "written literal reads back equal");
  sym_assert(rb->Tell() == prefix + n, "reader position matches");
  sym_observe(out);
  sym_reach("roundtrip");
}
