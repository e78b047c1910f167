// Variable-length integers: encode, decode, reject.
#include <cstdint>
#include <memory>
#include <vector>
#include "absl/status/status.h"
#include "absl/types/span.h"
#include "harness.h"
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
using namespace iamf_tools;

static int MinUleb(uint32_t v) {
  return v < (1u << 7) ? 1 : v < (1u << 14) ? 2 : v < (1u << 21) ? 3 : v < (1u << 28) ? 4 : 5;
}
static int MinSleb(int32_t v) {
  int64_t x = v;
  return x >= -64 && x < 64 ? 1 : x >= -8192 && x < 8192 ? 2 : x >= -(1 << 20) && x < (1 << 20) ? 3
       : x >= -(1 << 27) && x < (1 << 27) ? 4 : 5;
}
static void EncodeDecode(int mode) {  // 0 minimal, 1..8 fixed
  auto gen = mode == 0 ? LebGenerator::Create() : LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, (int8_t)mode);
  sym_assert(gen != nullptr, "legal generator modes are available");
  const uint32_t v = sym_u32("value");
  const int prefix = (int)sym_choose("prefix", 2) * 3;
  WriteBitBuffer wb(0, *gen);
  sym_assert(wb.WriteUnsignedLiteral(0, prefix).ok(), "prefix");
  absl::Status st = wb.WriteUleb128(v);
  const bool expect = mode == 0 || MinUleb(v) <= mode;
  sym_assert(st.ok() == expect, "a fixed size is refused exactly when the value does not fit");
  if (!st.ok()) { sym_reach("refused"); return; }
  const int64_t size = (wb.bit_offset() - prefix) / 8;
  sym_assert((wb.bit_offset() - prefix) % 8 == 0 && size == (mode == 0 ? MinUleb(v) : mode), "encoded size");
  sym_assert(wb.WriteUnsignedLiteral(0, 8 - prefix).ok(), "pad");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(wb.bit_buffer()));
  uint8_t p;
  sym_assert(rb->ReadUnsignedLiteral(prefix, p).ok(), "prefix");
  DecodedUleb128 out = 0;
  int8_t n = 0;
  sym_assert(rb->ReadULeb128(out, n).ok(), "an encoded value decodes");
  sym_assert(out == v, "an encoded value decodes to itself");
  sym_assert(n == size && rb->Tell() == prefix + 8 * size, "exactly the encoded bytes are consumed");
  sym_observe(out);
  sym_reach("uleb");
}
static void Signed(int mode) {
  auto gen = mode == 0 ? LebGenerator::Create() : LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, (int8_t)mode);
  const int32_t v = sym_i32("value");
  std::vector<uint8_t> b;
  absl::Status st = gen->Sleb128ToUint8Vector(v, b);
  const bool expect = mode == 0 || MinSleb(v) <= mode;
  sym_assert(st.ok() == expect, "a fixed signed size is refused exactly when the value does not fit");
  if (!st.ok()) return;
  sym_assert((int)b.size() == (mode == 0 ? MinSleb(v) : mode), "signed encoded size");
  int64_t acc = 0;
  int sh = 0;
  for (size_t i = 0; i < b.size(); i++) {
    sym_assert(((b[i] & 0x80) != 0) == (i + 1 < b.size()), "continuation bits");
    acc |= (int64_t)(b[i] & 0x7f) << sh;
    sh += 7;
  }
  if (b.back() & 0x40) acc |= -((int64_t)1 << sh);
  sym_assert(acc == v, "signed value decodes to itself");
  sym_reach("sleb");
}
static void Iso() {
  const uint32_t v = sym_u32("value");
  WriteBitBuffer wb(0);
  sym_assert(wb.WriteIso14496_1Expanded(v).ok(), "expandable size is written");
  sym_assert(wb.bit_offset() == 8 * MinUleb(v), "expandable size is minimal");
  const uint32_t max = sym_u32("max");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(wb.bit_buffer()));
  uint32_t out = 0;
  absl::Status st = rb->ReadIso14496_1Expanded(max, out);
  sym_assert(st.ok() == (v <= max), "a size is accepted exactly up to the class limit");
  if (st.ok()) {
    sym_assert(out == v && rb->Tell() == wb.bit_offset(), "expandable size decodes to itself");
    sym_reach("iso");
  }
}
// Arbitrary bytes decode to the mathematical value or are rejected.
static void Decode(bool iso) {
  uint8_t b[9];
  const int n = (int)sym_choose("len", 10);
  sym_make(b, 9, "bytes");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b, n));
  uint32_t out = 0xdeadbeef;
  int8_t used = 0;
  const uint32_t max = iso ? sym_u32("max") : 0xffffffffu;
  absl::Status st = iso ? rb->ReadIso14496_1Expanded(max, out) : rb->ReadULeb128(out, used);
  uint64_t acc = 0;
  int i = 0;
  bool term = false, over = false;
  for (; i < 8 && i < n && !term && !over; i++) {
    acc = iso ? (acc << 7 | (b[i] & 0x7f)) : (acc | (uint64_t)(b[i] & 0x7f) << (7 * i));
    term = !(b[i] & 0x80);
    over = acc > max;
  }
  const bool ok = term && !over;
  sym_assert(st.ok() == ok, "a byte string is accepted exactly when it terminates within eight bytes and is in range");
  if (ok) {
    sym_assert(out == acc, "decoded value");
    sym_assert(rb->Tell() == 8 * i, "consumed bytes");
    if (!iso) sym_assert(used == i, "reported size");
    sym_observe(out);
    sym_reach("decoded");
  } else {
    sym_reach("rejected");
  }
}
static void Generators() {
  const int8_t fs = sym_i8("fixed");
  auto g = LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fs);
  sym_assert((g != nullptr) == (fs >= 1 && fs <= 8), "fixed sizes one to eight exist");
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c < 9) EncodeDecode(c);
  else if (c < 18) Signed(c - 9);
  else if (c == 18) Iso();
  else if (c == 19) Decode(false);
  else if (c == 20) Decode(true);
  else Generators();
}
