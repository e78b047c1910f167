// Strings and byte arrays.
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "absl/status/status.h"
#include "absl/types/span.h"
#include "harness.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
using namespace iamf_tools;
static const int kLens[] = {0, 1, 2, 5, 126, 127, 128, 129};
static void Str(int len, int prefix) {
  std::string s(len, 'x');
  sym_make(s.data(), len, "chars");
  WriteBitBuffer wb(0);
  sym_assert(wb.WriteUnsignedLiteral(0, prefix).ok(), "prefix");
  absl::Status st = wb.WriteString(s);
  bool nul = false;
  for (int i = 0; i < len; i++) nul |= s[i] == 0;
  sym_assert(st.ok() == (len <= 127 && !nul), "a string is accepted exactly when it is short enough and has no embedded NUL");
  if (!st.ok()) { sym_reach("refused"); return; }
  sym_assert(wb.bit_offset() == prefix + 8 * (len + 1), "string size includes one terminator");
  sym_assert(wb.WriteUnsignedLiteral(0, (8 - prefix) % 8).ok(), "pad");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(wb.bit_buffer()));
  uint8_t p;
  sym_assert(rb->ReadUnsignedLiteral(prefix, p).ok(), "prefix");
  std::string o = "junk";
  sym_assert(rb->ReadString(o).ok(), "a written string reads back");
  sym_assert((int)o.size() == len, "string length");
  if ((int)o.size() == len) {
    bool same = true;
    for (int i = 0; i < len; i++) same &= o[i] == s[i];
    sym_assert(same, "string contents");
  }
  sym_assert(rb->Tell() == prefix + 8 * (len + 1), "string consumption");
  sym_reach("string");
}
static void Bytes(int len, int prefix) {
  std::vector<uint8_t> s(len);
  sym_make(s.data(), len, "bytes");
  uint8_t pre = sym_u8("pre");
  pre &= (1u << prefix) - 1;
  WriteBitBuffer wb(0);
  sym_assert(wb.WriteUnsignedLiteral(pre, prefix).ok(), "prefix");
  sym_assert(wb.WriteUint8Span(absl::MakeConstSpan(s)).ok(), "any byte array is accepted");
  sym_assert(wb.bit_offset() == prefix + 8 * len, "array size");
  sym_assert(wb.WriteUnsignedLiteral(0, (8 - prefix) % 8).ok(), "pad");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(wb.bit_buffer()));
  uint8_t p = 0;
  sym_assert(rb->ReadUnsignedLiteral(prefix, p).ok() && p == pre, "prefix preserved");
  std::vector<uint8_t> o(len, 7);
  sym_assert(rb->ReadUint8Span(absl::MakeSpan(o)).ok(), "a written array reads back");
  bool same = true;
  for (int i = 0; i < len; i++) same &= o[i] == s[i];
  sym_assert(same, "array contents");
  sym_assert(rb->Tell() == prefix + 8 * len, "array consumption");
  // One byte more than available is an error.
  std::vector<uint8_t> more(2);
  sym_assert(absl::IsResourceExhausted(rb->ReadUint8Span(absl::MakeSpan(more))), "reading past the end fails");
  sym_reach("bytes");
}
// Reading arbitrary bytes as a string.
static void ReadAny(int n) {
  std::vector<uint8_t> s(n);
  sym_make(s.data(), n, "bytes");
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(s));
  std::string o;
  absl::Status st = rb->ReadString(o);
  int z = 0;
  while (z < n && s[z] != 0) z++;
  sym_assert(st.ok() == (z < n && z < 128), "a string is accepted exactly when it terminates within 128 bytes");
  if (st.ok()) {
    sym_assert((int)o.size() == z, "string stops at the terminator");
    bool same = true;
    for (int i = 0; i < z; i++) same &= (uint8_t)o[i] == s[i];
    sym_assert(same, "string bytes");
    sym_assert(rb->Tell() == 8 * (z + 1), "string consumption");
    sym_observe(o.size());
    sym_reach("read_any");
  }
}
extern "C" void harness_main() {
  const int c = sym_case();
  if (c < 16) Str(kLens[c % 8], c < 8 ? 0 : 3);
  else if (c < 24) Bytes(c - 16, (c * 5) % 8);
  else if (c < 32) Bytes(5, c - 24);
  else ReadAny(c == 32 ? 6 : c == 33 ? 128 : c == 34 ? 130 : 0);
}
