// Shared helpers for the OBU harnesses.
#ifndef VERIF_OBU_COMMON_H_
#define VERIF_OBU_COMMON_H_
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/types/span.h"
#include "harness.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/obu_base.h"
#include "iamf/obu/obu_header.h"
#include "iamf/obu/types.h"
namespace vh {
using namespace iamf_tools;
using Bytes = std::vector<uint8_t>;
inline Bytes SymBytes(int n, const char* name) {
  Bytes b(n);
  sym_make(b.data(), n, name);
  return b;
}
inline bool SameBytes(const Bytes& a, const Bytes& b) {
  if (a.size() != b.size()) return false;
  bool same = true;
  for (size_t i = 0; i < a.size(); i++) same &= a[i] == b[i];
  return same;
}
inline bool SamePrefix(const Bytes& a, const Bytes& b, size_t n) {
  if (a.size() < n || b.size() < n) return false;
  bool same = true;
  for (size_t i = 0; i < n; i++) same &= a[i] == b[i];
  return same;
}
// Independent ULEB128 reader: false when truncated, longer than 8 bytes or
// larger than 32 bits.  `minimal` reports a shortest-possible encoding.
inline bool RefUleb(const Bytes& b, size_t& pos, uint32_t& value, bool* minimal = nullptr) {
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) {
    if (pos >= b.size()) return false;
    const uint8_t x = b[pos++];
    v |= (uint64_t)(x & 127) << (7 * i);
    if (!(x & 128)) {
      if (minimal && i > 0 && x == 0) *minimal = false;
      value = (uint32_t)v;
      return v <= 0xffffffffu;
    }
  }
  return false;
}
inline void PutUleb(Bytes& b, uint32_t v) {
  while (v >= 128) { b.push_back(v | 128); v >>= 7; }
  b.push_back(v);
}
inline std::unique_ptr<MemoryBasedReadBitBuffer> Reader(const Bytes& b) {
  return MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(b));
}
// True when no byte pattern of the input can be a non-minimal ULEB128 tail.
inline bool NoPaddedLeb(const Bytes& b, size_t n) {
  bool ok = true;
  for (size_t i = 1; i < n; i++) ok &= !(b[i] == 0 && b[i - 1] >= 128);
  return ok;
}
// Header object of a given type with the default flags.
inline ObuHeader Hdr(ObuType t) {
  ObuHeader h;
  h.obu_type = t;
  return h;
}
// Splits a written OBU (as produced by ValidateAndWriteObu) into its header
// and payload with the library's own header reader.
inline bool ReadHeader(ReadBitBuffer& rb, ObuHeader& h, int64_t& payload) {
  return h.ReadAndValidate(rb, payload).ok();
}
}  // namespace vh
#endif
