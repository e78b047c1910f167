// Reader position / seek / buffering against an independent bit-array model.
#include <cstdint>
#include <memory>
#include <vector>
#include "absl/status/status.h"
#include "absl/types/span.h"
#include "harness.h"
#include "iamf/common/read_bit_buffer.h"
using namespace iamf_tools;
#ifndef OPS
#define OPS 3
#endif
static constexpr int kSrc = 12;
static uint8_t src[kSrc];
static uint64_t Bits(int64_t pos, int n) {
  uint64_t r = 0;
  for (int i = 0; i < n; i++) r = (r << 1) | ((src[(pos + i) / 8] >> (7 - (pos + i) % 8)) & 1);
  return r;
}
// cases: 0..3 stream capacity; 4 memory
extern "C" void harness_main() {
  static const int caps[] = {1, 2, 3, 5};
  const int cs = sym_case() / 12;
  sym_make(src, kSrc, "src");
  std::unique_ptr<ReadBitBuffer> rb;
  StreamBasedReadBitBuffer* stream = nullptr;
  int64_t pushed = 0;   // bytes of src available so far
  int64_t base = 0;     // absolute byte at which reader position 0 lies
  if (cs < 4) {
    auto s = StreamBasedReadBitBuffer::Create(caps[cs]);
    stream = s.get();
    rb = std::move(s);
    int first = (int)sym_choose("first_push", 2) * 4 + 1;
    sym_assert(stream->PushBytes(absl::MakeConstSpan(src, first)).ok(), "push within the limit succeeds");
    pushed = first;
  } else {
    int n = (int)sym_choose("source_size", 7);
    rb = MemoryBasedReadBitBuffer::CreateFromSpan(absl::MakeConstSpan(src, n));
    pushed = n;
  }
  int64_t pos = 0;      // absolute bit position
  int64_t saved = 0;    // absolute bit position remembered
  bool saved_valid = false;
  for (int op = 0; op < OPS; op++) {
    const unsigned k = op == 0 ? sym_case() % 12 : sym_choose("op", stream ? 12 : 10);
    if (!stream && k >= 10) return;
    if (k < 6) {
      static const int widths[] = {1, 3, 8, 11, 24, 37};
      const int n = widths[k];
      uint64_t v = 0;
      absl::Status st = rb->ReadUnsignedLiteral(n, v);
      if (pos + n <= pushed * 8) {
        sym_assert(st.ok(), "a read within the source succeeds");
        sym_assert(v == Bits(pos, n), "the bits at the reported position are returned");
        pos += n;
        sym_reach("read");
      } else {
        sym_assert(absl::IsResourceExhausted(st), "running out of data is resource-exhausted");
        sym_reach("exhausted");
      }
    } else if (k == 6) {
      const int64_t t = rb->Tell();
      sym_assert(t == pos - base * 8, "reported position");
      saved = pos;
      saved_valid = true;
    } else if (k == 7) {
      if (!saved_valid) { sym_stop(); }
      sym_assert(rb->Seek(saved - base * 8).ok(), "seeking back to a reported position succeeds");
      pos = saved;
      sym_reach("seek");
    } else if (k == 8) {
      const int m = 1 + (int)sym_choose("skip", 2);
      absl::Status st = rb->IgnoreBytes(m);
      if (pos + 8 * m <= pushed * 8) {
        sym_assert(st.ok(), "skipping within the source succeeds");
        pos += 8 * m;
      } else {
        sym_assert(absl::IsResourceExhausted(st), "skipping past the end is resource-exhausted");
      }
    } else if (k == 9) {
      // A few concrete targets, or any target at all as the last operation.
      static const int offs[] = {0, 5, 8, 19};
      const unsigned where = sym_choose("where", op == OPS - 1 ? 5 : 4);
      const int64_t t = where < 4 ? offs[where] : sym_i64("target");
      absl::Status st = rb->Seek(t);
      if (t < 0) sym_assert(absl::IsInvalidArgument(st) || absl::IsFailedPrecondition(st), "negative position rejected");
      else if (t > pushed * 8 - base * 8) sym_assert(absl::IsResourceExhausted(st) || absl::IsFailedPrecondition(st), "position past the end rejected");
      else sym_assert(st.ok() || absl::IsFailedPrecondition(st), "position inside the source accepted");
      sym_assert(!absl::IsFailedPrecondition(st) || stream, "seeking is disabled only after a flush");
      if (where == 4) {
        if (st.ok()) sym_assert(rb->Tell() == t, "position after seeking");
        return;
      }
      if (st.ok()) {
        pos = t + base * 8;
        sym_reach("seek_any");
      }
    } else if (k == 10) {
      const int m = (int)(kSrc - pushed < 3 ? kSrc - pushed : 3);
      sym_assert(stream->PushBytes(absl::MakeConstSpan(src + pushed, m)).ok(), "push within the limit succeeds");
      pushed += m;
    } else {
      stream->Flush();
      base += (pos - base * 8) / 8;
      saved_valid = false;
      // A position from before the flush must not be usable silently.
      absl::Status st = rb->Seek(0);
      sym_assert(absl::IsFailedPrecondition(st), "positions from before a flush are refused");
      sym_reach("flush");
    }
    sym_assert(rb->Tell() == pos - base * 8, "position after the operation");
    sym_assert(rb->NumBytesAvailable() == (pushed * 8 - pos) / 8 || pos % 8 != 0, "whole bytes left");
    sym_assert(rb->IsDataAvailable() == (rb->NumBytesAvailable() > 0), "data-available agrees with the count");
    sym_assert(rb->NumBytesAvailable() * 8 <= pushed * 8 - pos, "never reports more than is left");
  }
  // Whatever happened, the rest of the source is still readable bit by bit.
  if (pos < pushed * 8) {
    uint64_t v = 0;
    sym_assert(rb->ReadUnsignedLiteral(1, v).ok(), "a remaining bit is readable");
    sym_assert(v == Bits(pos, 1), "a remaining bit has the source value");
    sym_observe(v);
  }
}
