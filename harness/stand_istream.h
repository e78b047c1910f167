// A stand-in for std::istream over bytes in memory, for the symbolic engine.
// The native replay uses the library's own stream, so every replayed input
// compares the two. `seek_past_end` says whether the stream, like a file, can
// be positioned beyond its end, or, like a string, refuses it. A stream can
// have a gap of any length after its first `gap_at` bytes: positions inside it
// exist, but reading there ends the stream (nothing that is looked for lies in
// the gap).
#ifndef VERIF_STAND_ISTREAM_H_
#define VERIF_STAND_ISTREAM_H_
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <complex>
#include <random>
#include <iostream>
#include <istream>
#include <sstream>
#include <streambuf>
#include <vector>
#include "harness.h"
#ifdef VERIF_ENGINE
namespace std {
class VerifIstream {
 public:
  VerifIstream(std::vector<uint8_t> b, bool seek_past_end, std::streamoff gap_at = 0, std::streamoff gap = 0) : b_(std::move(b)), past_(seek_past_end), gap_at_(gap_at), gap_(gap) {}
  VerifIstream& read(char* p, std::streamsize n) {
    gcount_ = 0;
    if (!good()) { state_ |= 4; return *this; }
    std::streamsize have = 0;
    const std::streamoff at = At(&have);
    if (have < n) state_ |= 2 | 4; else have = n;
    if (have > 0) std::memcpy(p, b_.data() + at, have);
    gcount_ = have > 0 ? have : 0;
    pos_ += gcount_;
    return *this;
  }
  int get() {
    char c;
    read(&c, 1);
    return gcount_ ? (uint8_t)c : -1;
  }
  int peek() {
    gcount_ = 0;
    if (!good()) { state_ |= 4; return -1; }
    std::streamsize have = 0;
    const std::streamoff at = At(&have);
    if (have <= 0) { state_ |= 2; return -1; }
    return b_[at];
  }
  VerifIstream& ignore(std::streamsize n = 1, int = -1) {
    gcount_ = 0;
    if (!good()) { state_ |= 4; return *this; }
    std::streamsize have = pos_ < Size() ? Size() - pos_ : 0;
    if (have < n) state_ |= 2; else have = n;
    gcount_ = have;
    pos_ += have;
    return *this;
  }
  VerifIstream& seekg(std::streamoff p) { return Seek(p); }
  VerifIstream& seekg(std::streamoff o, std::ios_base::seekdir d) {
    return Seek((d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? pos_ : Size()) + o);
  }
  std::streamoff tellg() {
    if (!good()) state_ |= 4;
    return fail() ? -1 : pos_;
  }
  void clear() { state_ = 0; }
  std::streamsize gcount() const { return gcount_; }
  bool good() const { return state_ == 0; }
  bool eof() const { return state_ & 2; }
  bool fail() const { return state_ & 4; }
  bool bad() const { return false; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }

 private:
  std::streamoff Size() const { return (std::streamoff)b_.size() + gap_; }
  // Index of the byte at the position, and how many follow without a gap.
  std::streamoff At(std::streamsize* have) const {
    if (gap_ == 0 || pos_ >= gap_at_ + gap_) {
      const std::streamoff at = pos_ - gap_;
      if (at >= (std::streamoff)b_.size()) { *have = 0; return 0; }
      const std::streamoff c = (std::streamoff)sym_concretize(at);
      *have = (std::streamoff)b_.size() - c;
      return c;
    }
    if (pos_ >= gap_at_) { *have = 0; return 0; }
    const std::streamoff c = (std::streamoff)sym_concretize(pos_);
    *have = gap_at_ - c;
    return c;
  }
  VerifIstream& Seek(std::streamoff to) {
    state_ &= ~2;
    if (state_) return *this;
    if (to < 0 || (!past_ && to > Size())) { state_ |= 4; return *this; }
    pos_ = gap_ != 0 || to > Size() ? to : (std::streamoff)sym_concretize(to);
    return *this;
  }
  std::vector<uint8_t> b_;
  bool past_;
  std::streamoff gap_at_, gap_;
  int state_ = 0;
  std::streamoff pos_ = 0;
  std::streamsize gcount_ = 0;
};
}  // namespace std
#define istream VerifIstream
typedef std::VerifIstream TestStream;
#else
class TestBuf : public std::streambuf {
 public:
  TestBuf(std::vector<uint8_t> b, bool past, off_type gap_at, off_type gap) : b_(std::move(b)), past_(past), gap_at_(gap_at), gap_(gap) {}
 protected:
  off_type Size() const { return (off_type)b_.size() + gap_; }
  // Bytes available at the position without crossing the gap.
  off_type Have(off_type* at) const {
    if (gap_ == 0 || pos_ >= gap_at_ + gap_) { *at = pos_ - gap_; return *at < (off_type)b_.size() ? (off_type)b_.size() - *at : 0; }
    *at = pos_;
    return pos_ >= gap_at_ ? 0 : gap_at_ - pos_;
  }
  int_type underflow() override { off_type at; return Have(&at) > 0 ? b_[at] : -1; }
  int_type uflow() override {
    off_type at;
    if (Have(&at) > 0) { pos_++; return b_[at]; }
    return -1;
  }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    off_type at;
    const off_type have = Have(&at);
    n = have < n ? have : n;
    if (n > 0) std::memcpy(p, b_.data() + at, n);
    pos_ += n;
    return n;
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    off_type to = (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? pos_ : Size()) + o;
    if (to < 0 || (!past_ && to > Size())) return pos_type(off_type(-1));
    return pos_ = to;
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(p, std::ios_base::beg, m); }
  std::vector<uint8_t> b_;
  bool past_;
  off_type gap_at_, gap_;
  off_type pos_ = 0;
};
class TestStream : private TestBuf, public std::istream {
 public:
  TestStream(std::vector<uint8_t> b, bool past, std::streamoff gap_at = 0, std::streamoff gap = 0) : TestBuf(std::move(b), past, gap_at, gap), std::istream(static_cast<TestBuf*>(this)) {}
};
#endif
#endif
