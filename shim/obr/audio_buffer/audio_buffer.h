// Stand-in for the third-party binaural renderer's sample buffer.
#ifndef VERIF_OBR_AUDIO_BUFFER_H_
#define VERIF_OBR_AUDIO_BUFFER_H_
#include <cstddef>
#include <vector>
namespace obr {
class AudioBuffer {
 public:
  class Channel {
   public:
    explicit Channel(size_t n) : v_(n, 0.0f) {}
    size_t size() const { return v_.size(); }
    float& operator[](size_t i) { return v_.data()[Checked(i)]; }
    const float& operator[](size_t i) const { return v_.data()[Checked(i)]; }
    float* begin() { return v_.data(); }
    float* end() { return v_.data() + v_.size(); }
    const float* begin() const { return v_.data(); }
    const float* end() const { return v_.data() + v_.size(); }
    void Clear() { for (float& x : v_) x = 0.0f; }

   private:
    size_t Checked(size_t i) const {
      if (i >= v_.size()) __builtin_trap();
      return i;
    }
    std::vector<float> v_;
  };
  AudioBuffer(size_t channels, size_t frames) : frames_(frames), c_(channels, Channel(frames)) {}
  size_t num_channels() const { return c_.size(); }
  size_t num_frames() const { return frames_; }
  Channel& operator[](size_t i) { return c_.at(i); }
  const Channel& operator[](size_t i) const { return c_.at(i); }
  Channel* begin() { return c_.data(); }
  Channel* end() { return c_.data() + c_.size(); }
  const Channel* begin() const { return c_.data(); }
  const Channel* end() const { return c_.data() + c_.size(); }
  void Clear() { for (auto& c : c_) c.Clear(); }

 private:
  size_t frames_;
  std::vector<Channel> c_;
};
}  // namespace obr
#endif
