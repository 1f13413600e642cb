// Stand-in for yacl/base/buffer.h.
#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "yacl/base/byte_container_view.h"
namespace yacl {
class Buffer final {
 public:
  using value_type = uint8_t;
  Buffer() = default;
  explicit Buffer(int64_t n) : Buffer(static_cast<size_t>(n), 0) {}
  explicit Buffer(size_t n) : Buffer(n, 0) {}
  explicit Buffer(int n) : Buffer(static_cast<size_t>(n), 0) {}
  explicit Buffer(unsigned n) : Buffer(static_cast<size_t>(n), 0) {}
  Buffer(const void* p, size_t n) : v_(n) { if (n) std::memcpy(v_.data(), p, n); }
  Buffer(void* p, size_t n, const std::function<void(void*)>& d) : Buffer(static_cast<const void*>(p), n) { if (d) d(p); }
  Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  Buffer(ByteContainerView b) : Buffer(b.data(), b.size()) {}
  template <typename T> [[nodiscard]] T* data() { return reinterpret_cast<T*>(ptr()); }
  template <typename T> [[nodiscard]] const T* data() const { return reinterpret_cast<const T*>(ptr()); }
  void* data() { return ptr(); }
  const void* data() const { return ptr(); }
  uint8_t& operator[](size_t i) { return v_[i]; }
  const uint8_t& operator[](size_t i) const { return v_[i]; }
  void* release() { void* p = std::malloc(v_.size() ? v_.size() : 1); std::memcpy(p, v_.data(), v_.size()); v_.clear(); return p; }
  [[nodiscard]] int64_t size() const { return static_cast<int64_t>(v_.size()); }
  [[nodiscard]] int64_t capacity() const { return static_cast<int64_t>(v_.capacity()); }
  [[nodiscard]] bool empty() const { return v_.empty(); }
  void resize(int64_t n) { v_.resize(static_cast<size_t>(n)); }
  void reserve(int64_t n) { v_.reserve(static_cast<size_t>(n)); }
  void reset() { v_.clear(); }
  bool operator==(const Buffer& o) const { return v_ == o.v_; }
  bool operator!=(const Buffer& o) const { return v_ != o.v_; }
  // NB: std::string_view conversions exist in the original.
  operator std::string_view() const { return {reinterpret_cast<const char*>(ptr()), v_.size()}; }
 private:
  struct Uninit { size_t n; };
  Buffer(size_t n, int) : v_(n) {}
  uint8_t* ptr() { return v_.data(); }
  const uint8_t* ptr() const { return v_.data(); }
  std::vector<uint8_t> v_;
};
inline std::ostream& operator<<(std::ostream& os, const Buffer& b) { return os << static_cast<std::string_view>(b); }
}  // namespace yacl
