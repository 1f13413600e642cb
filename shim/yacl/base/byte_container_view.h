// Stand-in for yacl/base/byte_container_view.h.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include "yacl/base/exception.h"
namespace yacl {
class ByteContainerView {
 public:
  using value_type = uint8_t;
  using const_iterator = const uint8_t*;
  constexpr ByteContainerView() noexcept = default;
  constexpr ByteContainerView(const ByteContainerView&) noexcept = default;
  constexpr ByteContainerView& operator=(const ByteContainerView&) noexcept = default;
  ByteContainerView(const void* p, size_t n) : p_(static_cast<const uint8_t*>(p)), n_(n) {}
  ByteContainerView(const char* s) : p_(reinterpret_cast<const uint8_t*>(s)), n_(std::strlen(s)) {}
  template <typename T,
            typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ByteContainerView>>,
            typename P = std::remove_pointer_t<decltype(std::declval<const T&>().data())>,
            typename = decltype(std::declval<const T&>().size())>
  ByteContainerView(const T& c)
      : p_(reinterpret_cast<const uint8_t*>(c.data())),
        n_(static_cast<size_t>(c.size()) * SizeOf<P>()) {}
  [[nodiscard]] const uint8_t* data() const noexcept { return p_; }
  [[nodiscard]] size_t size() const noexcept { return n_; }
  [[nodiscard]] size_t length() const noexcept { return n_; }
  [[nodiscard]] bool empty() const noexcept { return n_ == 0; }
  const_iterator begin() const { return p_; }
  const_iterator end() const { return p_ + n_; }
  const_iterator cbegin() const { return p_; }
  const_iterator cend() const { return p_ + n_; }
  const uint8_t& operator[](size_t i) const { return p_[i]; }
  const uint8_t& at(size_t i) const { YACL_ENFORCE(i < n_); return p_[i]; }
  ByteContainerView subspan(size_t off, size_t n) const { return {p_ + off, n}; }
  ByteContainerView first(size_t n) const { return {p_, n}; }
  bool operator==(const ByteContainerView& o) const { return n_ == o.n_ && (n_ == 0 || std::memcmp(p_, o.p_, n_) == 0); }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }
  explicit operator std::string() const { return std::string(reinterpret_cast<const char*>(p_), n_); }
  explicit operator std::string_view() const { return std::string_view(reinterpret_cast<const char*>(p_), n_); }
 private:
  template <typename P> static constexpr size_t SizeOf() {
    if constexpr (std::is_void_v<P>) return 1; else return sizeof(P);
  }
  const uint8_t* p_ = nullptr;
  size_t n_ = 0;
};
inline std::ostream& operator<<(std::ostream& os, const ByteContainerView& v) { return os << static_cast<std::string_view>(v); }
}  // namespace yacl
