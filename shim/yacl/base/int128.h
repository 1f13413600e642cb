// Stand-in for yacl/base/int128.h (same observable interface, own code).
#pragma once
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <utility>
#include "absl/numeric/int128.h"
#include "fmt/format.h"
using int128_t = __int128;
using uint128_t = unsigned __int128;
namespace yacl {
inline constexpr uint128_t MakeUint128(uint64_t hi, uint64_t lo) {
  return (static_cast<uint128_t>(hi) << 64) | lo;
}
inline constexpr int128_t MakeInt128(int64_t hi, uint64_t lo) {
  return static_cast<int128_t>((static_cast<uint128_t>(static_cast<uint64_t>(hi)) << 64) | lo);
}
inline constexpr std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline constexpr std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64), static_cast<uint64_t>(v)};
}
inline constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
inline constexpr uint128_t Uint128Min() { return 0; }
inline constexpr int128_t Int128Max() { return static_cast<int128_t>(~static_cast<uint128_t>(0) >> 1); }
inline constexpr int128_t Int128Min() { return -Int128Max() - 1; }
inline std::string Uint128ToString(uint128_t v) {
  if (v == 0) return "0";
  std::string s;
  while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; }
  return s;
}
}  // namespace yacl
namespace std {
inline std::ostream& operator<<(std::ostream& os, uint128_t x) { return os << yacl::Uint128ToString(x); }
inline std::ostream& operator<<(std::ostream& os, int128_t x) {
  if (x < 0) return os << '-' << yacl::Uint128ToString(uint128_t(0) - static_cast<uint128_t>(x));
  return os << yacl::Uint128ToString(static_cast<uint128_t>(x));
}
#if defined(__STRICT_ANSI__)
template <> struct hash<uint128_t> {
  size_t operator()(uint128_t x) const noexcept {
    return std::hash<uint64_t>()(static_cast<uint64_t>(x)) * 31 + std::hash<uint64_t>()(static_cast<uint64_t>(x >> 64));
  }
};
template <> struct hash<int128_t> {
  size_t operator()(int128_t x) const noexcept { return hash<uint128_t>()(static_cast<uint128_t>(x)); }
};
#endif
}  // namespace std
