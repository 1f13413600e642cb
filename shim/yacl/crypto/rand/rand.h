// Stand-in for yacl/crypto/rand/rand.h.  All randomness is drawn from one
// deterministic, seedable generator so that every execution can be replayed.
#pragma once
#include "yacl/base/buffer.h"
#include <random>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace shim {
inline uint64_t& RngSeed() { static uint64_t s = 0x9E3779B97F4A7C15ULL; return s; }
inline uint64_t& RngCtr() { static uint64_t s = 0; return s; }
inline uint64_t Mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
// not part of the code under test: no scheduling points here
__attribute__((no_sanitize("thread"))) inline uint64_t RngNext() { uint64_t s = RngSeed(); return Mix64(Mix64(s + 0x9E3779B97F4A7C15ULL * __atomic_add_fetch(&RngCtr(), 1, __ATOMIC_RELAXED)) + s); }
__attribute__((no_sanitize("thread"))) inline void RngReset(uint64_t seed) { RngSeed() = Mix64(seed + 0x1234567ULL); __atomic_store_n(&RngCtr(), 0, __ATOMIC_RELAXED); }
inline void RngBytes(void* p, size_t n) {
  auto* b = static_cast<uint8_t*>(p);
  while (n) { uint64_t r = RngNext(); size_t k = n < 8 ? n : 8; std::memcpy(b, &r, k); b += k; n -= k; }
}
}  // namespace shim
namespace yacl::crypto {
inline uint64_t SecureRandU64() { return shim::RngNext(); }
inline uint64_t FastRandU64() { return shim::RngNext(); }
inline uint64_t RandU64(bool = false) { return shim::RngNext(); }
inline uint32_t SecureRandU32() { return static_cast<uint32_t>(shim::RngNext()); }
inline uint32_t FastRandU32() { return static_cast<uint32_t>(shim::RngNext()); }
inline uint32_t RandU32(bool = false) { return static_cast<uint32_t>(shim::RngNext()); }
inline uint128_t RandU128(bool = false) { uint64_t a = shim::RngNext(), b = shim::RngNext(); return MakeUint128(a, b); }
inline uint128_t SecureRandU128() { return RandU128(); }
inline uint128_t FastRandU128() { return RandU128(); }
inline uint128_t SecureRandSeed() { return RandU128(); }
inline uint128_t FastRandSeed() { return RandU128(); }
inline uint128_t RandSeed(bool = false) { return RandU128(); }
inline std::vector<uint8_t> RandBytes(uint64_t n, bool = false) { std::vector<uint8_t> v(n); shim::RngBytes(v.data(), n); return v; }
inline std::vector<uint8_t> SecureRandBytes(uint64_t n) { return RandBytes(n); }
inline std::vector<uint8_t> FastRandBytes(uint64_t n) { return RandBytes(n); }
inline void FillRand(char* buf, size_t len, bool = false) { shim::RngBytes(buf, len); }
inline bool RandBool() { return shim::RngNext() & 1; }
template <typename T = dynamic_bitset<uint128_t>>
inline T RandBits(uint64_t n, bool = false) { T v; v.resize(n); for (uint64_t i = 0; i < n; ++i) v.set(i, shim::RngNext() & 1); return v; }
template <typename T = dynamic_bitset<uint128_t>>
inline T SecureRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T = dynamic_bitset<uint128_t>>
inline T FastRandBits(uint64_t n) { return RandBits<T>(n); }
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
std::vector<T> RandVec(uint64_t n, bool = false) { std::vector<T> v(n); shim::RngBytes(v.data(), n * sizeof(T)); return v; }
template <typename T> std::vector<T> SecureRandVec(uint64_t n) { return RandVec<T>(n); }
template <typename T> std::vector<T> FastRandVec(uint64_t n) { return RandVec<T>(n); }
// A uniform bit generator replayable from (seed, counter).
template <typename T>
class YaclReplayUrbg {
 public:
  using result_type = T;
  YaclReplayUrbg(uint128_t seed, uint64_t ctr = 0) : seed_(seed), ctr_(ctr) {}
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() {
    auto [h, l] = DecomposeUInt128(seed_);
    uint64_t r = shim::Mix64(shim::Mix64(l + 0x9E3779B97F4A7C15ULL * (++ctr_)) ^ h);
    return static_cast<T>(r);
  }
  [[nodiscard]] uint128_t GetSeed() const { return seed_; }
  [[nodiscard]] uint64_t GetCounter() const { return ctr_; }
 private:
  uint128_t seed_;
  uint64_t ctr_;
};
template <typename T>
class YaclStdUrbg {
 public:
  using result_type = T;
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { return static_cast<T>(shim::RngNext()); }
};
}  // namespace yacl::crypto
