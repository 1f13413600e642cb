// Stand-in for yacl/crypto/tools/prg.h: deterministic stream from (seed, ctr).
#pragma once
#include "yacl/base/buffer.h"
#include <limits>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
enum class PRG_MODE { kNistAesCtrDrbg, kAesEcb };
template <typename T, size_t BUF = 1024>
class Prg {
 public:
  using result_type = T;
  Prg() : seed_(SecureRandSeed()) {}
  explicit Prg(uint128_t seed, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed) {}
  explicit Prg(uint128_t seed, uint64_t ctr, PRG_MODE = PRG_MODE::kAesEcb) : seed_(seed), ctr_(ctr) {}
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() { T r; Bytes(&r, sizeof(T)); return r; }
  template <typename Y, std::enable_if_t<std::is_trivially_copyable_v<Y>, int> = 0>
  void Fill(absl::Span<Y> out) { Bytes(out.data(), out.size() * sizeof(Y)); }
  [[nodiscard]] uint128_t Seed() const { return seed_; }
  [[nodiscard]] uint64_t Counter() const { return ctr_; }
  void Reset(uint64_t c = 0) { ctr_ = c; }
  void SetSeed(uint128_t s) { seed_ = s; ctr_ = 0; }
 private:
  void Bytes(void* p, size_t n) {
    auto* b = static_cast<uint8_t*>(p);
    auto [h, l] = DecomposeUInt128(seed_);
    while (n) {
      uint64_t r = shim::Mix64(shim::Mix64(l + 0x9E3779B97F4A7C15ULL * (++ctr_)) ^ shim::Mix64(h + 77));
      size_t k = n < 8 ? n : 8;
      std::memcpy(b, &r, k); b += k; n -= k;
    }
  }
  uint128_t seed_;
  uint64_t ctr_ = 0;
};
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
inline void PrgAesCtr(uint128_t seed, absl::Span<T> out) { Prg<uint8_t> p(seed); p.Fill(out); }
template <typename T, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
inline std::vector<T> PrgAesCtr(uint128_t seed, size_t num) { std::vector<T> v(num); PrgAesCtr<T>(seed, absl::MakeSpan(v)); return v; }
template <typename T>
inline uint64_t FillPRand(SymmetricCrypto::CryptoType, uint128_t seed, uint64_t iv, uint64_t count, absl::Span<T> out) {
  Prg<uint8_t> p(seed ^ MakeUint128(iv, count)); p.Fill(out);
  return count + (out.size() * sizeof(T) + 15) / 16;
}
}  // namespace yacl::crypto
