// Stand-in for the number-theory subset of Microsoft SEAL used by spiral.
#pragma once
#include <array>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace seal {
using U128 = unsigned __int128;
class Modulus {
 public:
  Modulus(uint64_t v = 0) : v_(v) {  // NOLINT
    if (v == 1 || (v >> 61) != 0) throw std::invalid_argument("value can be at most 61-bit and cannot be 1");
    if (v) {
      // floor(2^128 / v) and remainder
      U128 hi = ~U128(0) / v; U128 rem = ~U128(0) % v + 1; if (rem == v) { hi += 1; rem = 0; }
      cr_ = {uint64_t(hi), uint64_t(hi >> 64), uint64_t(rem)};
      while ((v_ >> bits_) != 0) ++bits_;
    }
  }
  [[nodiscard]] uint64_t value() const { return v_; }
  [[nodiscard]] int bit_count() const { return bits_; }
  [[nodiscard]] const std::array<uint64_t, 3>& const_ratio() const { return cr_; }
  [[nodiscard]] bool is_zero() const { return v_ == 0; }
  [[nodiscard]] uint64_t reduce(uint64_t x) const { return x % v_; }
  bool operator==(const Modulus& o) const { return v_ == o.v_; }
  bool operator!=(const Modulus& o) const { return v_ != o.v_; }
 private:
  uint64_t v_; int bits_ = 0; std::array<uint64_t, 3> cr_{0, 0, 0};
};
namespace util {
template <class T> inline unsigned char add_uint64(uint64_t a, uint64_t b, T* r) { U128 s = U128(a) + b; *r = uint64_t(s); return static_cast<unsigned char>(s >> 64); }
template <class T> inline void multiply_uint64(uint64_t a, uint64_t b, T* r) { U128 p = U128(a) * b; r[0] = uint64_t(p); r[1] = uint64_t(p >> 64); }
template <class T> inline void multiply_uint64_hw64(uint64_t a, uint64_t b, T* r) { *r = uint64_t((U128(a) * b) >> 64); }
inline void divide_uint192_inplace(uint64_t* num, uint64_t d, uint64_t* q) {
  U128 rem = 0;
  for (int i = 2; i >= 0; --i) { uint64_t out = 0; for (int b = 63; b >= 0; --b) { rem = (rem << 1) | ((num[i] >> b) & 1); out <<= 1; if (rem >= d) { rem -= d; out |= 1; } } q[i] = out; }
  num[0] = uint64_t(rem); num[1] = 0; num[2] = 0;
}
inline uint64_t multiply_uint_mod(uint64_t a, uint64_t b, const Modulus& m) { return uint64_t(U128(a) * b % m.value()); }
inline uint64_t add_uint_mod(uint64_t a, uint64_t b, const Modulus& m) { U128 s = U128(a) + b; return uint64_t(s % m.value()); }
inline uint64_t sub_uint_mod(uint64_t a, uint64_t b, const Modulus& m) { return a >= b ? a - b : a + m.value() - b; }
inline uint64_t negate_uint_mod(uint64_t a, const Modulus& m) { return a ? m.value() - a : 0; }
inline uint64_t div2_uint_mod(uint64_t a, const Modulus& m) { return (a & 1) ? uint64_t((U128(a) + m.value()) >> 1) : a >> 1; }
inline uint64_t barrett_reduce_64(uint64_t a, const Modulus& m) { return a % m.value(); }
template <class T> inline uint64_t barrett_reduce_128(const T* a, const Modulus& m) { return uint64_t(((U128(a[1]) << 64) | a[0]) % m.value()); }
inline uint64_t exponentiate_uint_mod(uint64_t b, uint64_t e, const Modulus& m) { uint64_t r = 1 % m.value(); b %= m.value(); while (e) { if (e & 1) r = multiply_uint_mod(r, b, m); b = multiply_uint_mod(b, b, m); e >>= 1; } return r; }
inline bool try_invert_uint_mod(uint64_t v, const Modulus& m, uint64_t& r) {
  __int128 a = v % m.value(), b = m.value(), x = 1, y = 0; if (a == 0) return false;
  while (b) { __int128 q = a / b, t = a - q * b; a = b; b = t; t = x - q * y; x = y; y = t; }
  if (a != 1) return false; x %= static_cast<__int128>(m.value()); if (x < 0) x += m.value(); r = uint64_t(x); return true;
}
inline bool try_invert_uint_mod(uint64_t v, uint64_t m, uint64_t& r) { return try_invert_uint_mod(v, Modulus(m), r); }
template <class T> inline T reverse_bits(T x, int n) { T r = 0; for (int i = 0; i < n; ++i) if ((x >> i) & 1) r |= T(1) << (n - 1 - i); return r; }
inline bool is_primitive_root(uint64_t root, uint64_t deg, const Modulus& m) { return root && exponentiate_uint_mod(root, deg >> 1, m) == m.value() - 1; }
inline bool try_primitive_root(uint64_t deg, const Modulus& m, uint64_t& dst) {
  uint64_t g = m.value() - 1; if (g % deg) return false; uint64_t quo = g / deg;
  uint64_t x = 2; for (int tries = 0; tries < 100; ++tries, ++x) { dst = exponentiate_uint_mod(x, quo, m); if (is_primitive_root(dst, deg, m)) return true; }
  return false;
}
inline bool try_minimal_primitive_root(uint64_t deg, const Modulus& m, uint64_t& dst) {
  uint64_t root; if (!try_primitive_root(deg, m, root)) return false;
  uint64_t sq = multiply_uint_mod(root, root, m), cur = root; dst = root;
  for (uint64_t i = 0; i < deg; i += 2) { if (cur < dst) dst = cur; cur = multiply_uint_mod(cur, sq, m); }
  return true;
}
}  // namespace util
}  // namespace seal
