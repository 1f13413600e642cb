// Stand-in for yacl/math/mpint/mp_int.h on GMP.
#pragma once
#include <gmpxx.h>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl {
enum class Endian { native, little, big };
}
namespace yacl::math {
class MPInt {
 public:
  MPInt() = default;
  template <typename T, std::enable_if_t<std::is_integral_v<T> || std::is_same_v<T, uint128_t> || std::is_same_v<T, int128_t>, int> = 0>
  explicit MPInt(T v) { Set(v); }
  template <typename T, std::enable_if_t<std::is_integral_v<T> || std::is_same_v<T, uint128_t> || std::is_same_v<T, int128_t>, int> = 0>
  MPInt(T v, size_t) { Set(v); }
  explicit MPInt(const std::string& s, int radix = 10) : v_(s, radix) {}
  explicit MPInt(mpz_class z) : v_(std::move(z)) {}
  template <typename T, std::enable_if_t<std::is_integral_v<T> || std::is_same_v<T, uint128_t> || std::is_same_v<T, int128_t>, int> = 0>
  void Set(T v) {
    bool neg = v < 0; unsigned __int128 u = neg ? (unsigned __int128)0 - (unsigned __int128)v : (unsigned __int128)v;
    uint64_t w[2] = {static_cast<uint64_t>(u), static_cast<uint64_t>(u >> 64)};
    mpz_import(v_.get_mpz_t(), 2, -1, 8, 0, 0, w); if (neg) v_ = -v_;
  }
  void Set(const std::string& s, int radix = 10) { v_.set_str(s, radix); }
  void FromMagBytes(ByteContainerView b, Endian e = Endian::native) { mpz_import(v_.get_mpz_t(), b.size(), e == Endian::big ? 1 : -1, 1, 0, 0, b.data()); }
  Buffer ToMagBytes(Endian e = Endian::native) const {
    size_t n = (mpz_sizeinbase(v_.get_mpz_t(), 2) + 7) / 8; if (v_ == 0) n = 0;
    std::string s(n + 1, 0); size_t c = 0; mpz_export(s.data(), &c, e == Endian::big ? 1 : -1, 1, 0, 0, v_.get_mpz_t());
    return Buffer(s.data(), c);
  }
  std::string Serialize() const { return v_.get_str(16); }
  void Deserialize(ByteContainerView b) { v_.set_str(std::string(reinterpret_cast<const char*>(b.data()), b.size()), 16); }
  size_t BitCount() const { return v_ == 0 ? 0 : mpz_sizeinbase(v_.get_mpz_t(), 2); }
  bool IsNegative() const { return v_ < 0; }
  bool IsOne() const { return v_ == 1; }
  void NegateInplace() { v_ = -v_; }
  void Negate(MPInt* o) const { o->v_ = -v_; }
  bool IsZero() const { return v_ == 0; }
  bool IsPositive() const { return v_ > 0; }
  bool IsOdd() const { return mpz_odd_p(v_.get_mpz_t()) != 0; }
  int Compare(const MPInt& o) const { return cmp(v_, o.v_); }
  template <typename T> T Get() const { return static_cast<T>(mpz_get_ui(v_.get_mpz_t())); }
  MPInt operator+(const MPInt& o) const { return MPInt(mpz_class(v_ + o.v_)); }
  MPInt operator-(const MPInt& o) const { return MPInt(mpz_class(v_ - o.v_)); }
  MPInt operator*(const MPInt& o) const { return MPInt(mpz_class(v_ * o.v_)); }
  MPInt operator/(const MPInt& o) const { return MPInt(mpz_class(v_ / o.v_)); }
  MPInt operator%(const MPInt& o) const { return Mod(o); }
  MPInt operator-() const { return MPInt(mpz_class(-v_)); }
  bool operator==(const MPInt& o) const { return v_ == o.v_; }
  bool operator!=(const MPInt& o) const { return v_ != o.v_; }
  bool operator<(const MPInt& o) const { return v_ < o.v_; }
  bool operator>(const MPInt& o) const { return v_ > o.v_; }
  bool operator<=(const MPInt& o) const { return v_ <= o.v_; }
  bool operator>=(const MPInt& o) const { return v_ >= o.v_; }
  MPInt Mod(const MPInt& m) const { mpz_class r; mpz_mod(r.get_mpz_t(), v_.get_mpz_t(), m.v_.get_mpz_t()); return MPInt(r); }
  MPInt AddMod(const MPInt& o, const MPInt& m) const { return (*this + o).Mod(m); }
  MPInt SubMod(const MPInt& o, const MPInt& m) const { return (*this - o).Mod(m); }
  MPInt MulMod(const MPInt& o, const MPInt& m) const { return (*this * o).Mod(m); }
  MPInt PowMod(const MPInt& e, const MPInt& m) const { mpz_class r; mpz_powm(r.get_mpz_t(), v_.get_mpz_t(), e.v_.get_mpz_t(), m.v_.get_mpz_t()); return MPInt(r); }
  MPInt InvertMod(const MPInt& m) const { mpz_class r; mpz_invert(r.get_mpz_t(), v_.get_mpz_t(), m.v_.get_mpz_t()); return MPInt(r); }
  static void Add(const MPInt& a, const MPInt& b, MPInt* c) { *c = a + b; }
  static void Sub(const MPInt& a, const MPInt& b, MPInt* c) { *c = a - b; }
  static void Mul(const MPInt& a, const MPInt& b, MPInt* c) { *c = a * b; }
  static void Div(const MPInt& a, const MPInt& b, MPInt* c, MPInt* d) { mpz_class q, r; mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.v_.get_mpz_t(), b.v_.get_mpz_t()); if (c) *c = MPInt(q); if (d) *d = MPInt(r); }
  static void Mod(const MPInt& a, const MPInt& m, MPInt* c) { *c = a.Mod(m); }
  static void AddMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.AddMod(b, m); }
  static void SubMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.SubMod(b, m); }
  static void MulMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.MulMod(b, m); }
  static void PowMod(const MPInt& a, const MPInt& b, const MPInt& m, MPInt* d) { *d = a.PowMod(b, m); }
  static void InvertMod(const MPInt& a, const MPInt& m, MPInt* c) { *c = a.InvertMod(m); }
  static void RandomLtN(const MPInt& n, MPInt* r) { std::string s((n.BitCount() + 7) / 8 + 8, 0); shim::RngBytes(s.data(), s.size()); MPInt t; t.FromMagBytes(s); *r = t.Mod(n); }
  static void RandomExactBits(size_t bits, MPInt* r) { std::string s((bits + 7) / 8, 0); shim::RngBytes(s.data(), s.size()); r->FromMagBytes(s); for (size_t i = bits; i < s.size() * 8; ++i) mpz_clrbit(r->v_.get_mpz_t(), i); mpz_setbit(r->v_.get_mpz_t(), bits - 1); }
  std::string ToString() const { return v_.get_str(); }
  std::string ToHexString() const { return v_.get_str(16); }
  const mpz_class& z() const { return v_; }
 private:
  mpz_class v_;
};
inline std::ostream& operator<<(std::ostream& os, const MPInt& m) { return os << m.ToString(); }
inline MPInt operator""_mp(const char* s, size_t) { return MPInt(std::string(s)); }
}  // namespace yacl::math
