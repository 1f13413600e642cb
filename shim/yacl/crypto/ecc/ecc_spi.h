// Stand-in for yacl/crypto/ecc/ecc_spi.h.
//
// The group is the order-q subgroup of Z_p^* for the 128-bit safe prime
// p = 2q+1 below: a genuine prime-order group with the same algebra as the
// curves (commuting exponentiation, invertible exponents), ~1us per operation.
// A point travels as 32 bytes: 16 mixed bytes followed by the 16-byte value.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/ecc/ec_point.h"
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/math/mpint/mp_int.h"
#include "yacl/utils/spi/spi_factory.h"
namespace yacl::crypto {
enum class HashToCurveStrategy { TryAndRehash_SHA2, TryAndRehash_SHA3, TryAndRehash_SM, TryAndRehash_BLAKE3, TryAndIncrement_SHA2, TryAndIncrement_SHA3, TryAndIncrement_SM, TryAndIncrement_BLAKE3, HashAsPointX_SHA2, HashAsPointX_SHA3, HashAsPointX_SM, HashAsPointX_BLAKE3, Autonomous };
enum class PointOctetFormat { Autonomous, Uncompressed, X962Compressed, X962Uncompressed, X962Hybrid, ZCash_BLS12_381 };
namespace shim_ec {
// p = 2^127 - 2721 is a safe prime: q = (p-1)/2 is prime too.
inline constexpr uint128_t P() { return (uint128_t(1) << 127) - 2721; }
inline constexpr uint128_t Q() { return (P() - 1) / 2; }
inline uint128_t MulModP(uint128_t a, uint128_t b) {
  uint64_t a0 = uint64_t(a), a1 = uint64_t(a >> 64), b0 = uint64_t(b), b1 = uint64_t(b >> 64);
  uint128_t p00 = uint128_t(a0) * b0, p01 = uint128_t(a0) * b1, p10 = uint128_t(a1) * b0, p11 = uint128_t(a1) * b1;
  uint128_t mid = (p00 >> 64) + uint64_t(p01) + uint64_t(p10);
  uint128_t lo = (mid << 64) | uint64_t(p00);
  uint128_t hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
  while (hi) {  // 2^128 = 2*2721 (mod p)
    uint128_t t0 = uint128_t(uint64_t(hi)) * 5442, t1 = uint128_t(uint64_t(hi >> 64)) * 5442;
    uint128_t nlo = t0 + (t1 << 64);
    uint128_t nhi = (t1 >> 64) + (nlo < t0 ? 1 : 0);
    uint128_t l = lo + nlo;
    if (l < lo) ++nhi;
    lo = l; hi = nhi;
  }
  while (lo >= P()) lo -= P();
  return lo;
}
inline uint128_t PowModP(uint128_t b, uint128_t e) {
  uint128_t r = 1;
  while (e) { if (e & 1) r = MulModP(r, b); b = MulModP(b, b); e >>= 1; }
  return r;
}
inline uint64_t Mixer(uint64_t z) { return shim::Mix64(z + 0xABCDEF1234567ULL); }
inline Array32 Encode(uint128_t v) {
  Array32 o;
  uint64_t hi = uint64_t(v >> 64), lo = uint64_t(v), m0 = Mixer(hi ^ 0x51ULL), m1 = Mixer(lo ^ 0x73ULL);
  std::memcpy(o.data(), &m0, 8); std::memcpy(o.data() + 8, &m1, 8);
  std::memcpy(o.data() + 16, &hi, 8); std::memcpy(o.data() + 24, &lo, 8);
  return o;
}
inline uint128_t Decode(const Array32& a) {
  uint64_t m0, m1, hi, lo;
  std::memcpy(&m0, a.data(), 8); std::memcpy(&m1, a.data() + 8, 8); std::memcpy(&hi, a.data() + 16, 8); std::memcpy(&lo, a.data() + 24, 8);
  uint128_t v = MakeUint128(hi, lo);
  if (v != 0 && v < P() && m0 == Mixer(hi ^ 0x51ULL) && m1 == Mixer(lo ^ 0x73ULL)) return v;
  // An arbitrary X coordinate (e.g. a raw hash): map into the subgroup.
  uint8_t h[32]; shim_hash::Sha(ByteContainerView(a.data(), 32), h);
  std::memcpy(&v, h, 16); v %= P(); if (v == 0) v = 4;
  return MulModP(v, v);
}
inline uint128_t ScalarOf(const math::MPInt& s) {
  static const mpz_class q = [] { math::MPInt m; m.Set(Q()); return m.z(); }();
  mpz_class r; mpz_mod(r.get_mpz_t(), s.z().get_mpz_t(), q.get_mpz_t());
  uint64_t w[2] = {0, 0}; mpz_export(w, nullptr, -1, 8, 0, 0, r.get_mpz_t());
  uint128_t e = MakeUint128(w[1], w[0]);
  return e == 0 ? 1 : e;
}
}  // namespace shim_ec
class EcGroup {
 public:
  EcGroup(std::string name, size_t len) : name_(std::move(name)), len_(len) {}
  virtual ~EcGroup() = default;
  std::string GetCurveName() const { return name_; }
  std::string GetLibraryName() const { return "shim"; }
  math::MPInt GetOrder() const { math::MPInt m; m.Set(shim_ec::Q()); return m; }
  math::MPInt GetField() const { math::MPInt m; m.Set(shim_ec::P()); return m; }
  EcPoint GetGenerator() const { return shim_ec::Encode(4); }
  EcPoint Mul(const EcPoint& p, const math::MPInt& s) const { return shim_ec::Encode(shim_ec::PowModP(Get(p), shim_ec::ScalarOf(s))); }
  void MulInplace(EcPoint* p, const math::MPInt& s) const { *p = Mul(*p, s); }
  EcPoint MulBase(const math::MPInt& s) const { return Mul(GetGenerator(), s); }
  EcPoint Add(const EcPoint& a, const EcPoint& b) const { return shim_ec::Encode(shim_ec::MulModP(Get(a), Get(b))); }
  EcPoint Negate(const EcPoint& a) const { return shim_ec::Encode(shim_ec::PowModP(Get(a), shim_ec::Q() - 1)); }
  EcPoint Sub(const EcPoint& a, const EcPoint& b) const { return Add(a, Negate(b)); }
  EcPoint Double(const EcPoint& a) const { return Add(a, a); }
  bool PointEqual(const EcPoint& a, const EcPoint& b) const { return Get(a) == Get(b); }
  bool IsInCurveGroup(const EcPoint&) const { return true; }
  size_t GetSerializeLength(PointOctetFormat = PointOctetFormat::Autonomous) const { return len_; }
  Buffer SerializePoint(const EcPoint& p, PointOctetFormat = PointOctetFormat::Autonomous) const {
    const auto& a = std::get<Array32>(p);
    Buffer b(len_); std::memcpy(b.data<char>() + (len_ - 32), a.data(), 32);
    if (len_ > 32) b[0] = 2;
    return b;
  }
  EcPoint DeserializePoint(ByteContainerView b, PointOctetFormat = PointOctetFormat::Autonomous) const {
    YACL_ENFORCE(b.size() == len_, "bad point size {} != {}", b.size(), len_);
    Array32 a; std::memcpy(a.data(), b.data() + (len_ - 32), 32); return a;
  }
  EcPoint HashToCurve(HashToCurveStrategy, std::string_view s) const {
    std::string t = name_; t.append(s); auto h = crypto::Sha256(t); Array32 a; std::memcpy(a.data(), h.data(), 32);
    return shim_ec::Encode(shim_ec::Decode(a));
  }
 private:
  static uint128_t Get(const EcPoint& p) { return shim_ec::Decode(std::get<Array32>(p)); }
  std::string name_;
  size_t len_;
};
class EcGroupFactory {
 public:
  static EcGroupFactory& Instance() { static EcGroupFactory f; return f; }
  template <typename... A>
  std::unique_ptr<EcGroup> Create(const std::string& name, A&&...) const {
    std::string n; for (char c : name) n.push_back(static_cast<char>(::tolower(c)));
    size_t len = (n == "sm2" || n == "secp256k1" || n == "secp256r1") ? 33 : 32;
    return std::make_unique<EcGroup>(n, len);
  }
};
}  // namespace yacl::crypto
