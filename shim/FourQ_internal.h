// Stand-in for FourQlib over the same prime-order group as ecc_spi.h.
#pragma once
#include <cstdint>
#include <cstring>
#include "yacl/crypto/ecc/ecc_spi.h"
typedef uint64_t digit_t;
typedef digit_t felm_t[2];
typedef felm_t f2elm_t[2];
typedef struct { f2elm_t x, y; } point_affine;
typedef point_affine point_t[1];
typedef enum { ECCRYPTO_ERROR, ECCRYPTO_SUCCESS, ECCRYPTO_ERROR_DURING_TEST, ECCRYPTO_ERROR_UNKNOWN, ECCRYPTO_ERROR_NOT_IMPLEMENTED, ECCRYPTO_ERROR_NO_MEMORY, ECCRYPTO_ERROR_INVALID_PARAMETER, ECCRYPTO_ERROR_SHARED_KEY, ECCRYPTO_ERROR_SIGNATURE_VERIFICATION, ECCRYPTO_ERROR_HASH_TO_CURVE } ECCRYPTO_STATUS;
namespace shim_fq {
inline yacl::math::MPInt Sc(const digit_t* k) { yacl::math::MPInt m; m.FromMagBytes(yacl::ByteContainerView(k, 32), yacl::Endian::little); return m; }
inline void PutSc(uint128_t v, digit_t* k) { uint64_t w[4] = {uint64_t(v), uint64_t(v >> 64), 0, 0}; std::memcpy(k, w, 32); }
inline uint128_t Get(const point_affine* p) { return yacl::MakeUint128(p->x[0][1], p->x[0][0]); }
inline void Put(point_affine* p, uint128_t v) { std::memset(p, 0, sizeof *p); p->x[0][0] = uint64_t(v); p->x[0][1] = uint64_t(v >> 64); }
}  // namespace shim_fq
inline bool ecc_mul(point_t p, digit_t* k, point_t q, bool) { digit_t kk[4]; std::memcpy(kk, k, 32); shim_fq::Put(q, yacl::crypto::shim_ec::PowModP(shim_fq::Get(p), yacl::crypto::shim_ec::ScalarOf(shim_fq::Sc(kk)))); return true; }
inline void encode(point_t p, unsigned char* out) { auto a = yacl::crypto::shim_ec::Encode(shim_fq::Get(p)); std::memcpy(out, a.data(), 32); out[15] &= 0x7f; }
inline ECCRYPTO_STATUS decode(const unsigned char* in, point_t p) {
  uint64_t hi, lo; std::memcpy(&hi, in + 16, 8); std::memcpy(&lo, in + 24, 8);
  uint128_t v = yacl::MakeUint128(hi, lo); if (v == 0 || v >= yacl::crypto::shim_ec::P()) return ECCRYPTO_ERROR;
  shim_fq::Put(p, v); unsigned char chk[32]; encode(p, chk); return std::memcmp(chk, in, 32) == 0 ? ECCRYPTO_SUCCESS : ECCRYPTO_ERROR;
}
inline void mod1271(felm_t a) { a[1] &= 0x7fffffffffffffffULL; }
inline ECCRYPTO_STATUS HashToCurve(f2elm_t r, point_t p) { std::array<uint8_t, 32> a; std::memcpy(a.data(), r, 32); a[0] ^= 0x5a; shim_fq::Put(p, yacl::crypto::shim_ec::Decode(a)); return ECCRYPTO_SUCCESS; }
inline void to_Montgomery(const digit_t* a, digit_t* c) { digit_t t[4]; std::memcpy(t, a, 32); shim_fq::PutSc(yacl::crypto::shim_ec::ScalarOf(shim_fq::Sc(t)), c); }
inline void from_Montgomery(const digit_t* a, digit_t* c) { std::memmove(c, a, 32); }
inline void Montgomery_inversion_mod_order(const digit_t* a, digit_t* c) {
  yacl::math::MPInt q; q.Set(yacl::crypto::shim_ec::Q()); auto r = shim_fq::Sc(a).InvertMod(q);
  uint64_t w[4] = {0, 0, 0, 0}; mpz_export(w, nullptr, -1, 8, 0, 0, r.z().get_mpz_t()); std::memcpy(c, w, 32);
}
