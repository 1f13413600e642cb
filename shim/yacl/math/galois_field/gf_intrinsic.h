// GF(2^128) (x^128+x^7+x^2+x+1) and GF(2^64) (x^64+x^4+x^3+x+1), portable.
#pragma once
#include <utility>
#include "absl/types/span.h"
#include "yacl/base/block.h"
#include "yacl/base/exception.h"
namespace yacl {
inline uint128_t GfMul128(uint128_t x, uint128_t y) {
  uint128_t r = 0;
  for (int i = 0; i < 128; ++i) {
    if ((y >> i) & 1) r ^= x;
    bool c = (x >> 127) & 1; x <<= 1; if (c) x ^= 0x87;
  }
  return r;
}
inline uint64_t GfMul64(uint64_t x, uint64_t y) {
  uint64_t r = 0;
  for (int i = 0; i < 64; ++i) { if ((y >> i) & 1) r ^= x; bool c = x >> 63; x <<= 1; if (c) x ^= 0x1b; }
  return r;
}
inline void GfMul128(uint128_t x, uint128_t y, uint128_t* o) { *o = GfMul128(x, y); }
// GF(2^128) as an algebra over GF(2^64): the scalar acts as its embedding.
inline uint128_t GfMul128(uint128_t x, uint64_t y) { return GfMul128(x, static_cast<uint128_t>(y)); }
inline uint128_t GfMul128(absl::Span<const uint128_t> a, absl::Span<const uint128_t> b) { uint128_t r = 0; for (size_t i = 0; i < a.size(); ++i) r ^= GfMul128(a[i], b[i]); return r; }
namespace math {
inline uint128_t Gf128Mul(uint128_t x, uint128_t y) { return GfMul128(x, y); }
inline uint64_t Gf64Mul(uint64_t x, uint64_t y) { return GfMul64(x, y); }
inline uint128_t Gf128Mul(absl::Span<const uint128_t> a, absl::Span<const uint128_t> b) { return GfMul128(a, b); }
}  // namespace math
}  // namespace yacl
