// Stand-in for yacl/base/block.h: a 128-bit block convertible to __m128i.
#pragma once
#include <immintrin.h>
#include <cstdint>
#include <cstring>
#include "yacl/base/int128.h"
namespace yacl {
struct alignas(16) block {
  __m128i mData;
  block() = default;
  block(const block&) = default;
  block& operator=(const block&) = default;
  block(uint64_t hi, uint64_t lo) { mData = _mm_set_epi64x(static_cast<int64_t>(hi), static_cast<int64_t>(lo)); }
  explicit block(uint64_t lo) : block(0, lo) {}
  block(uint128_t v) : block(static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)) {}
  block(const __m128i& x) : mData(x) {}
  operator const __m128i&() const { return mData; }
  operator __m128i&() { return mData; }
  explicit operator uint128_t() const { return as<uint128_t>(0); }
  [[nodiscard]] __m128i mm() const { return mData; }
  template <typename T> [[nodiscard]] T as(size_t i = 0) const {
    T r[16 / sizeof(T)];
    std::memcpy(r, &mData, 16);
    return r[i];
  }
  block operator^(const block& r) const { return _mm_xor_si128(mData, r.mData); }
  block& operator^=(const block& r) { mData = _mm_xor_si128(mData, r.mData); return *this; }
  block operator&(const block& r) const { return _mm_and_si128(mData, r.mData); }
  block& operator&=(const block& r) { mData = _mm_and_si128(mData, r.mData); return *this; }
  block operator|(const block& r) const { return _mm_or_si128(mData, r.mData); }
  block& operator|=(const block& r) { mData = _mm_or_si128(mData, r.mData); return *this; }
  block operator~() const { return _mm_xor_si128(mData, _mm_set1_epi32(-1)); }
  block andnot_si128(const block& r) const { return _mm_andnot_si128(mData, r.mData); }
  block operator<<(uint8_t n) const { return block(as<uint128_t>() << n); }
  block operator>>(uint8_t n) const { return block(as<uint128_t>() >> n); }
  block operator+(const block& r) const { return _mm_add_epi64(mData, r.mData); }
  block& operator+=(const block& r) { mData = _mm_add_epi64(mData, r.mData); return *this; }
  block operator-(const block& r) const { return _mm_sub_epi64(mData, r.mData); }
  block& operator-=(const block& r) { mData = _mm_sub_epi64(mData, r.mData); return *this; }
  bool operator==(const block& r) const { return std::memcmp(&mData, &r.mData, 16) == 0; }
  bool operator!=(const block& r) const { return !(*this == r); }
  bool operator<(const block& r) const {
    return as<uint64_t>(1) < r.as<uint64_t>(1) || (as<uint64_t>(1) == r.as<uint64_t>(1) && as<uint64_t>(0) < r.as<uint64_t>(0));
  }
  block add_epi64(const block& r) const { return _mm_add_epi64(mData, r.mData); }
  block sub_epi64(const block& r) const { return _mm_sub_epi64(mData, r.mData); }
  block srli_epi16(int n) const { return _mm_srli_epi16(mData, n); }
  block slli_epi64(int n) const { return _mm_slli_epi64(mData, n); }
  block srli_epi64(int n) const { return _mm_srli_epi64(mData, n); }
  block mul_epu32(const block& b) const { return _mm_mul_epu32(mData, b.mData); }
  template <int imm> [[nodiscard]] block clmulepi64_si128(const block& b) const { return _mm_clmulepi64_si128(mData, b.mData, imm); }
  template <int imm> [[nodiscard]] block shuffle_epi32() const { return _mm_shuffle_epi32(mData, imm); }
  template <int imm> [[nodiscard]] block srai_epi32() const { return _mm_srai_epi32(mData, imm); }
  template <int imm> [[nodiscard]] block slli_epi32() const { return _mm_slli_epi32(mData, imm); }
  block cmpgt_epi64(const block& b) const { return _mm_cmpgt_epi64(mData, b.mData); }
  [[nodiscard]] int movemask_epi8() const { return _mm_movemask_epi8(mData); }
  [[nodiscard]] int testc(const block& b) const { return _mm_testc_si128(mData, b.mData); }
};
inline std::ostream& operator<<(std::ostream& os, const block& b) { return os << b.as<uint64_t>(1) << ":" << b.as<uint64_t>(0); }
}  // namespace yacl
