#pragma once
#include <cstdint>
#include <cstddef>
#include "yacl/base/exception.h"
namespace yacl::math {
inline size_t Log2Floor(uint64_t x) { size_t r = 0; while (x >>= 1) ++r; return r; }
inline size_t Log2Ceil(uint64_t x) { return x <= 1 ? 0 : Log2Floor(x - 1) + 1; }
template <typename T> constexpr T DivCeil(T x, T y) { return x == 0 ? 0 : 1 + (x - 1) / y; }
template <typename T> constexpr T RoundUpTo(T x, T y) { return DivCeil(x, y) * y; }
inline uint64_t DivCeil(uint64_t x, uint64_t y) { return x == 0 ? 0 : 1 + (x - 1) / y; }
inline uint64_t RoundUpTo(uint64_t x, uint64_t y) { return DivCeil(x, y) * y; }
}  // namespace yacl::math
namespace yacl::math { inline uint64_t ULog2Dummy() { return 0; } }
