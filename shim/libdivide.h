#pragma once
#include <cstdint>
namespace libdivide {
struct libdivide_u64_t { uint64_t magic; uint8_t more; };
inline libdivide_u64_t libdivide_u64_gen(uint64_t d) { return {d, 0}; }
inline uint64_t libdivide_u64_do(uint64_t n, const libdivide_u64_t* d) { return n / d->magic; }
}  // namespace libdivide
