// Stand-in for yacl/crypto/hash/hash_utils.h.
#pragma once
#include <array>
#include <cstring>
#include "absl/types/span.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { std::array<uint8_t, 32> o; shim_hash::Sha(d, o.data()); return o; }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { std::string s = "S"; s.append(reinterpret_cast<const char*>(d.data()), d.size()); return Sha256(s); }
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) { std::string s = "B3"; s.append(reinterpret_cast<const char*>(d.data()), d.size()); return Sha256(s); }
inline std::array<uint8_t, 64> Blake2(ByteContainerView d) { auto a = Sm3(d), b = Blake3(d); std::array<uint8_t, 64> o; std::memcpy(o.data(), a.data(), 32); std::memcpy(o.data() + 32, b.data(), 32); return o; }
inline uint128_t Blake3_128(ByteContainerView d) { auto h = Blake3(d); uint128_t r; std::memcpy(&r, h.data(), 16); return r; }
inline uint64_t Blake3_64(ByteContainerView d) { auto h = Blake3(d); uint64_t r; std::memcpy(&r, h.data(), 8); return r; }
}  // namespace yacl::crypto
