// Stand-in for yacl/crypto/hash/blake3.h.
#pragma once
#include "yacl/crypto/hash/ssl_hash.h"
namespace yacl::crypto {
class Blake3Hash : public shim_hash::Tagged {
 public:
  Blake3Hash() : Tagged(HashAlgorithm::BLAKE3, 32) {}
  explicit Blake3Hash(size_t n) : Tagged(HashAlgorithm::BLAKE3, n) {}
};
}  // namespace yacl::crypto
