// Stand-in for yacl/crypto/hash/ssl_hash.h (domain-separated SHA-256 for every algorithm).
#pragma once
#include <openssl/sha.h>
#include <string>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
namespace shim_hash {
inline void Sha(ByteContainerView v, uint8_t* out32) { SHA256(v.data() ? v.data() : reinterpret_cast<const uint8_t*>(""), v.size(), out32); }
class Tagged : public HashInterface {
 public:
  Tagged(HashAlgorithm a, size_t digest) : a_(a), n_(digest) { Reset(); }
  HashAlgorithm GetHashAlgorithm() const override { return a_; }
  size_t DigestSize() const override { return n_; }
  HashInterface& Reset() override { buf_.clear(); if (a_ != HashAlgorithm::SHA256) buf_.assign(1, static_cast<char>('A' + static_cast<int>(a_))); return *this; }
  HashInterface& Update(ByteContainerView d) override { buf_.append(reinterpret_cast<const char*>(d.data()), d.size()); return *this; }
  std::vector<uint8_t> CumulativeHash() const override {
    std::vector<uint8_t> out; uint8_t h[32]; std::string b = buf_;
    do { Sha(b, h); out.insert(out.end(), h, h + 32); b = buf_ + std::string(reinterpret_cast<char*>(h), 32); } while (out.size() < n_);
    out.resize(n_); return out;
  }
 private:
  HashAlgorithm a_; size_t n_; std::string buf_;
};
inline size_t Digest(HashAlgorithm a) {
  switch (a) { case HashAlgorithm::SHA224: return 28; case HashAlgorithm::SHA384: return 48; case HashAlgorithm::SHA512: return 64;
    case HashAlgorithm::SHA_1: return 20; case HashAlgorithm::BLAKE2B: return 64; default: return 32; }
}
}  // namespace shim_hash
class SslHash : public shim_hash::Tagged { public: explicit SslHash(HashAlgorithm a) : Tagged(a, shim_hash::Digest(a)) {} };
class Sha256Hash : public SslHash { public: Sha256Hash() : SslHash(HashAlgorithm::SHA256) {} };
class Sm3Hash : public SslHash { public: Sm3Hash() : SslHash(HashAlgorithm::SM3) {} };
}  // namespace yacl::crypto
