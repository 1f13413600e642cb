// Stand-in for yacl/crypto/block_cipher/symmetric_crypto.h (AES-128 ECB/CBC/CTR by OpenSSL).
#pragma once
#include <cstring>
#include <openssl/aes.h>
#include "absl/types/span.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
namespace shim_aes {
struct Key { ::AES_KEY e, d; };
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
inline void Set(uint128_t k, Key* o) {
  ::AES_set_encrypt_key(reinterpret_cast<const unsigned char*>(&k), 128, &o->e);
  ::AES_set_decrypt_key(reinterpret_cast<const unsigned char*>(&k), 128, &o->d);
}
inline uint128_t Enc(const Key& k, uint128_t x) { uint128_t y; ::AES_encrypt(reinterpret_cast<const unsigned char*>(&x), reinterpret_cast<unsigned char*>(&y), &k.e); return y; }
inline uint128_t Dec(const Key& k, uint128_t x) { uint128_t y; ::AES_decrypt(reinterpret_cast<const unsigned char*>(&x), reinterpret_cast<unsigned char*>(&y), &k.d); return y; }
#pragma GCC diagnostic pop
}  // namespace shim_aes
class SymmetricCrypto {
 public:
  enum class CryptoType : int { AES128_ECB, AES128_CBC, AES128_CTR, SM4_ECB, SM4_CBC, SM4_CTR };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0) : type_(type), iv_(iv) { shim_aes::Set(key, &k_); }
  SymmetricCrypto(CryptoType type, ByteContainerView key, ByteContainerView iv) : type_(type), iv_(0) {
    uint128_t k = 0; std::memcpy(&k, key.data(), 16); std::memcpy(&iv_, iv.data(), 16); shim_aes::Set(k, &k_);
  }
  static constexpr int BlockSize() { return 16; }
  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    YACL_ENFORCE(in.size() == out.size() && in.size() % 16 == 0);
    uint128_t iv = iv_, x, y;
    for (size_t i = 0; i < in.size(); i += 16) {
      std::memcpy(&x, in.data() + i, 16);
      if (Cbc()) { y = shim_aes::Enc(k_, x ^ iv); iv = y; } else if (Ctr()) { y = x ^ shim_aes::Enc(k_, iv++); } else { y = shim_aes::Enc(k_, x); }
      std::memcpy(out.data() + i, &y, 16);
    }
  }
  void Decrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    YACL_ENFORCE(in.size() == out.size() && in.size() % 16 == 0);
    uint128_t iv = iv_, x, y;
    for (size_t i = 0; i < in.size(); i += 16) {
      std::memcpy(&x, in.data() + i, 16);
      if (Cbc()) { y = shim_aes::Dec(k_, x) ^ iv; iv = x; } else if (Ctr()) { y = x ^ shim_aes::Enc(k_, iv++); } else { y = shim_aes::Dec(k_, x); }
      std::memcpy(out.data() + i, &y, 16);
    }
  }
  [[nodiscard]] uint128_t Encrypt(uint128_t x) const { uint128_t y; Encrypt(absl::MakeConstSpan(reinterpret_cast<uint8_t*>(&x), 16), absl::MakeSpan(reinterpret_cast<uint8_t*>(&y), 16)); return y; }
  [[nodiscard]] uint128_t Decrypt(uint128_t x) const { uint128_t y; Decrypt(absl::MakeConstSpan(reinterpret_cast<uint8_t*>(&x), 16), absl::MakeSpan(reinterpret_cast<uint8_t*>(&y), 16)); return y; }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { Encrypt(absl::MakeConstSpan(reinterpret_cast<const uint8_t*>(in.data()), in.size() * 16), absl::MakeSpan(reinterpret_cast<uint8_t*>(out.data()), out.size() * 16)); }
  void Decrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const { Decrypt(absl::MakeConstSpan(reinterpret_cast<const uint8_t*>(in.data()), in.size() * 16), absl::MakeSpan(reinterpret_cast<uint8_t*>(out.data()), out.size() * 16)); }
  [[nodiscard]] CryptoType GetType() const { return type_; }
 private:
  bool Cbc() const { return type_ == CryptoType::AES128_CBC || type_ == CryptoType::SM4_CBC; }
  bool Ctr() const { return type_ == CryptoType::AES128_CTR || type_ == CryptoType::SM4_CTR; }
  CryptoType type_;
  uint128_t iv_;
  shim_aes::Key k_;
};
}  // namespace yacl::crypto
