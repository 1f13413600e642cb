// Stand-in for yacl/crypto/aes/aes_intrinsics.h.
#pragma once
#include "yacl/base/block.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
namespace yacl::crypto {
struct AES_KEY { shim_aes::Key k; };
inline void AES_set_encrypt_key(uint128_t key, AES_KEY* o) { shim_aes::Set(key, &o->k); }
inline AES_KEY AES_set_encrypt_key(uint128_t key) { AES_KEY k; AES_set_encrypt_key(key, &k); return k; }
inline void AES_set_decrypt_key(uint128_t key, AES_KEY* o) { shim_aes::Set(key, &o->k); }
inline AES_KEY AES_set_decrypt_key(uint128_t key) { AES_KEY k; AES_set_decrypt_key(key, &k); return k; }
inline void AES_ecb_encrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { for (size_t i = 0; i < in.size(); ++i) out[i] = shim_aes::Enc(k.k, in[i]); }
inline void AES_ecb_decrypt_blks(const AES_KEY& k, absl::Span<const uint128_t> in, absl::Span<uint128_t> out) { for (size_t i = 0; i < in.size(); ++i) out[i] = shim_aes::Dec(k.k, in[i]); }
}  // namespace yacl::crypto
