// Stand-in for yacl/crypto/aes/aes_opt.h.
#pragma once
#include "yacl/crypto/aes/aes_intrinsics.h"
namespace yacl::crypto {
template <size_t N> inline void AES_opt_key_schedule(const uint128_t* keys, AES_KEY* out) { for (size_t i = 0; i < N; ++i) AES_set_encrypt_key(keys[i], &out[i]); }
template <size_t N> inline void AES_opt_key_schedule(const block* keys, AES_KEY* out) { for (size_t i = 0; i < N; ++i) AES_set_encrypt_key(keys[i].as<uint128_t>(0), &out[i]); }
template <size_t K, size_t N> inline void ParaEnc(uint128_t* b, const AES_KEY* keys) { for (size_t i = 0; i < K; ++i) for (size_t j = 0; j < N; ++j) b[i * N + j] = shim_aes::Enc(keys[i].k, b[i * N + j]); }
template <size_t K, size_t N> inline void ParaEnc(block* b, const AES_KEY* keys) { for (size_t i = 0; i < K; ++i) for (size_t j = 0; j < N; ++j) b[i * N + j] = block(shim_aes::Enc(keys[i].k, b[i * N + j].as<uint128_t>(0))); }
}  // namespace yacl::crypto
