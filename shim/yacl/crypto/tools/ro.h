// Stand-in for yacl/crypto/tools/ro.h.
#pragma once
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/crypto/hash/hash_utils.h"
namespace yacl::crypto {
class RandomOracle {
 public:
  explicit RandomOracle(HashAlgorithm a = HashAlgorithm::BLAKE3, size_t out = 32) : a_(a), n_(out) {}
  static RandomOracle& GetDefault() { static RandomOracle r; return r; }
  void operator()(ByteContainerView in, uint8_t* out) const { auto b = Buf(in); std::memcpy(out, b.data(), n_); }
  std::vector<uint8_t> operator()(ByteContainerView in) const { return Buf(in); }
  Buffer operator()(ByteContainerView in, size_t n) const { auto b = Buf(in, n); return Buffer(b.data(), b.size()); }
  template <size_t N = 32> std::array<uint8_t, N> Gen(ByteContainerView in) const { auto b = Buf(in, N); std::array<uint8_t, N> o; std::memcpy(o.data(), b.data(), N); return o; }
  template <typename T, typename... A, std::enable_if_t<std::is_standard_layout_v<T>, int> = 0>
  T Gen(ByteContainerView in, A... extra) const {
    std::string s(reinterpret_cast<const char*>(in.data()), in.size());
    (s.append(reinterpret_cast<const char*>(&extra), sizeof(extra)), ...);
    auto b = Buf(s, sizeof(T)); T o; std::memcpy(&o, b.data(), sizeof(T)); return o;
  }
 private:
  std::vector<uint8_t> Buf(ByteContainerView in, size_t n = 0) const { shim_hash::Tagged t(a_, n ? n : n_); t.Reset(); t.Update(in); return t.CumulativeHash(); }
  HashAlgorithm a_; size_t n_;
};
}  // namespace yacl::crypto
