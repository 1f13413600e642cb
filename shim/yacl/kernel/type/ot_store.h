// Stand-in for yacl/kernel/type/ot_store.h (uncompressed random OTs only).
#pragma once
#include <array>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
enum class OtStoreType { Normal, Compact };
class OtRecvStore {
 public:
  OtRecvStore() = default;
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b, OtStoreType = OtStoreType::Normal) : c_(std::move(c)), b_(std::move(b)) {}
  [[nodiscard]] uint64_t Size() const { return b_.size(); }
  [[nodiscard]] uint128_t GetBlock(uint64_t i) const { YACL_ENFORCE(i < b_.size()); return b_[i]; }
  [[nodiscard]] bool GetChoice(uint64_t i) const { YACL_ENFORCE(i < b_.size()); return c_[i]; }
  [[nodiscard]] dynamic_bitset<uint128_t> CopyBitBuf() const { return c_; }
  [[nodiscard]] std::vector<uint128_t> CopyBlkBuf() const { return b_; }
 private:
  dynamic_bitset<uint128_t> c_;
  std::vector<uint128_t> b_;
};
class OtSendStore {
 public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  [[nodiscard]] uint64_t Size() const { return b_.size(); }
  [[nodiscard]] uint128_t GetBlock(uint64_t i, uint64_t j) const { YACL_ENFORCE(i < b_.size() && j < 2); return b_[i][j]; }
 private:
  std::vector<std::array<uint128_t, 2>> b_;
};
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c, const std::vector<uint128_t>& b) { return {c, b}; }
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) { return OtSendStore(b); }
}  // namespace yacl::crypto
