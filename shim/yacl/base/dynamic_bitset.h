// Stand-in for yacl/base/dynamic_bitset.h (subset).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/int128.h"
namespace yacl {
template <typename Block = uint128_t>
class dynamic_bitset {
 public:
  static constexpr size_t bits_per_block = sizeof(Block) * 8;
  struct reference {
    dynamic_bitset& b; size_t i;
    operator bool() const { return b.test(i); }
    reference& operator=(bool v) { b.set(i, v); return *this; }
    reference& operator=(const reference& o) { b.set(i, bool(o)); return *this; }
    reference& operator^=(bool v) { b.set(i, bool(*this) ^ v); return *this; }
    reference& operator|=(bool v) { b.set(i, bool(*this) | v); return *this; }
    reference& operator&=(bool v) { b.set(i, bool(*this) & v); return *this; }
    reference& flip() { b.set(i, !bool(*this)); return *this; }
  };
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n, unsigned long long init = 0) { resize(n); for (size_t i = 0; i < 64 && i < n; ++i) set(i, (init >> i) & 1); }
  explicit dynamic_bitset(const std::string& s) { resize(s.size()); for (size_t i = 0; i < s.size(); ++i) set(s.size() - 1 - i, s[i] == '1'); }
  void resize(size_t n, bool v = false) { size_t o = n_; v_.resize((n + bits_per_block - 1) / bits_per_block, 0); n_ = n; for (size_t i = o; i < n; ++i) set(i, v); }
  void clear() { v_.clear(); n_ = 0; }
  void push_back(bool v) { resize(n_ + 1, v); }
  void append(Block b) { size_t o = n_; resize(n_ + bits_per_block); for (size_t i = 0; i < bits_per_block; ++i) set(o + i, (b >> i) & 1); }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return v_.size(); }
  bool test(size_t i) const { return (v_[i / bits_per_block] >> (i % bits_per_block)) & 1; }
  bool operator[](size_t i) const { return test(i); }
  reference operator[](size_t i) { return {*this, i}; }
  dynamic_bitset& set(size_t i, bool v = true) {
    Block m = Block(1) << (i % bits_per_block);
    if (v) v_[i / bits_per_block] |= m; else v_[i / bits_per_block] &= ~m;
    return *this;
  }
  dynamic_bitset& set() { for (size_t i = 0; i < n_; ++i) set(i, true); return *this; }
  dynamic_bitset& reset(size_t i) { return set(i, false); }
  dynamic_bitset& reset() { for (auto& x : v_) x = 0; return *this; }
  dynamic_bitset& flip(size_t i) { return set(i, !test(i)); }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; ++i) c += test(i); return c; }
  bool any() const { return count() != 0; }
  bool none() const { return count() == 0; }
  bool all() const { return count() == n_; }
  Block* data() { return v_.data(); }
  const Block* data() const { return v_.data(); }
  dynamic_bitset& operator^=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] ^= o.v_[i]; return *this; }
  dynamic_bitset& operator&=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] &= o.v_[i]; return *this; }
  dynamic_bitset& operator|=(const dynamic_bitset& o) { for (size_t i = 0; i < v_.size(); ++i) v_[i] |= o.v_[i]; return *this; }
  bool operator==(const dynamic_bitset& o) const { if (n_ != o.n_) return false; for (size_t i = 0; i < n_; ++i) if (test(i) != o.test(i)) return false; return true; }
  bool operator!=(const dynamic_bitset& o) const { return !(*this == o); }
  std::string to_string() const { std::string s(n_, '0'); for (size_t i = 0; i < n_; ++i) if (test(i)) s[n_ - 1 - i] = '1'; return s; }
 private:
  std::vector<Block> v_;
  size_t n_ = 0;
};
}  // namespace yacl
