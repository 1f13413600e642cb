// Stand-in for yacl/kernel/algorithms/kkrt_ote.h: the KKRT OPRF itself, with a
// hash in place of the pseudo-random code.  One row per OT instance:
//   receiver: t0_i, t1_i;   correction u_i = t0_i ^ t1_i ^ C(x)
//   sender:   q_i = choice ? t1 : t0 per column;  F(y) = H(i, q_i ^ ((u_i ^ C(y)) & s))
// so sender and receiver agree exactly on y == x.
#pragma once
#include <array>
#include <cstring>
#include <string>
#include "yacl/crypto/hash/hash_utils.h"
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
namespace shim_kkrt {
constexpr size_t kW = 512, kB = kW / 8;
using Row = std::array<uint8_t, kB>;
inline Row Code(uint128_t x) {
  Row r;
  for (int k = 0; k < 2; ++k) { uint8_t in[17]; std::memcpy(in, &x, 16); in[16] = static_cast<uint8_t>(k); shim_hash::Sha(ByteContainerView(in, 17), r.data() + 32 * k); }
  return r;
}
inline bool Bit(uint128_t seed, uint64_t i) { auto [h, l] = DecomposeUInt128(seed); return (shim::Mix64(shim::Mix64(l + i * 0x9E3779B97F4A7C15ULL) ^ h)) & 1; }
inline void Out(uint64_t i, const Row& r, void* dst, size_t n) {
  std::string s(reinterpret_cast<const char*>(r.data()), kB); s.append(reinterpret_cast<const char*>(&i), 8);
  uint8_t h[32]; shim_hash::Sha(s, h); std::memcpy(dst, h, n < 32 ? n : 32);
}
}  // namespace shim_kkrt
class IGroupPRF { public: virtual ~IGroupPRF() = default; virtual void Eval(uint64_t group, uint128_t in, uint8_t* out, size_t n) = 0; virtual uint128_t Eval(uint64_t group, uint128_t in) = 0; virtual size_t Size() const = 0; };
class KkrtOtExtSender {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtRecvStore& ot, uint64_t n) {
    YACL_ENFORCE(ot.Size() == shim_kkrt::kW);
    q_.assign(n, {}); u_.assign(n, {}); got_ = 0; s_ = {};
    for (size_t j = 0; j < shim_kkrt::kW; ++j) {
      if (ot.GetChoice(j)) s_[j / 8] |= uint8_t(1u << (j % 8));
      for (uint64_t i = 0; i < n; ++i) if (shim_kkrt::Bit(ot.GetBlock(j), i)) q_[i][j / 8] |= uint8_t(1u << (j % 8));
    }
  }
  void SetBatchSize(uint64_t b) { YACL_ENFORCE(b > 0); batch_ = b; }
  [[nodiscard]] uint64_t GetBatchSize() const { return batch_; }
  void RecvCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { SetCorrection(ctx->Recv(ctx->NextRank(), "KKRT"), n); }
  void SetCorrection(ByteContainerView buf, uint64_t n) {
    YACL_ENFORCE(buf.size() == n * shim_kkrt::kB, "correction size {} for {}", buf.size(), n);
    YACL_ENFORCE(got_ + n <= u_.size());
    std::memcpy(u_.data() + got_, buf.data(), buf.size());
    got_ += n;
  }
  void Encode(uint64_t i, uint128_t y, void* dst, uint64_t n) {
    YACL_ENFORCE(i < got_, "encode of instance {} before its correction ({} received)", i, got_);
    auto c = shim_kkrt::Code(y); shim_kkrt::Row r;
    for (size_t k = 0; k < shim_kkrt::kB; ++k) r[k] = q_[i][k] ^ ((u_[i][k] ^ c[k]) & s_[k]);
    shim_kkrt::Out(i, r, dst, n);
  }
  uint128_t Encode(uint64_t i, uint128_t y) { uint128_t o; Encode(i, y, &o, 16); return o; }
  std::shared_ptr<IGroupPRF> GetOprf() {
    struct P : IGroupPRF { KkrtOtExtSender* s; void Eval(uint64_t g, uint128_t in, uint8_t* o, size_t n) override { s->Encode(g, in, o, n); } uint128_t Eval(uint64_t g, uint128_t in) override { return s->Encode(g, in); } size_t Size() const override { return s->q_.size(); } };
    auto p = std::make_shared<P>(); p->s = this; return p;
  }
 private:
  std::vector<shim_kkrt::Row> q_, u_; shim_kkrt::Row s_{}; uint64_t got_ = 0, batch_ = 896;
};
class KkrtOtExtReceiver {
 public:
  void Init(const std::shared_ptr<link::Context>&, const OtSendStore& ot, uint64_t n) {
    YACL_ENFORCE(ot.Size() == shim_kkrt::kW);
    t0_.assign(n, {}); u_.assign(n, {}); set_.assign(n, 0); sent_ = 0;
    for (size_t j = 0; j < shim_kkrt::kW; ++j) for (uint64_t i = 0; i < n; ++i) {
      bool a = shim_kkrt::Bit(ot.GetBlock(j, 0), i), b = shim_kkrt::Bit(ot.GetBlock(j, 1), i);
      if (a) t0_[i][j / 8] |= uint8_t(1u << (j % 8));
      if (a ^ b) u_[i][j / 8] |= uint8_t(1u << (j % 8));
    }
  }
  void SetBatchSize(uint64_t b) { YACL_ENFORCE(b > 0); batch_ = b; }
  [[nodiscard]] uint64_t GetBatchSize() const { return batch_; }
  void Encode(uint64_t i, absl::Span<const uint128_t> x, absl::Span<uint8_t> out) { YACL_ENFORCE(!x.empty()); Encode(i, x[0], out); }
  void Encode(uint64_t i, uint128_t x, absl::Span<uint8_t> out) {
    YACL_ENFORCE(i < t0_.size() && !set_[i], "OPRF instance {} used twice", i);
    set_[i] = 1; auto c = shim_kkrt::Code(x);
    for (size_t k = 0; k < shim_kkrt::kB; ++k) u_[i][k] ^= c[k];
    shim_kkrt::Out(i, t0_[i], out.data(), out.size());
  }
  void ZeroEncode(uint64_t i) {
    YACL_ENFORCE(i < t0_.size() && !set_[i], "OPRF instance {} used twice", i);
    set_[i] = 1; shim::RngBytes(u_[i].data(), shim_kkrt::kB);
  }
  Buffer ShiftCorrection(uint64_t n) {
    YACL_ENFORCE(sent_ + n <= u_.size());
    for (uint64_t i = sent_; i < sent_ + n; ++i) YACL_ENFORCE(set_[i], "instance {} not encoded", i);
    Buffer b(u_.data() + sent_, n * shim_kkrt::kB); sent_ += n; return b;
  }
  void SendCorrection(const std::shared_ptr<link::Context>& ctx, uint64_t n) { ctx->SendAsync(ctx->NextRank(), ShiftCorrection(n), "KKRT"); }
 private:
  std::vector<shim_kkrt::Row> t0_, u_; std::vector<char> set_; uint64_t sent_ = 0, batch_ = 896;
};
}  // namespace yacl::crypto
