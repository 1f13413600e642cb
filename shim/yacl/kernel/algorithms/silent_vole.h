// Functional stand-in for yacl/kernel/algorithms/silent_vole.h: same interface and
// correlation (c = b ^ a * delta), produced with one real message per direction so
// that message ordering of the surrounding protocol is still exercised.
#pragma once
#include <cstring>
#include <memory>
#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/context.h"
#include "yacl/math/galois_field/gf_intrinsic.h"
namespace yacl::crypto {
enum class CodeType { Silver5, Silver11, ExAcc7, ExAcc11, ExAcc21, ExAcc40 };
namespace shim_vole {
struct Msg { uint64_t n; uint64_t code; uint64_t mal; uint64_t sf; uint128_t delta, kb; };
inline uint128_t Ks(uint128_t k, uint64_t i) {
  auto [h, l] = DecomposeUInt128(k);
  uint64_t a = shim::Mix64(shim::Mix64(l + i * 0x9E3779B97F4A7C15ULL) ^ h), b = shim::Mix64(a ^ shim::Mix64(h + i));
  return MakeUint128(a, b);
}
}  // namespace shim_vole
class SilentVoleSender {
 public:
  explicit SilentVoleSender(CodeType code, bool malicious = false) : code_(code), mal_(malicious) { delta_ = SecureRandU128(); }
  void Send(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) { Run(c, b, false); }
  void SfSend(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b) { Run(c, b, true); }
  [[nodiscard]] uint128_t GetDelta() const { return delta_; }
  [[nodiscard]] CodeType GetCodeType() const { return code_; }
 private:
  void Run(const std::shared_ptr<link::Context>& c, absl::Span<uint128_t> b, bool sf) {
    shim_vole::Msg m{b.size(), static_cast<uint64_t>(code_), mal_, sf, delta_, SecureRandU128()};
    c->SendAsync(c->NextRank(), ByteContainerView(&m, sizeof m), "VOLE");
    auto r = c->Recv(c->NextRank(), "VOLE-ACK");
    YACL_ENFORCE(r.size() == 8);
    for (size_t i = 0; i < b.size(); ++i) b[i] = shim_vole::Ks(m.kb, i);
  }
  CodeType code_; bool mal_; uint128_t delta_ = 0;
};
class SilentVoleReceiver {
 public:
  explicit SilentVoleReceiver(CodeType code, bool malicious = false) : code_(code), mal_(malicious) {}
  void Recv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint128_t> a, absl::Span<uint128_t> c) {
    auto m = Get(ctx, a.size(), c.size(), false);
    auto ka = SecureRandU128();
    for (size_t i = 0; i < a.size(); ++i) { a[i] = shim_vole::Ks(ka, i); c[i] = shim_vole::Ks(m.kb, i) ^ GfMul128(a[i], m.delta); }
  }
  void SfRecv(const std::shared_ptr<link::Context>& ctx, absl::Span<uint64_t> a, absl::Span<uint128_t> c) {
    auto m = Get(ctx, a.size(), c.size(), true);
    auto ka = SecureRandU128();
    for (size_t i = 0; i < a.size(); ++i) { a[i] = static_cast<uint64_t>(shim_vole::Ks(ka, i)); c[i] = shim_vole::Ks(m.kb, i) ^ GfMul128(m.delta, a[i]); }
  }
 private:
  shim_vole::Msg Get(const std::shared_ptr<link::Context>& ctx, size_t na, size_t nc, bool sf) {
    auto r = ctx->Recv(ctx->NextRank(), "VOLE");
    shim_vole::Msg m;
    YACL_ENFORCE(r.size() == sizeof m, "vole message size {}", r.size());
    std::memcpy(&m, r.data(), sizeof m);
    YACL_ENFORCE(m.n == na && na == nc, "vole length mismatch {} {} {}", m.n, na, nc);
    YACL_ENFORCE(m.code == static_cast<uint64_t>(code_) && (m.mal != 0) == mal_ && (m.sf != 0) == sf, "vole parameter mismatch");
    uint64_t ok = 1;
    ctx->SendAsync(ctx->NextRank(), ByteContainerView(&ok, 8), "VOLE-ACK");
    return m;
  }
  CodeType code_; bool mal_;
};
}  // namespace yacl::crypto
