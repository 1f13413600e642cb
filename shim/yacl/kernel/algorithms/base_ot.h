// Ideal-functionality stand-in for base OT: the sender hands over both blocks,
// the receiver keeps the chosen one (functionally identical, not private).
#pragma once
#include "yacl/crypto/rand/rand.h"
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
namespace shim_ot {
inline OtSendStore Send(const std::shared_ptr<link::Context>& ctx, uint64_t n) {
  std::vector<std::array<uint128_t, 2>> b(n);
  for (auto& x : b) x = {FastRandU128(), FastRandU128()};
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(b.data(), b.size() * sizeof(b[0])), "OT");
  return OtSendStore(std::move(b));
}
inline OtRecvStore Recv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& c, uint64_t n) {
  YACL_ENFORCE(c.size() == n);
  Buffer buf = ctx->Recv(ctx->NextRank(), "OT");
  YACL_ENFORCE(static_cast<uint64_t>(buf.size()) == n * 32, "OT size mismatch");
  std::vector<uint128_t> b(n);
  for (uint64_t i = 0; i < n; ++i) std::memcpy(&b[i], buf.data<char>() + i * 32 + (c[i] ? 16 : 0), 16);
  return OtRecvStore(c, std::move(b));
}
}  // namespace shim_ot
inline OtSendStore BaseOtSend(const std::shared_ptr<link::Context>& ctx, uint64_t n) { return shim_ot::Send(ctx, n); }
inline OtRecvStore BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& c, uint64_t n) { return shim_ot::Recv(ctx, c, n); }
}  // namespace yacl::crypto
