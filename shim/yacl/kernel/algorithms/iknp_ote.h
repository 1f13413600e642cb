#pragma once
#include "yacl/kernel/algorithms/base_ot.h"
namespace yacl::crypto {
inline OtSendStore IknpOtExtSend(const std::shared_ptr<link::Context>& ctx, const OtRecvStore&, uint64_t n, bool = false) { return shim_ot::Send(ctx, n); }
inline OtRecvStore IknpOtExtRecv(const std::shared_ptr<link::Context>& ctx, const OtSendStore&, const dynamic_bitset<uint128_t>& c, uint64_t n, bool = false) { return shim_ot::Recv(ctx, c, n); }
}  // namespace yacl::crypto
