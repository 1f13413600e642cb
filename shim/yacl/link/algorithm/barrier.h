#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
inline std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx, ByteContainerView in, std::string_view tag) {
  std::vector<Buffer> out(ctx->WorldSize());
  for (size_t r = 0; r < ctx->WorldSize(); ++r) if (r != ctx->Rank()) ctx->SendAsync(r, in, tag);
  for (size_t r = 0; r < ctx->WorldSize(); ++r) { if (r == ctx->Rank()) out[r] = Buffer(in); else out[r] = ctx->Recv(r, tag); }
  return out;
}
inline std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag) {
  std::vector<Buffer> out;
  if (ctx->Rank() != root) { ctx->SendAsync(root, in, tag); return out; }
  out.resize(ctx->WorldSize());
  for (size_t r = 0; r < ctx->WorldSize(); ++r) { if (r == root) out[r] = Buffer(in); else out[r] = ctx->Recv(r, tag); }
  return out;
}
inline Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView in, size_t root, std::string_view tag) {
  if (ctx->Rank() == root) {
    for (size_t r = 0; r < ctx->WorldSize(); ++r) if (r != root) ctx->SendAsync(r, in, tag);
    return Buffer(in);
  }
  return ctx->Recv(root, tag);
}
inline void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag) { AllGather(ctx, ByteContainerView("b", 1), tag); }
}  // namespace yacl::link
