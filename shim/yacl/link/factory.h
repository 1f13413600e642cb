#pragma once
#include "yacl/link/context.h"
namespace yacl::link {
class ILinkFactory { public: virtual ~ILinkFactory() = default; virtual std::shared_ptr<Context> CreateContext(const ContextDesc& d, size_t rank) = 0; };
namespace detail { inline std::map<std::string, std::weak_ptr<::shim::link::World>>& Worlds() { static std::map<std::string, std::weak_ptr<::shim::link::World>> m; return m; } inline std::mutex& WorldsMu() { static std::mutex m; return m; } }
class FactoryMem : public ILinkFactory {
 public:
  std::shared_ptr<Context> CreateContext(const ContextDesc& d, size_t rank) override {
    std::lock_guard<std::mutex> g(detail::WorldsMu());
    auto w = detail::Worlds()[d.id].lock();
    if (!w) { w = std::make_shared<::shim::link::World>(); detail::Worlds()[d.id] = w; }
    return std::make_shared<Context>(d, rank, w);
  }
};
class FactoryBrpc : public FactoryMem {};
class FactoryBrpcBlackBox : public FactoryMem { public: static void GetPartyNodeInfoFromEnv(std::vector<ContextDesc::Party>&, size_t&) {} };
}  // namespace yacl::link
