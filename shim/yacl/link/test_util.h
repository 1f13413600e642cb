#pragma once
#include "yacl/link/link.h"
namespace yacl::link::test {
inline std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n) {
  ContextDesc d; d.id = id;
  for (size_t i = 0; i < n; ++i) d.parties.emplace_back("id-" + std::to_string(i), "host-" + std::to_string(i));
  auto w = std::make_shared<::shim::link::World>();
  std::vector<std::shared_ptr<Context>> v;
  for (size_t i = 0; i < n; ++i) v.push_back(std::make_shared<Context>(d, i, w));
  return v;
}
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("world", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld("world", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(const std::string& id, size_t n) { return SetupWorld(id, n); }
}  // namespace yacl::link::test
