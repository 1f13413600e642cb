// Stand-in for yacl/crypto/ecc/ec_point.h.
#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include <variant>
namespace yacl::crypto {
using Array32 = std::array<unsigned char, 32>;
using Array128 = std::array<unsigned char, 128>;
using Array160 = std::array<unsigned char, 160>;
using Array320 = std::array<unsigned char, 320>;
using AnyPtr = std::shared_ptr<void>;
using EcPoint = std::variant<Array32, Array128, Array160, Array320, AnyPtr>;
}  // namespace yacl::crypto
