#pragma once
#include <any>
#include <string>
namespace yacl {
namespace shim_spi { struct Arg { std::string v; }; struct ArgName { Arg operator=(const char* s) const { return {s}; } Arg operator=(const std::string& s) const { return {s}; } }; }
inline shim_spi::ArgName ArgLib;
}  // namespace yacl
