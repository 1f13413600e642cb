#pragma once
namespace yacl {
inline bool hasAVX2() { return true; }
inline bool hasAVX512ifma() { return false; }
inline bool hasBMI2() { return true; }
inline bool hasAES() { return true; }
}  // namespace yacl
