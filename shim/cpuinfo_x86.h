#pragma once
// Both feature settings are legal; the checker may select the portable paths.
namespace cpu_features {
struct X86Features { int sse4_1 = 1, sse4_2 = 1, ssse3 = 1, pclmulqdq = 1, avx2 = 1, aes = 1, bmi2 = 1; };
struct X86Info { X86Features features; };
inline X86Info GetX86Info() { return {}; }
}  // namespace cpu_features
