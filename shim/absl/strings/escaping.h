#pragma once
#include <cstdint>
#include <string>
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/strings/numbers.h"
#include "absl/strings/ascii.h"
namespace absl {
inline std::string BytesToHexString(std::string_view s) { static const char* h = "0123456789abcdef"; std::string r; r.reserve(2 * s.size()); for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r; }
inline std::string HexStringToBytes(std::string_view s) { std::string r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1])); return r; }
namespace shim64 {
inline void Enc(std::string_view s, std::string* o, bool url, bool pad) {
  const char* A = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  o->clear(); size_t i = 0; auto b = [&](size_t k) { return static_cast<uint32_t>(static_cast<unsigned char>(s[k])); };
  for (; i + 2 < s.size(); i += 3) { uint32_t v = b(i) << 16 | b(i + 1) << 8 | b(i + 2); *o += A[v >> 18]; *o += A[v >> 12 & 63]; *o += A[v >> 6 & 63]; *o += A[v & 63]; }
  if (i + 1 == s.size()) { uint32_t v = b(i) << 16; *o += A[v >> 18]; *o += A[v >> 12 & 63]; if (pad) *o += "=="; }
  else if (i + 2 == s.size()) { uint32_t v = b(i) << 16 | b(i + 1) << 8; *o += A[v >> 18]; *o += A[v >> 12 & 63]; *o += A[v >> 6 & 63]; if (pad) *o += "="; }
}
inline bool Dec(std::string_view s, std::string* o, bool url) {
  o->clear(); uint32_t v = 0; int n = 0; bool end = false; size_t np = 0;
  for (char c : s) {
    if (c == ' ' || c == '\n' || c == '\r' || c == '\t') continue;
    if (c == '=' || c == '.') { end = true; ++np; continue; }
    if (end) return false;
    int d = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == (url ? '-' : '+') ? 62 : c == (url ? '_' : '/') ? 63 : -1;
    if (d < 0) { o->clear(); return false; }
    v = v << 6 | d; n += 6;
    if (n >= 8) { n -= 8; *o += static_cast<char>(v >> n & 255); v &= (1u << n) - 1; }
  }
  return n != 6 && np <= 2;
}
}  // namespace shim64
inline void Base64Escape(std::string_view s, std::string* o) { shim64::Enc(s, o, false, true); }
inline std::string Base64Escape(std::string_view s) { std::string r; Base64Escape(s, &r); return r; }
inline bool Base64Unescape(std::string_view s, std::string* o) { return shim64::Dec(s, o, false); }
inline void WebSafeBase64Escape(std::string_view s, std::string* o) { shim64::Enc(s, o, true, false); }
inline std::string WebSafeBase64Escape(std::string_view s) { std::string r; WebSafeBase64Escape(s, &r); return r; }
inline bool WebSafeBase64Unescape(std::string_view s, std::string* o) { return shim64::Dec(s, o, true); }
}  // namespace absl
