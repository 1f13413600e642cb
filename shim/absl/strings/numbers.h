#pragma once
#include <charconv>
#include "absl/strings/ascii.h"
namespace absl {
template <class T> bool SimpleAtoi(std::string_view s, T* o) {
  s = StripAsciiWhitespace(s); if (!s.empty() && s[0] == '+') { s.remove_prefix(1); if (!s.empty() && s[0] == '-') return false; }
  if (s.empty()) return false;
  auto r = std::from_chars(s.data(), s.data() + s.size(), *o); return r.ec == std::errc() && r.ptr == s.data() + s.size();
}
inline bool SimpleAtod(std::string_view s, double* o) { s = StripAsciiWhitespace(s); auto r = std::from_chars(s.data(), s.data() + s.size(), *o); return r.ec == std::errc() && r.ptr == s.data() + s.size(); }
}  // namespace absl
