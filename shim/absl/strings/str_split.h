#pragma once
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
#include "absl/strings/str_join.h"
#include "absl/strings/numbers.h"
namespace absl {
class ByChar { public: explicit ByChar(char c) : d(1, c) {} std::string d; };
class ByString { public: explicit ByString(std::string_view s) : d(s) {} std::string d; };
struct AllowEmpty {}; struct SkipEmpty { bool operator()(std::string_view s) const { return !s.empty(); } };
namespace shim_split {
struct Result { std::vector<std::string_view> v; std::string own;
  operator std::vector<std::string_view>() const& { return v; }
  operator std::vector<std::string>() const { return {v.begin(), v.end()}; }
  template <class A, class B> operator std::pair<A, B>() const { return {A(v.size() > 0 ? v[0] : std::string_view()), B(v.size() > 1 ? v[1] : std::string_view())}; }
  auto begin() const { return v.begin(); } auto end() const { return v.end(); } };
inline std::vector<std::string_view> Do(std::string_view s, std::string_view d, bool skip) {
  std::vector<std::string_view> r; size_t p = 0;
  if (d.empty()) { for (size_t i = 0; i < s.size(); ++i) r.push_back(s.substr(i, 1)); return r; }
  for (;;) { size_t q = s.find(d, p); auto t = s.substr(p, q == std::string_view::npos ? q : q - p); if (!skip || !t.empty()) r.push_back(t); if (q == std::string_view::npos) break; p = q + d.size(); }
  return r;
}
}  // namespace shim_split
inline shim_split::Result StrSplit(std::string_view s, char d) { return {shim_split::Do(s, std::string_view(&d, 1), false), {}}; }
inline shim_split::Result StrSplit(std::string_view s, std::string_view d) { return {shim_split::Do(s, d, false), {}}; }
inline shim_split::Result StrSplit(std::string_view s, ByChar d) { return {shim_split::Do(s, d.d, false), {}}; }
inline shim_split::Result StrSplit(std::string_view s, ByString d) { return {shim_split::Do(s, d.d, false), {}}; }
inline shim_split::Result StrSplit(std::string_view s, char d, SkipEmpty) { return {shim_split::Do(s, std::string_view(&d, 1), true), {}}; }
inline shim_split::Result StrSplit(std::string_view s, std::string_view d, SkipEmpty) { return {shim_split::Do(s, d, true), {}}; }
}  // namespace absl
