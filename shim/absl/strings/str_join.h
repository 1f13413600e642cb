#pragma once
#include <string>
#include <sstream>
#include "absl/strings/string_view.h"
namespace absl {
template <class R> std::string StrJoin(const R& r, std::string_view sep) {
  std::string o; bool first = true;
  for (const auto& x : r) { if (!first) o += sep; first = false;
    if constexpr (std::is_convertible_v<decltype(x), std::string_view>) o += std::string_view(x); else { std::ostringstream ss; ss << x; o += ss.str(); } }
  return o;
}
template <class T> std::string StrJoin(std::initializer_list<T> r, std::string_view sep) { return StrJoin<std::initializer_list<T>>(r, sep); }
}  // namespace absl
