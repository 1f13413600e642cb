#pragma once
#include <cctype>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string_view StripLeadingAsciiWhitespace(std::string_view s) { while (!s.empty() && isspace(static_cast<unsigned char>(s.front()))) s.remove_prefix(1); return s; }
inline std::string_view StripTrailingAsciiWhitespace(std::string_view s) { while (!s.empty() && isspace(static_cast<unsigned char>(s.back()))) s.remove_suffix(1); return s; }
inline std::string_view StripAsciiWhitespace(std::string_view s) { return StripTrailingAsciiWhitespace(StripLeadingAsciiWhitespace(s)); }
inline std::string AsciiStrToLower(std::string_view s) { std::string r(s); for (auto& c : r) c = static_cast<char>(tolower(static_cast<unsigned char>(c))); return r; }
inline std::string AsciiStrToUpper(std::string_view s) { std::string r(s); for (auto& c : r) c = static_cast<char>(toupper(static_cast<unsigned char>(c))); return r; }
}  // namespace absl
