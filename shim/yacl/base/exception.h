// Stand-in for yacl/base/exception.h.
#pragma once
#include <exception>
#include <stdexcept>
#include <string>
#include <utility>
#include "absl/strings/str_split.h"
#include "absl/types/span.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "spdlog/spdlog.h"
#include "fmt/ranges.h"
#include <variant>
#include "yacl/base/int128.h"
namespace yacl {
namespace internal {
inline std::string Format() { return {}; }
template <typename S> inline std::string Format(S&& s) {
  if constexpr (std::is_constructible_v<std::string, S&&>) return std::string(std::forward<S>(s)); else return fmt::format("{}", s);
}
template <typename S, typename A0, typename... A>
inline std::string Format(S&& s, A0&& a0, A&&... a) {
  return fmt::vformat(fmt::string_view(s), fmt::make_format_args(a0, a...));
}
}  // namespace internal
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string m) : msg_(std::move(m)) {}
  Exception(std::string m, void**, int) : msg_(std::move(m)) {}
  [[nodiscard]] const char* what() const noexcept override { return msg_.c_str(); }
  [[nodiscard]] const std::string& stack_trace() const noexcept { return stack_; }
 private:
  std::string msg_, stack_;
};
#define YACL_SHIM_EXC(N, B) \
  class N : public B { public: using B::B; };
YACL_SHIM_EXC(RuntimeError, Exception)
YACL_SHIM_EXC(LogicError, Exception)
YACL_SHIM_EXC(NotImplementedError, RuntimeError)
YACL_SHIM_EXC(InvalidFormat, RuntimeError)
YACL_SHIM_EXC(ArgumentError, RuntimeError)
YACL_SHIM_EXC(IoError, RuntimeError)
YACL_SHIM_EXC(NetworkError, RuntimeError)
YACL_SHIM_EXC(LinkError, NetworkError)
class EnforceNotMet : public Exception {
 public:
  using Exception::Exception;
  EnforceNotMet(const char* file, int line, const char* cond, const std::string& msg)
      : Exception(fmt::format("[Enforce fail at {}:{}] {}. {}", file, line, cond, msg)) {}
};
}  // namespace yacl
#define YACL_SHIM_THROW(E, ...) throw E(fmt::format("[{}:{}] {}", __FILE__, __LINE__, ::yacl::internal::Format(__VA_ARGS__)))
#define YACL_THROW_HELPER(E, ...) YACL_SHIM_THROW(E, __VA_ARGS__)
#define YACL_THROW_WITH_STACK(...) YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) YACL_THROW_HELPER(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) YACL_THROW_HELPER(::yacl::InvalidFormat, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) YACL_THROW_HELPER(::yacl::ArgumentError, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) YACL_THROW_HELPER(::yacl::NetworkError, __VA_ARGS__)
#define YACL_THROW_LINK_ERROR(code, http, ...) YACL_THROW_HELPER(::yacl::LinkError, __VA_ARGS__)
#define YACL_THROW_NOT_IMPL(...) YACL_THROW_HELPER(::yacl::NotImplementedError, __VA_ARGS__)
#define YACL_ENFORCE_THROW(...) throw ::yacl::EnforceNotMet(__FILE__, __LINE__, "", ::yacl::internal::Format(__VA_ARGS__))
#define YACL_ENFORCE(condition, ...)                                                  \
  do {                                                                                \
    if (!(condition)) {                                                               \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #condition,                     \
                                  ::yacl::internal::Format(__VA_ARGS__));             \
    }                                                                                 \
  } while (false)
#define YACL_SHIM_CMP(x, y, op, ...)                                                  \
  do {                                                                                \
    if (!((x)op(y))) {                                                                \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #x " " #op " " #y,              \
                                  ::yacl::internal::Format(__VA_ARGS__));             \
    }                                                                                 \
  } while (false)
#define YACL_ENFORCE_EQ(x, y, ...) YACL_SHIM_CMP(x, y, ==, __VA_ARGS__)
#define YACL_ENFORCE_NE(x, y, ...) YACL_SHIM_CMP(x, y, !=, __VA_ARGS__)
#define YACL_ENFORCE_LE(x, y, ...) YACL_SHIM_CMP(x, y, <=, __VA_ARGS__)
#define YACL_ENFORCE_LT(x, y, ...) YACL_SHIM_CMP(x, y, <, __VA_ARGS__)
#define YACL_ENFORCE_GE(x, y, ...) YACL_SHIM_CMP(x, y, >=, __VA_ARGS__)
#define YACL_ENFORCE_GT(x, y, ...) YACL_SHIM_CMP(x, y, >, __VA_ARGS__)
namespace yacl {
template <typename T> inline T CheckNotNull(T&& t) {
  if (t == nullptr) throw EnforceNotMet(__FILE__, __LINE__, "not null", "");
  return std::forward<T>(t);
}
}  // namespace yacl

#ifndef WEAK_ENFORCE
#define WEAK_ENFORCE(...) YACL_ENFORCE(__VA_ARGS__)
#endif
