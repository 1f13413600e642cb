#pragma once
#include <chrono>
#include <cstdint>
namespace absl {
using Duration = std::chrono::nanoseconds;
using Time = std::chrono::system_clock::time_point;
inline Time Now() { return std::chrono::system_clock::now(); }
inline int64_t ToUnixMillis(Time t) { return std::chrono::duration_cast<std::chrono::milliseconds>(t.time_since_epoch()).count(); }
inline Duration Milliseconds(int64_t n) { return std::chrono::milliseconds(n); }
inline Duration Seconds(int64_t n) { return std::chrono::seconds(n); }
}  // namespace absl
