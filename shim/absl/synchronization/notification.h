#pragma once
#include <condition_variable>
#include <mutex>
#include "absl/time/time.h"
namespace absl {
class Notification {
 public:
  void Notify() { std::lock_guard<std::mutex> g(m_); f_ = true; c_.notify_all(); }
  [[nodiscard]] bool HasBeenNotified() const { std::lock_guard<std::mutex> g(m_); return f_; }
  void WaitForNotification() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return f_; }); }
  bool WaitForNotificationWithTimeout(Duration d) const { std::unique_lock<std::mutex> l(m_); return c_.wait_for(l, d, [&] { return f_; }); }
 private:
  mutable std::mutex m_; mutable std::condition_variable c_; bool f_ = false;
};
}  // namespace absl
