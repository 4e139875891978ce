#pragma once
#include <mutex>
#include <condition_variable>
#include <chrono>
#include "absl/time/clock.h"
namespace absl {
class Notification {
 public:
  bool HasBeenNotified() const { std::lock_guard<std::mutex> l(m_); return n_; }
  void Notify() { std::lock_guard<std::mutex> l(m_); n_ = true; c_.notify_all(); }
  bool WaitForNotificationWithTimeout(Duration d) const { std::unique_lock<std::mutex> l(m_); return c_.wait_for(l, std::chrono::milliseconds(d.ms), [&] { return n_; }); }
  void WaitForNotification() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return n_; }); }
 private:
  mutable std::mutex m_; mutable std::condition_variable c_; bool n_ = false;
};
}
