#pragma once
#include <mutex>
#include <condition_variable>
namespace absl {
class Mutex { public: void Lock() { m_.lock(); } void Unlock() { m_.unlock(); } std::mutex m_; };
class MutexLock { public: explicit MutexLock(Mutex* m) : m_(m) { m->Lock(); } ~MutexLock() { m_->Unlock(); } Mutex* m_; };
}
