// Stand-in for the header of the same name of the threadsafe submodule (which is absent from this checkout).
#pragma once
#include <condition_variable>
#include <exception>
#include <mutex>

class AIReadWriteMutex
{
  mutable std::mutex m_;
  mutable std::condition_variable c_;
  mutable int readers_ = 0;
  mutable bool writer_ = false, upgrading_ = false;

 public:
  void rdlock() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return !writer_ && !upgrading_; }); ++readers_; }
  void rdunlock() const { std::unique_lock<std::mutex> l(m_); --readers_; c_.notify_all(); }
  void wrlock() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return !writer_ && !upgrading_ && readers_ == 0; }); writer_ = true; }
  void wrunlock() const { std::unique_lock<std::mutex> l(m_); writer_ = false; c_.notify_all(); }
  void rd2wrlock() const
  {
    std::unique_lock<std::mutex> l(m_);
    if (upgrading_) throw std::exception();
    upgrading_ = true;
    c_.wait(l, [&] { return readers_ == 1; });
    upgrading_ = false; readers_ = 0; writer_ = true;
  }
  void wr2rdlock() const { std::unique_lock<std::mutex> l(m_); writer_ = false; readers_ = 1; c_.notify_all(); }
  void rd2wryield() const { std::unique_lock<std::mutex> l(m_); c_.wait(l, [&] { return !upgrading_; }); }
};
