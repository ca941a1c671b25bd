// Stand-in for the threadsafe submodule (which is absent from this checkout): access objects around a lock.
#pragma once
#include "utils/threading/aithreadid.h"
#include <thread>
#include <chrono>
#include "AIReadWriteMutex.h"
#include <mutex>
#include <utility>

namespace threadsafe {

namespace policy {
template <class M> struct ReadWrite { using mutex_type = M; static constexpr bool rw = true; };
template <class M> struct Primitive { using mutex_type = M; static constexpr bool rw = false; };
struct OneThread { };
} // namespace policy

template <class T, class P> class Unlocked;

template <class T, class M>
class Unlocked<T, policy::ReadWrite<M>>
{
  T data_;
  mutable M mutex_;

 public:
  using data_type = T;
  template <class... A> Unlocked(A&&... a) : data_(std::forward<A>(a)...) { }
  Unlocked(Unlocked const&) = delete;
  Unlocked& operator=(Unlocked const&) = delete;

  class wat;
  class rat
  {
    friend class wat;
    Unlocked const* u_;

   public:
    explicit rat(Unlocked const& u) : u_(&u) { u_->mutex_.rdlock(); }
    rat(rat const&) = delete;
    ~rat() { u_->mutex_.rdunlock(); }
    T const* operator->() const { return &u_->data_; }
    T const& operator*() const { return u_->data_; }
  };
  using crat = rat;
  class wat
  {
    Unlocked* u_;
    bool upgraded_;

   public:
    explicit wat(Unlocked& u) : u_(&u), upgraded_(false) { u_->mutex_.wrlock(); }
    explicit wat(rat& r) : u_(const_cast<Unlocked*>(r.u_)), upgraded_(true) { u_->mutex_.rd2wrlock(); }
    wat(wat const&) = delete;
    wat(wat&& o) : u_(o.u_), upgraded_(o.upgraded_) { o.u_ = nullptr; }
    ~wat() { if (!u_) return; if (upgraded_) u_->mutex_.wr2rdlock(); else u_->mutex_.wrunlock(); }
    T* operator->() const { return &u_->data_; }
    T& operator*() const { return u_->data_; }
  };
  void rd2wryield() const { mutex_.rd2wryield(); }
};

template <class T, class M>
class Unlocked<T, policy::Primitive<M>>
{
  T data_;
  mutable M mutex_;

 public:
  using data_type = T;
  template <class... A> Unlocked(A&&... a) : data_(std::forward<A>(a)...) { }
  Unlocked(Unlocked const&) = delete;

  class wat
  {
    Unlocked* u_;

   public:
    explicit wat(Unlocked& u) : u_(&u) { u_->mutex_.lock(); }
    wat(wat const&) = delete;
    wat(wat&& o) : u_(o.u_) { o.u_ = nullptr; }
    ~wat() { if (u_) u_->mutex_.unlock(); }
    T* operator->() const { return &u_->data_; }
    T& operator*() const { return u_->data_; }
  };
  class rat
  {
    Unlocked const* u_;

   public:
    explicit rat(Unlocked const& u) : u_(&u) { u_->mutex_.lock(); }
    rat(rat const&) = delete;
    ~rat() { u_->mutex_.unlock(); }
    T const* operator->() const { return &u_->data_; }
    T const& operator*() const { return u_->data_; }
  };
  using crat = rat;
};

template <class T>
class Unlocked<T, policy::OneThread>
{
  T data_;

 public:
  template <class... A> Unlocked(A&&... a) : data_(std::forward<A>(a)...) { }
  struct wat { T* p_; explicit wat(Unlocked& u) : p_(&u.data_) { } T* operator->() const { return p_; } T& operator*() const { return *p_; } };
  struct rat { T const* p_; explicit rat(Unlocked const& u) : p_(&u.data_) { } T const* operator->() const { return p_; } T const& operator*() const { return *p_; } };
};

} // namespace threadsafe
