// Stand-in for the header of the same name of the threadsafe submodule (which is absent from this checkout).
// The lock itself lives in the simulator.
#pragma once
#include <exception>

namespace rt {
void rw_rdlock(void const* l);
void rw_wrlock(void const* l);
void rw_rdunlock(void const* l);
void rw_wrunlock(void const* l);
bool rw_upgrade(void const* l);
void rw_downgrade(void const* l);
void rw_forget(void const* l);
void rw_wait_not_upgrading(void const* l);
} // namespace rt

class AIReadWriteMutex
{
  long storage_ = 0;
  void touch() const { (void)*const_cast<long const volatile*>(&storage_); }  // detects use after destruction

 public:
  AIReadWriteMutex() = default;
  AIReadWriteMutex(AIReadWriteMutex const&) = delete;
  ~AIReadWriteMutex() { rt::rw_forget(this); }
  // Throws when another thread is already waiting to convert its read lock; the caller must then
  // release its read lock and call rd2wryield.
  void rd2wrlock() const { touch(); if (!rt::rw_upgrade(this)) throw std::exception(); }
  void wr2rdlock() const { touch(); rt::rw_downgrade(this); }
  void rd2wryield() const { touch(); rt::rw_wait_not_upgrading(this); }
  void rdlock() const { touch(); rt::rw_rdlock(this); }
  void rdunlock() const { touch(); rt::rw_rdunlock(this); }
  void wrlock() const { touch(); rt::rw_wrlock(this); }
  void wrunlock() const { touch(); rt::rw_wrunlock(this); }

};
