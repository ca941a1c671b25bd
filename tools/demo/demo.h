// Shared by the demonstrations: ordinary includes and a capturing output stream.
#pragma once
#include "sys.h"
#include <libcwd/debug.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

using namespace std::chrono_literals;

// Turn everything on in the calling thread.
inline void all_on()
{
  Debug(if (!libcwd::libcw_do.is_on(LIBCWD_TSD_INSTANCE)) libcwd::libcw_do.on());
  ForAllDebugChannels(while (!debugChannel.is_on()) debugChannel.on(););
}

// An output stream that records what is written to it and how much of that was flushed.
struct Capture : public std::streambuf
{
  std::string text;
  std::size_t flushed = 0;
  std::function<void()> on_write;
  std::function<void()> on_flush;
  std::ostream os{this};
  int overflow(int c) override { text += (char)c; if (on_write) on_write(); return c; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { text.append(s, n); if (on_write) on_write(); return n; }
  int sync() override { flushed = text.size(); if (on_flush) on_flush(); return 0; }
};

inline int check(bool ok, char const* what)
{
  if (!ok) std::fprintf(stderr, "DEMO FAILED: %s\n", what);
  return ok ? 0 : 1;
}
