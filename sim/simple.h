// A small base for the engines that do not model the debug output in detail.
#pragma once
#include "case.h"
#include "rt.h"
#include "world.h"
#include <iostream>
#include <memory>
#include <string>
#include <vector>

struct Sink : std::streambuf
{
  std::string text;
  long syncs = 0;
  int overflow(int c) override { if (c != EOF) { char ch = (char)c; put(&ch, 1); } return 0; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { put(s, (size_t)n); return n; }
  int sync() override { ++syncs; return 0; }
  virtual void put(char const* s, size_t n) { rt::point(rt::P_IO); rt::InRt g; text.append(s, n); }
};

// Default behaviour: every operation is allowed and nothing is checked.
struct SimpleHooks : app::Hooks
{
  Case const& c;
  Sink err, out;
  std::ostream os{&out};
  std::vector<int> tid_of;
  explicit SimpleHooks(Case const& cc) : c(cc), tid_of(cc.threads.size(), -1) { std::cerr.rdbuf(&err); std::cerr.clear(); }
  bool stmt_begin(app::Op const&) override { return true; }
  void body_begin(app::Op const&) override { }
  std::string item(app::Op const& op) override { return op.s; }
  void body_end(app::Op const&) override { }
  void stmt_end(app::Op const&, bool) override { }
  bool pre(app::Op const&) override { return true; }
  void post(app::Op const&, long, std::string const&) override { }
  std::ostream* stream(int) override { return &os; }
  void scope(app::Op const&, bool) override { }
  long external(app::Op const& op) override
  {
    rt::InRt g;
    size_t i = (size_t)op.a[0];
    switch (op.code)
    {
      case app::T_SPAWN:
        if (i >= tid_of.size() || tid_of[i] >= 0) return 0;
        tid_of[i] = rt::spawn([this, i] { rt::OutRt o; sut.run(this, c.threads[i]); });
        break;
      case app::T_JOIN:
        if (i < tid_of.size() && tid_of[i] >= 0) { rt::join(tid_of[i]); tid_of[i] = -2; }
        break;
      case app::T_SLEEP: rt::sleep_ns((uint64_t)op.a[0] * 1000); break;
      default: rt::point(rt::P_SYNC); break;
    }
    return 0;
  }
};
std::string show_text(std::string const& s);
