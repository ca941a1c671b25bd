// A test case: everything that determines a run apart from the code.
#pragma once
#include "app.h"
#include "rt.h"
#include <map>
#include <string>
#include <vector>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x7F4A7C15) { }
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return u() < p; }
  template <class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
};

using Ops = std::vector<app::Op>;

struct Case
{
  std::string engine;
  std::string profile;
  std::map<std::string, long> n;               // numeric settings
  std::map<std::string, std::string> t;        // text settings (files, environment, ...)
  std::vector<Ops> threads;
  rt::Params p;
  std::string expect_cls;
  uint64_t expect_hash = 0;

  long num(char const* k, long d = 0) const { auto i = n.find(k); return i == n.end() ? d : i->second; }
  std::string str(char const* k, std::string d = "") const { auto i = t.find(k); return i == t.end() ? d : i->second; }
};

std::string case_to_text(Case const& c, std::string const& comment = "");
bool case_from_text(std::string const& text, Case& c, std::string& err);
size_t case_ops(Case const& c);

app::Op mkop(int code, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0, long a5 = 0);
app::Op mkops(int code, std::string const& s, long a0 = 0, long a1 = 0, long a2 = 0);

struct Engine
{
  virtual ~Engine() { }
  virtual bool needs_sut() const { return true; }
  virtual void prepare() { }                       // in the parent
  virtual void generate(Rng& r, Case& c) = 0;      // c.profile is set
  virtual void run(Case const& c) = 0;             // in the child, as simulated thread 0; must end with rt::finish_ok
};
Engine* find_engine(std::string const& name);
void register_engine(std::string const& name, Engine* e);

// probe names (coverage of rare situations)
extern char const* const probe_names[96];
