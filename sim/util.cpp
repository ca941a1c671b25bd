// Engine "util": the helpers that programs use inside debug output - type information, demangling, printing of buffers, names of
// error numbers - called by several threads (C24).
#include "util.h"
#include "simple.h"
#include <cerrno>
#include <cstring>
#include <map>

using namespace app;

namespace util {

// Demangled name, name, size, size of what it points to.
static char const* const types[NTYPE] = {
  "int\001" "i\001" "4\001" "0",
  "int\001" "i\001" "4\001" "0",
  "int const&\001" "RKi\001" "4\001" "0",
  "char const*\001" "PKc\001" "8\001" "1",
  "char const*\001" "PKc\001" "8\001" "1",
  "void*\001" "Pv\001" "8\001" "0",
  "void*\001" "Pv\001" "8\001" "0",
  "app::util_types::Plain\001" "N3app10util_types5PlainE\001" "24\001" "0",
  "app::util_types::Plain*\001" "PN3app10util_types5PlainE\001" "8\001" "24",
  "app::util_types::Plain const volatile&\001" "RVKN3app10util_types5PlainE\001" "24\001" "0",
  "app::util_types::Two<int, char*>\001" "N3app10util_types3TwoIiPcEE\001" "16\001" "0",
  "app::util_types::Two<int, char*>::Inner\001" "N3app10util_types3TwoIiPcE5InnerE\001" "20\001" "0",
  "app::util_types::Two<app::util_types::Plain, app::util_types::Two<long, app::util_types::Colour> > const*\001" "PKN3app10util_types3TwoINS0_5PlainENS1_IlNS0_6ColourEEEEE\001" "8\001" "40",
  "app::util_types::Incomplete*\001" "PN3app10util_types10IncompleteE\001" "8\001" "0",
  "app::util_types::Colour\001" "N3app10util_types6ColourE\001" "4\001" "0",
  "int (*)(app::util_types::Plain&, double)\001" "PFiRN3app10util_types5PlainEdE\001" "8\001" "0",
  "int [3]\001" "A3_i\001" "12\001" "0",
  "int**\001" "PPi\001" "8\001" "8",
  "bool\001" "b\001" "1\001" "0",
  "<unknown type>\001(null)\001" "0\001" "0",
  "void (*)(app::util_types::N<0>, app::util_types::N<1>, app::util_types::N<2>, app::util_types::N<3>, app::util_types::N<4>, app::util_types::N<5>, app::util_types::N<6>, app::util_types::N<7>, app::util_types::N<8>, app::util_types::N<9>, app::util_types::N<10>, app::util_types::N<11>, app::util_types::N<12>, app::util_types::N<13>, app::util_types::N<14>, app::util_types::N<15>, app::util_types::N<16>, app::util_types::N<17>, app::util_types::N<18>, app::util_types::N<19>, app::util_types::N<20>, app::util_types::N<21>, app::util_types::N<22>, app::util_types::N<23>, app::util_types::N<24>, app::util_types::N<25>, app::util_types::N<26>, app::util_types::N<27>, app::util_types::N<28>, app::util_types::N<29>, app::util_types::N<30>, app::util_types::N<31>, app::util_types::N<32>, app::util_types::N<33>, app::util_types::N<34>, app::util_types::N<35>, app::util_types::N<36>, app::util_types::N<37>, app::util_types::N<38>, app::util_types::N<39>, app::util_types::N<40>, app::util_types::N<41>, app::util_types::N<42>, app::util_types::N<43>, app::util_types::N<43>, app::util_types::N<20>, app::util_types::N<1>, app::util_types::N<35>, app::util_types::N<36>, app::util_types::N<37>)\001" "PFvN3app10util_types1NILi0EEENS1_ILi1EEENS1_ILi2EEENS1_ILi3EEENS1_ILi4EEENS1_ILi5EEENS1_ILi6EEENS1_ILi7EEENS1_ILi8EEENS1_ILi9EEENS1_ILi10EEENS1_ILi11EEENS1_ILi12EEENS1_ILi13EEENS1_ILi14EEENS1_ILi15EEENS1_ILi16EEENS1_ILi17EEENS1_ILi18EEENS1_ILi19EEENS1_ILi20EEENS1_ILi21EEENS1_ILi22EEENS1_ILi23EEENS1_ILi24EEENS1_ILi25EEENS1_ILi26EEENS1_ILi27EEENS1_ILi28EEENS1_ILi29EEENS1_ILi30EEENS1_ILi31EEENS1_ILi32EEENS1_ILi33EEENS1_ILi34EEENS1_ILi35EEENS1_ILi36EEENS1_ILi37EEENS1_ILi38EEENS1_ILi39EEENS1_ILi40EEENS1_ILi41EEENS1_ILi42EEENS1_ILi43EEES19_SM_S3_S11_S12_S13_E\001" "8\001" "0",
  "void (* const&)(app::util_types::N<0>, app::util_types::N<1>, app::util_types::N<2>, app::util_types::N<3>, app::util_types::N<4>, app::util_types::N<5>, app::util_types::N<6>, app::util_types::N<7>, app::util_types::N<8>, app::util_types::N<9>, app::util_types::N<10>, app::util_types::N<11>, app::util_types::N<12>, app::util_types::N<13>, app::util_types::N<14>, app::util_types::N<15>, app::util_types::N<16>, app::util_types::N<17>, app::util_types::N<18>, app::util_types::N<19>, app::util_types::N<20>, app::util_types::N<21>, app::util_types::N<22>, app::util_types::N<23>, app::util_types::N<24>, app::util_types::N<25>, app::util_types::N<26>, app::util_types::N<27>, app::util_types::N<28>, app::util_types::N<29>, app::util_types::N<30>, app::util_types::N<31>, app::util_types::N<32>, app::util_types::N<33>, app::util_types::N<34>, app::util_types::N<35>, app::util_types::N<36>, app::util_types::N<37>, app::util_types::N<38>, app::util_types::N<39>, app::util_types::N<40>, app::util_types::N<41>, app::util_types::N<42>, app::util_types::N<43>, app::util_types::N<43>, app::util_types::N<20>, app::util_types::N<1>, app::util_types::N<35>, app::util_types::N<36>, app::util_types::N<37>)\001" "RKPFvN3app10util_types1NILi0EEENS1_ILi1EEENS1_ILi2EEENS1_ILi3EEENS1_ILi4EEENS1_ILi5EEENS1_ILi6EEENS1_ILi7EEENS1_ILi8EEENS1_ILi9EEENS1_ILi10EEENS1_ILi11EEENS1_ILi12EEENS1_ILi13EEENS1_ILi14EEENS1_ILi15EEENS1_ILi16EEENS1_ILi17EEENS1_ILi18EEENS1_ILi19EEENS1_ILi20EEENS1_ILi21EEENS1_ILi22EEENS1_ILi23EEENS1_ILi24EEENS1_ILi25EEENS1_ILi26EEENS1_ILi27EEENS1_ILi28EEENS1_ILi29EEENS1_ILi30EEENS1_ILi31EEENS1_ILi32EEENS1_ILi33EEENS1_ILi34EEENS1_ILi35EEENS1_ILi36EEENS1_ILi37EEENS1_ILi38EEENS1_ILi39EEENS1_ILi40EEENS1_ILi41EEENS1_ILi42EEENS1_ILi43EEES19_SM_S3_S11_S12_S13_E\001" "8\001" "0",
};

static struct { char const* in; char const* out; bool type; } const names[] = {
  {"_Z1fv", "f()", false},
  {"_ZN1A1BIiE3fooEPKc", "A::B<int>::foo(char const*)", false},
  {"_Z3barRKSs", "bar(std::string const&)", false},
  {"_ZNSt6vectorIiSaIiEE9push_backERKi", "std::vector<int, std::allocator<int> >::push_back(int const&)", false},
  {"_ZN3fooD2Ev", "foo::~foo()", false},
  {"_ZNK3fooixEm", "foo::operator[](unsigned long) const", false},
  {"_ZlsRSoRK3foo", "operator<<(std::ostream&, foo const&)", false},
  {"_ZTV3foo", "vtable for foo", false},
  {"_ZGVZ4mainvE1x", "guard variable for main()::x", false},
  {"_ZN12_GLOBAL__N_11gEv", "(anonymous namespace)::g()", false},
  {"_Z1tIiEvT_", "void t<int>(int)", false},
  {"_ZN1AcviEv", "A::operator int()", false},
  {"_Zfoo", "_Zfoo", false},
  {"_Z", "_Z", false},
  {"main", "main", false},
  {"PKc", "char const*", true},
  {"St4pairIilE", "std::pair<int, long>", true},
  {"PFvRidE", "void (*)(int&, double)", true},
  {"A3_i", "int [3]", true},
  {"St6vectorIiSaIiEE", "std::vector<int, std::allocator<int> >", true},
  {"M1AFivE", "int (A::*)()", true},
  {"xx", "xx", true},
#include "names.h"
};
constexpr int NNAME = sizeof names / sizeof *names;

std::string garble(std::string s, bool fixed, Rng& r)
{
  static char const alphabet[] = "ZNKSTtIELJabcdefghilmnorstvwxyPRAFMCDGV0123456789_X";
  static char const* const pieces[] = {"N", "3foo", "I", "E", "T_", "T0_", "S_", "S0_", "Z", "X", "L", "8_GLOBAL_", "12_GLOBAL__N_1", "K", "P", "F", "A", "M", "ad", "cv", "GV", "Th", "1", "_", "St", "99999999999", "L_Z", "C1", "D1", "1fI", "XT_E", "1gIXT_EE", "XadT_LT0_E", "v", "T_E", "IS_E"};
  size_t n = s.size(), first = s.compare(0, 2, "_Z") == 0 ? 2 : 0;
  auto at = [&] { return first + r.below(s.size() - first); };
  if (n <= first) return s;
  switch (r.below(4))
  {
    case 0: s.resize(at()); break;
    case 1:
      s.resize(first);
      for (int i = (int)r.range(1, 9); i > 0; --i) s += pieces[r.below(sizeof pieces / sizeof *pieces)];
      break;
    default:
      for (int i = (int)r.range(1, 5); i > 0 && s.size() > first; --i)
        switch (r.below(4))
        {
          case 0: s.erase(at(), 1); break;
          case 1: s.insert(at(), 1, alphabet[r.below(sizeof alphabet - 1)]); break;
          default: s[at()] = alphabet[r.below(sizeof alphabet - 1)]; break;
        }
      break;
  }
  if (fixed || s.size() > 2 * n + 40) s.resize(n);
  return s;
}

static std::string escaped(std::string const& s)
{
  std::string r;
  for (unsigned char c : s)
  {
    char b[8];
    if (c >= 7 && c <= 13) { r += '\\'; r += "abtnvfr"[c - 7]; }
    else if (c == 27) r += "\\e";
    else if (c == '\\') r += "\\\\";
    else if (c >= 32 && c < 127) r += (char)c;
    else { snprintf(b, sizeof b, "\\x%02X", c); r += b; }
  }
  return r;
}

Op generate(Rng& r)
{
  Op o;
  switch (r.below(8))
  {
    case 0: case 1: case 2: case 3: o.code = U_TYPE; o.a[0] = (long)r.below(NTYPE); break;
    case 4: case 5: { o.code = U_DEMANGLE; auto& n = names[r.below(NNAME)]; o.a[0] = n.type; o.s = r.chance(.6) ? n.in : garble(n.in, false, r); break; }
    case 6: o.code = U_BUF; o.a[0] = (long)r.below(2); for (int i = (int)r.below(20); i > 0; --i) o.s += (char)r.below(256); break;
    default: o.code = U_ERRNO; o.a[0] = r.chance(.8) ? r.range(0, 135) : (long)(r.next() & 0xffffffff); break;
  }
  o.a[3] = (long)r.below(100);
  return o;
}

bool mine(Op const& op) { return op.code >= U_TYPE && op.code <= U_ERRNO; }

void check(Op const& op, std::string const& text)
{
  std::string e;
  switch (op.code)
  {
    case U_TYPE: if (op.a[0] < 0 || op.a[0] >= NTYPE) return; e = types[op.a[0]]; break;
    case U_DEMANGLE:
      for (auto& n : names) if (n.type == (op.a[0] != 0) && op.s == n.in) e = n.out;
      if (e.empty())
      {
        // Not a valid name (or by chance one that is not in the list): the answer is up to the library, but always the same.
        static std::map<std::pair<bool, std::string>, std::string> first;
        e = first.insert({{op.a[0] != 0, op.s}, text}).first->second;
      }
      break;
    case U_BUF: e = escaped(op.s); break;
    default:
    {
      char const* n = op.a[0] <= EDQUOT ? strerrorname_np((int)op.a[0]) : nullptr;
      e = op.a[0] == 41 || op.a[0] == 58 ? text : n ? n : "UNKNOWN ERROR";       // those two numbers are not used
      break;
    }
  }
  if (text != e) rt::violation("helper-answer", std::string(code_names[op.code]) + " " + std::to_string(op.a[0]) + " " + show_text(op.s) + " gives " + show_text(text) + " but should give " + show_text(e));
}

} // namespace util

namespace {

struct UtilHooks : SimpleHooks
{
  explicit UtilHooks(Case const& cc) : SimpleHooks(cc) { }
  void post(Op const& op, long, std::string const& text) override
  {
    rt::InRt g;
    rt::note("%d: %s %ld %s -> %s", rt::tid(), code_names[op.code], op.a[0], show_text(op.s).c_str(), show_text(text).c_str());
    util::check(op, text);
  }
};

struct UtilEngine : Engine
{
  void generate(Rng& r, Case& c) override
  {
    int nt = (int)r.range(1, 5);
    c.threads.resize(1 + (size_t)nt);
    // Everything happens for the first time only once, so programs are short and threads do the same things.
    std::vector<Op> pool;
    for (int i = (int)r.range(1, 4); i > 0; --i) pool.push_back(util::generate(r));
    auto body = [&](Ops& o) { for (int i = (int)r.range(1, 5); i > 0; --i) o.push_back(r.chance(.7) ? pool[r.below(pool.size())] : util::generate(r)); };
    Ops& m = c.threads[0];
    if (r.chance(.2)) body(m);
    for (int i = 1; i <= nt; ++i) { body(c.threads[(size_t)i]); m.push_back(mkop(T_SPAWN, i)); if (r.chance(.1)) m.push_back(mkop(T_JOIN, i)); }
    if (r.chance(.7)) body(m);
    for (int i = 1; i <= nt; ++i) m.push_back(mkop(T_JOIN, i));
    if (r.chance(.3)) body(m);
    auto& q = c.p;
    q.seed = r.next() >> 1;
    q.strategy = (int)r.below(5);
    static double const ps[] = {.02, .1, .3, .6};
    q.p = q.strategy == 2 ? .03 : ps[r.below(4)];
    q.depth = 1 + (int)r.below(5);
    q.horizon = 500ull << r.below(6);
    q.reuse = r.chance(.3);
    if (r.chance(.15)) { q.stall_tid = (int)r.below((uint64_t)nt + 1); q.stall_from = r.below(2000); q.stall_to = q.stall_from + r.below(5000); }
  }
  void run(Case const& c) override
  {
    UtilHooks* h = new UtilHooks(c);
    rt::begin(c.p);
    sut.init(h);
    uint64_t leak_seq = rt::alloc_seq();
    { rt::OutRt o; sut.run(h, c.threads[0]); }
    if (!h->err.text.empty()) rt::violation("helper-output", "written " + show_text(h->err.text));
    rt::check_leaks(leak_seq);
    rt::finish_ok();
  }
};
UtilEngine util_engine;
struct RegUtil { RegUtil() { register_engine("util", &util_engine); } } reg_util;

} // namespace
