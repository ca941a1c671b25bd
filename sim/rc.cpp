// Engine "rc": reading the runtime configuration file (C15).
#include "simple.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <iostream>
#include <map>
#include <set>

using namespace app;

std::string show_text(std::string const& s)
{
  std::string r = "\"";
  for (unsigned char ch : s.size() > 600 ? s.substr(s.size() - 600) : s) { if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; } else r += (char)ch; }
  return r + "\"";
}

namespace {

enum { PR_DEFAULT_FILE = 40, PR_OVERRIDE, PR_SYNTAX, PR_UNKNOWN, PR_FATAL, PR_READ_ERR, PR_ELF, PR_TWICE, PR_HOME, PR_MASK,
  PR_INIT = 64, PR_INIT_TWICE, PR_FROM_RC, PR_LATE_CHANNEL, PR_COPY_RC, PR_USER = 73 };
constexpr long E_FATAL = 180;
char const* const DATADIR_RC = "/usr/local/share/libcwd/libcwdrc";

std::string upper(std::string s) { for (auto& c : s) c = (char)toupper((unsigned char)c); return s; }
std::string trim(std::string const& s)
{
  size_t a = s.find_first_not_of(" \t\n\v");
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(" \t\n\v") - a + 1);
}
// '*' matches any sequence. Dynamic programming, so that it has nothing in common with the implementation.
bool glob(std::string const& m, std::string const& s)
{
  std::vector<char> row(s.size() + 1, 0);
  row[0] = 1;
  for (char c : m)
  {
    std::vector<char> nx(s.size() + 1, 0);
    if (c == '*') { bool any = false; for (size_t j = 0; j <= s.size(); ++j) { any |= row[j] != 0; nx[j] = any; } }
    else for (size_t j = 0; j < s.size(); ++j) if (row[j] && s[j] == c) nx[j + 1] = 1;
    row = nx;
  }
  return row[s.size()];
}
std::string err_text(int e) { char b[200]; return std::string(strerrorname_np(e)) + " (" + strerror_r(e, b, sizeof b) + ")"; }

struct Rc
{
  Case const& c;
  std::map<std::string, int> off;        // count per channel; < 0 is on
  size_t width = 8;
  int obj = 0;
  struct Values { std::string gdb, xterm; bool called = false; } own[2];       // the object of the library, an object of the program
  std::string user_seen;
  bool user = false;               // which of them reads
  std::string expect;                    // output
  std::string margin;
  std::string fatal;                     // not empty: the process must terminate here
  explicit Rc(Case const& cc) : c(cc) { }

  bool on(std::string const& l) { return off[l] < 0; }
  void out(std::string const& label, std::string const& text, int indent = 0)
  {
    if (obj >= 0) return;
    std::string l = label;
    l.resize(width, ' ');
    expect += margin + l + ": " + std::string((size_t)indent, ' ') + text + "\n";
  }
  // 0 no; 1 yes; 2 fatal
  int exists(std::string const& p)
  {
    auto i = world::vfs.find(p);
    if (i == world::vfs.end() || i->second.stat_errno || (i->second.mode & 0170000) != 0100000) return 0;
    if (i->second.access_errno) { fatal = "read_rcfile: " + p + ": " + err_text(i->second.access_errno); return 2; }
    return 1;
  }
  bool silent = false;
  void rcmsg(std::string const& t, int indent = 0) { if (!silent) out("RCFILE", t, indent); }

  void warn_once(std::vector<std::string> const& lines)
  {
    bool w = on("WARNING");
    if (!w) --off["WARNING"];
    for (auto& l : lines) if (on("WARNING")) out("WARNING", l);
    if (!w) ++off["WARNING"];
  }
  void read(bool pw_ok, std::vector<world::VOpen> const& op)
  {
    size_t no = 0;
    auto env = [&](char const* n) -> std::string const* { auto i = world::env.find(n); return i == world::env.end() ? nullptr : &i->second; };
    std::string const* e = env("LIBCWD_RCFILE_NAME");
    std::string rcname = e ? *e : ".libcwdrc";
    bool env_set = e != nullptr;
    silent = false;
    std::string name, home = "$HOME";
    std::vector<std::pair<std::string, std::string>> cand;   // file, directory
    cand.push_back({rcname, "."});
    if (std::string const* h = env("HOME"); h && !h->empty()) cand.push_back({*h + "/" + rcname, *h});
    if (pw_ok) { cand.push_back({world::pw_dir + "/" + rcname, world::pw_dir}); home = world::pw_dir; }
    for (auto& k : cand)
    {
      int x = exists(k.first);
      if (x == 2) return;
      if (x) { name = k.first; if (&k != &cand[0]) rt::probe(PR_HOME); break; }
    }
    if (name.empty())
    {
      if (env_set)
      {
        rcmsg("Using environment variable LIBCWD_RCFILE_NAME with value \"" + rcname + "\".");
        fatal = "read_rcfile: Could not read $LIBCWD_RCFILE_NAME (\"" + rcname + "\") from either \".\" or \"" + home + "\".";
        return;
      }
      int x = exists(DATADIR_RC);
      if (x == 2) return;
      if (!x) { fatal = "read_rcfile: Could not read rcfile \"" + rcname + "\" from either \".\" or \"" + home + "\" and could not read default rcfile \"" + DATADIR_RC + "\" either!"; return; }
      name = DATADIR_RC;
      rt::probe(PR_DEFAULT_FILE);
      warn_once({"Neither ./" + rcname + " nor " + home + "/" + rcname + " exist.", std::string("Using default rcfile \"") + name + "\"."});
    }
    bool elf = on("ELFUTILS");
    int dflt_line[2] = {0, 0};
    bool dflt_on = false;
    for (int f = 0; f < 2; ++f)
    {
      std::string data; bool error = false;
      if (no >= op.size() || op[no].path != name)
      {
        fatal = "?";
        expect += "[expected " + name + " to be opened" + (no < op.size() ? " instead of " + op[no].path : "") + "]";
        return;
      }
      if (!op[no].failed) { data = op[no].delivered; error = op[no].error; }
      ++no;
      if (error) rt::probe(PR_READ_ERR);
      bool reset = false;
      int n = 0;
      for (size_t p = 0; p < data.size();)
      {
        size_t q = data.find('\n', p);
        if (q == std::string::npos && error) break;      // the rest of this line is unknown
        std::string line = trim(data.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? data.size() : q + 1;
        ++n;
        std::string at = name + ":" + std::to_string(n) + ": ";
        if (line.empty() || line[0] == '#') continue;
        size_t eq = line.find('=');
        if (eq == std::string::npos || eq == 0) { fatal = "read_rcfile: " + at + "syntax error."; rt::probe(PR_SYNTAX); return; }
        std::string key = line.substr(0, line.find_first_of(" \t\n\v=")), val = trim(line.substr(eq + 1));
        if (key == "silent") { if (val == "on") silent = true; else if (val == "off") silent = false; continue; }
        if (env_set) { rcmsg(std::string("Using environment variable ") + (f == 0 ? "LIBCWD_RCFILE_NAME" : "LIBCWD_RCFILE_OVERRIDE_NAME") + " with value \"" + name + "\"."); env_set = false; }
        rcmsg(at + key + " = " + val);
        auto all_on = [&] { rcmsg("Turning all channels on by default."); for (auto& k : off) if (k.first != "ELFUTILS" && k.second >= 0) k.second = -1; elf = true; };
        auto all_off = [&](bool w) { rcmsg(std::string("Turning all channels") + (w ? ", except WARNING," : "") + " off by default."); for (auto& k : off) if (k.second < 0) ++k.second; if (w) --off["WARNING"]; elf = false; };
        auto masks = [&](int act) {     // 0 toggle 1 on 2 off
          std::string l = val;
          for (size_t i = 0; i < l.size();)
          {
            size_t b = l.find_first_not_of(", \t\n\v", i);
            if (b == std::string::npos) break;
            size_t x = l.find_first_of(", \t\n\v", b);
            if (x == std::string::npos) x = l.size();
            std::string m = upper(l.substr(b, x - b));
            i = x;
            for (auto& k : off)
            {
              std::string label = upper(k.first);
              if (label.find(' ') != std::string::npos) label.erase(label.find(' '));
              if (!glob(m, label)) continue;
              if (m.find('*') != std::string::npos) rt::probe(PR_MASK);
              if (label == "ELFUTILS")
              {
                rt::probe(PR_ELF);
                bool want = act == 0 ? !elf : act == 1;
                if (want == elf) continue;
                elf = want;
                if (!want && k.second < 0) ++k.second;
                rcmsg(want ? "Turned on ELFUTILS" : "Turned off ELFUTILS", 4);
                continue;
              }
              bool is = k.second < 0, want = act == 0 ? !is : act == 1;
              if (is == want) continue;
              if (want) while (k.second >= 0) { --k.second; rcmsg("Turned on " + label, 4); }
              else { ++k.second; rcmsg("Turned off " + label, 4); }
            }
          }
        };
        bool saw = dflt_line[0] || dflt_line[1];
        if (key == "gdb") own[user].gdb = val;
        else if (key == "xterm") own[user].xterm = val;
        else if (key == "channels_default")
        {
          if (dflt_line[f]) { warn_once({"rcfile: " + at + "channels_default already set in line " + std::to_string(dflt_line[f]) + "!  Entry ignored!"}); continue; }
          dflt_line[f] = n;
          if (val == "on") { all_on(); dflt_on = true; }
          else if (val == "off") { all_off(false); dflt_on = false; }
          else { fatal = "read_rcfile: " + at + "syntax error."; rt::probe(PR_SYNTAX); return; }
        }
        else if (key == "channels_toggle")
        {
          if (!saw) { fatal = "read_rcfile: " + at + "channels_toggle used before channels_default."; return; }
          masks(0);
        }
        else if (key == "channels_on") { if (!reset && f == 1 && (!saw || dflt_on)) { all_off(!saw); reset = true; } masks(1); }
        else if (key == "channels_off") { if (!reset && f == 1 && saw && !dflt_on) { all_on(); reset = true; } masks(2); }
        else if (user && (user_seen += key + "=" + val + ";", key.size() % 2 == 0)) rt::probe(PR_USER);
        else { rt::probe(PR_UNKNOWN); out("WARNING", "read_rcfile: " + at + "Unknown keyword '" + key + "'."); }
      }
      std::string const* ov = env("LIBCWD_RCFILE_OVERRIDE_NAME");
      if (f == 1 || !ov) break;
      rt::probe(PR_OVERRIDE);
      name = *ov;
      env_set = true;
    }
    if (elf && off["ELFUTILS"] >= 0) off["ELFUTILS"] = -1;
    own[user].called = true;
    if (no != op.size()) { fatal = "?"; expect += "[" + op[no].path + " should not have been opened]"; }
  }
};

struct RcHooks : SimpleHooks
{
  Rc m;
  std::map<int, std::string> labels;
  size_t seen = 0;
  int reads = 0;
  explicit RcHooks(Case const& cc) : SimpleHooks(cc), m(cc)
  {
    static char const* const lb[] = {"NOTICE", "SYSTEM", "WARNING", "DEBUG", "ALPHA", "BETA", "NOTIFY", "FOO"};
    for (int i = 0; i < NCHAN; ++i) { labels[i] = lb[i]; m.off[lb[i]] = 0; }
    m.off["WARNING"] = -1;
    m.off["ELFUTILS"] = 0;
  }
  [[noreturn]] void fail(char const* cls, std::string const& s) { rt::violation(cls, s); }
  void compare()
  {
    std::string got = err.text;
    rt::note("output %s", got.c_str());
    if (got != m.expect)
    {
      size_t i = 0;
      while (i < got.size() && i < m.expect.size() && got[i] == m.expect[i]) ++i;
      size_t b = i < 80 ? 0 : i - 80;
      fail("rcfile-output", "differs at byte " + std::to_string(i) + ": written ..." + show_text(got.substr(b, 400)) + " expected ..." + show_text(m.expect.substr(b, 400)));
    }
  }
  bool pre(Op const& op) override { return op.code != C_ON || m.off[labels[(int)op.a[1]]] >= 0; }
  bool stmt_begin(Op const& op) override { rt::InRt g; if (op.code == RC_READ) { world::opened.clear(); m.user = op.a[0] != 0; rt::note("read_rcfile %d", (int)m.user); } return true; }
  virtual void model_init_begin() { }
  void model_read()
  {
    bool pw = world::have_pw && rt::res->nfault[rt::F_GETPW] == 0;
    m.read(pw, world::opened);
    ++reads;
    if (reads > 1) rt::probe(PR_TWICE);
  }
  void stmt_end(Op const& op, bool) override
  {
    rt::InRt g;
    if (op.code != RC_READ) return;
    model_read();
    if (!m.fatal.empty()) { if (m.fatal == "?") fail("rcfile-selection", m.expect); fail("rcfile-no-error", "reading the file should have ended with: " + m.fatal + "; output: " + show_text(err.text)); }
    compare();
  }
  void post(Op const& op, long r, std::string const& text) override
  {
    rt::InRt g;
    rt::note("op %d %ld %s", op.code, r, text.c_str());
    switch (op.code)
    {
      case O_ON: --m.obj; break;
      case O_OFF: ++m.obj; break;
      case C_ON: --m.off[labels[(int)op.a[1]]]; break;
      case C_OFF: ++m.off[labels[(int)op.a[1]]]; break;
      case R_REG: labels[100 + (int)op.a[0]] = op.s; m.off[op.s] = op.s == "WARNING" ? -1 : 0; m.width = std::max(m.width, op.s.size()); break;
      case C_STATE:
      {
        std::string const& l = labels[(int)op.a[1]];
        if ((r != 0) != m.on(l)) fail("rcfile-channel-state", "channel " + l + " is " + (r ? "on" : "off") + " but should be " + (m.on(l) ? "on" : "off") + " (count " + std::to_string(m.off[l]) + ")");
        break;
      }
      case R_CHANS:
      {
        std::string e;
        for (auto& k : m.off) { std::string l = k.first; l.resize(m.width, ' '); e += l + (k.second < 0 ? "+;" : "-;"); }
        if (text != e) fail("rcfile-channel-state", "channels are " + text + " but should be " + e);
        break;
      }
      case RC_GET:
      {
        Rc::Values const& v = m.own[op.a[0] ? 1 : 0];
        std::string e = v.gdb + '\x01' + v.xterm;
        if (op.a[0]) e += '\x01' + m.user_seen;
        if (text != e) fail("rcfile-value", "gdb and xterm are " + show_text(text) + " but should be " + show_text(e));
        if ((r != 0) != v.called) fail("rcfile-value", "read_called() is wrong");
      }
        break;
    }
  }
};
RcHooks* HK;

// Initialisation of the program and of its threads from the configuration file. The first thread does nothing while other threads run.
struct InitHooks : RcHooks
{
  struct Th { std::map<std::string, int> off; int obj = 0; std::string margin; };
  std::map<int, Th> th;
  std::map<std::string, bool> saved;     // the state of the channels directly after the file was read
  bool in_init = false, did_init = false, named = false;
  int running = 0;
  std::vector<std::string> lines;        // written by the threads of this round, in any order
  explicit InitHooks(Case const& cc) : RcHooks(cc) { }

  int me() { return rt::tid(); }
  std::map<std::string, int>& off() { return me() == 0 ? m.off : th[me()].off; }
  int& obj() { return me() == 0 ? m.obj : th[me()].obj; }
  std::string& margin() { return me() == 0 ? m.margin : th[me()].margin; }
  bool on(std::string const& l) { return off()[l] < 0; }
  void out(std::string const& label, std::string const& text)
  {
    if (obj() >= 0) return;
    std::string l = label;
    l.resize(m.width, ' ');
    l = margin() + l + ": " + text + "\n";
    if (me() == 0) m.expect += l; else lines.push_back(l);
  }
  // All threads have ended: what they wrote is one of the orders of their lines.
  void settle()
  {
    std::string got = err.text;
    rt::note("output %s", got.c_str());
    if (got.compare(0, m.expect.size(), m.expect) != 0) compare();
    std::vector<std::string> l;
    for (size_t p = m.expect.size(); p < got.size();) { size_t q = got.find('\n', p); if (q == std::string::npos) q = got.size() - 1; l.push_back(got.substr(p, q + 1 - p)); p = q + 1; }
    std::sort(l.begin(), l.end());
    std::sort(lines.begin(), lines.end());
    if (l != lines)
    {
      std::string a, b;
      for (auto& x : l) a += x;
      for (auto& x : lines) b += x;
      fail("init-output", "the threads wrote " + show_text(a) + " but should have written " + show_text(b));
    }
    m.expect = got;
    lines.clear();
  }
  void model_init_begin() override
  {
    if (!in_init) return;
    --m.obj;
    for (auto& k : m.off) if (k.second < 0) k.second = 0;
  }
  void model_thread(std::string const& name, int mode)
  {
    if (mode == 0) mode = 1;
    if (mode == 1)
    {
      for (auto& k : m.off)
      {
        if (on(k.first)) continue;
        auto s = saved.find(k.first);
        if (s == saved.end())
        {
          std::string l = k.first;
          l.resize(m.width, ' ');
          rt::probe(PR_LATE_CHANNEL);
          if (on("WARNING")) out("WARNING", "is_on_in_rcfile(\"" + l + "\"): \"" + l + "\" is an unknown label!");
        }
        else if (s->second) { --off()[k.first]; rt::probe(PR_FROM_RC); }
      }
    }
    else if (mode == 2)
    {
      for (auto& k : m.off) if (!on(k.first) && k.second < 0) { --off()[k.first]; rt::probe(PR_COPY_RC); }
      if (m.obj >= 0) mode = 3;
    }
    if (mode != 3) --obj();
    if (!name.empty())
    {
      std::string mg = name.substr(0, 15);
      mg.resize(16, ' ');
      margin() = mg;
      if (on("NOTICE")) out("NOTICE", "Thread started. Set debug margin to \"" + mg + "\".");
    }
    else if (named)
    {
      char b[32];
      snprintf(b, sizeof b, "%12lx ", (unsigned long)pthread_self());
      margin() = b;
    }
    named = true;
  }
  bool pre(Op const& op) override { rt::InRt g; return op.code != C_ON || off()[labels[(int)op.a[1]]] >= 0; }
  bool stmt_begin(Op const& op) override
  {
    rt::InRt g;
    if (op.code == INIT) { world::opened.clear(); in_init = true; rt::note("init"); rt::probe(did_init ? PR_INIT_TWICE : PR_INIT); }
    if (op.code == T_INIT) model_thread(op.s, (int)op.a[1]);
    return true;
  }
  void stmt_end(Op const& op, bool) override
  {
    rt::InRt g;
    if (op.code == T_INIT && me() == 0) compare();
    if (op.code != INIT) return;
    model_init_begin();
    model_read();
    in_init = false;
    if (!m.fatal.empty()) { if (m.fatal == "?") fail("rcfile-selection", m.expect); fail("rcfile-no-error", "reading the file should have ended with: " + m.fatal + "; output: " + show_text(err.text)); }
    ++m.obj;
    if (did_init) { if (m.on("WARNING")) out("WARNING", "Calling save_dc_states() more than once!"); }
    else for (auto& k : m.off) saved[k.first] = k.second < 0;
    did_init = true;
    model_thread("", 0);
    compare();
  }
  void post(Op const& op, long r, std::string const& text) override
  {
    rt::InRt g;
    rt::note("%d: op %d %ld %s", me(), op.code, r, text.c_str());
    switch (op.code)
    {
      case O_ON: --obj(); break;
      case O_OFF: ++obj(); break;
      case C_ON: --off()[labels[(int)op.a[1]]]; break;
      case C_OFF: ++off()[labels[(int)op.a[1]]]; break;
      case O_STATE: if ((r != 0) != (obj() < 0)) fail("init-object-state", "debug output of thread " + std::to_string(me()) + " is " + (r ? "on" : "off") + " but should be " + (obj() < 0 ? "on" : "off")); break;
      case C_STATE:
      {
        std::string const& l = labels[(int)op.a[1]];
        if ((r != 0) != on(l)) fail("init-channel-state", "channel " + l + " of thread " + std::to_string(me()) + " is " + (r ? "on" : "off") + " but should be " + (on(l) ? "on" : "off") + " (count " + std::to_string(off()[l]) + ")");
        break;
      }
      case R_CHANS:
      {
        std::string e;
        for (auto& k : m.off) { std::string l = k.first; l.resize(m.width, ' '); e += l + (on(k.first) ? "+;" : "-;"); }
        if (text != e) fail("init-channel-state", "channels of thread " + std::to_string(me()) + " are " + text + " but should be " + e);
        break;
      }
      case D_FMT:
      {
        std::string mg = text.substr(0, text.find('\x01'));
        if (mg != margin()) fail("init-margin", "the margin of thread " + std::to_string(me()) + " is " + show_text(mg) + " but should be " + show_text(margin()));
        break;
      }
      default: RcHooks::post(op, r, text);
    }
  }
  long external(Op const& op) override
  {
    long r = RcHooks::external(op);
    rt::InRt g;
    if (op.code == T_SPAWN) ++running;
    if (op.code == T_JOIN && running && --running == 0) settle();
    return r;
  }
};

void on_terminate(char const* kind, int code)
{
  RcHooks& h = *HK;
  h.model_init_begin();
  h.model_read();
  if (h.m.fatal.empty() || h.m.fatal == "?") rt::violation("terminated:" + std::string(kind), "reading the rcfile ended the process: " + show_text(h.err.text) + " " + h.m.expect);
  rt::probe(PR_FATAL);
  if (strcmp(kind, "_Exit") || code != E_FATAL) rt::violation("terminated:" + std::string(kind), "fatal error ended with " + std::string(kind) + " " + std::to_string(code));
  if (h.m.obj < 0)
  {
    std::string l = "FATAL";
    l.resize(h.m.width, ' ');
    // The error may be printed inside the indentation that was current.
    std::string want = h.m.expect + h.m.margin + l + ": " + h.m.fatal + "\n";
    if (h.err.text != want) rt::violation("rcfile-output", "written " + show_text(h.err.text) + " expected " + show_text(want));
  }
  rt::finish_ok();
}

// ----------------------------------------------------------------------------------------------------------------

struct RcEngine : Engine
{
  void generate(Rng& r, Case& c) override
  {
    static char const* const labels[] = {"NOTICE", "SYSTEM", "WARNING", "DEBUG", "ALPHA", "BETA", "NOTIFY", "FOO", "ELFUTILS", "PRE", "PREFIX"};
    auto ws = [&]() -> std::string { static char const* const w[] = {"", "", "", " ", "  ", "\t", " \t ", "\v"}; return w[r.below(8)]; };
    auto mask = [&]() {
      std::string l = labels[r.below(11)];
      switch (r.below(8))
      {
        case 0: for (auto& ch : l) ch = (char)tolower(ch); break;
        case 1: l = l.substr(0, 1 + r.below(l.size())) + "*"; break;
        case 2: l = "*" + l.substr(r.below(l.size())); break;
        case 3: l = "*"; break;
        case 4: { size_t a = r.below(l.size()); l = l.substr(0, a) + "*" + l.substr(std::min(l.size(), a + 1 + r.below(2))); break; }
        case 5: l = l.substr(0, 1 + r.below(l.size())); break;
        case 6: { size_t a = r.below(l.size()); l = l.substr(0, a) + "**" + l.substr(a); for (auto& ch : l) if (r.chance(.5)) ch = (char)tolower(ch); break; }
        default: break;
      }
      return l;
    };
    auto list = [&] {
      std::string s;
      static char const* const sep[] = {",", ", ", " ", " , ", ",,", "\t"};
      for (int i = (int)r.range(r.chance(.1) ? 0 : 1, 4); i > 0; --i) { s += mask(); if (i > 1 || r.chance(.1)) s += sep[r.below(6)]; }
      return s;
    };
    auto file = [&](bool first) {
      std::string s;
      bool dflt = false;
      int n = (int)r.below(r.chance(.05) ? 60 : 9);
      for (int i = 0; i < n; ++i)
      {
        std::string l = ws();
        int k = (int)r.below(40);
        if (first && !dflt && r.chance(.4)) k = 0;
        if (k < 4 && dflt && r.chance(.8)) k = 10;
        if (k < 4) { dflt = true; l += "channels_default" + ws() + "=" + ws() + (r.chance(.02) ? r.chance(.5) ? "maybe" : "ON" : r.chance(.5) ? "on" : "off"); }
        else if (k < 12) l += "channels_on" + ws() + "=" + ws() + list();
        else if (k < 20) l += "channels_off" + ws() + "=" + ws() + list();
        else if (k < 26) l += ((dflt || r.chance(.2)) ? "channels_toggle" : "channels_on") + ws() + "=" + ws() + list();
        else if (k < 28) l += "silent" + ws() + "=" + ws() + (r.chance(.5) ? "on" : r.chance(.8) ? "off" : r.chance(.5) ? "x" : "Off");
        else if (k < 30) l += "gdb" + ws() + "=" + ws() + "/usr/bin/gdb -x=a" + ws();
        else if (k < 32) l += "xterm" + ws() + "=" + ws() + (r.chance(.2) ? "" : "xterm -e %s");
        else if (k < 35) l += "# comment = x " + mask();
        else if (k < 36) l += "";
        else if (k < 37 && r.chance(.3)) { static char const* const near_[] = {"Silent", "CHANNELS_ON", "channels_o", "channels_ons", "channels-off", "Channels_Default", "channel_on", "gdbx", "XTerm"}; l += near_[r.below(9)] + ws() + "=" + ws() + (r.chance(.3) ? "on" : r.chance(.5) ? "off" : mask()); }
        else if (k < 37) l += std::string("foo") + (r.chance(.3) ? " bar" : "") + ws() + "=" + mask();
        else if (k < 38 && r.chance(.25)) { static char const* const bad[] = {"nonsense", "= x", "channels_on NOTICE", "silent", "#", "x#"}; l += bad[r.below(6)]; }
        else if (k < 39 && r.chance(.05)) { l += "long = " + std::string((size_t)r.range(2000, 20000), 'x'); }
        else if (r.chance(.05)) { l += std::string("k\0ey = \0x", 9); }
        else l += "channels_on = " + mask();
        s += l + ws();
        if (i + 1 < n || r.chance(.8)) s += r.chance(.03) ? "\r\n" : "\n";
      }
      return s;
    };
    std::string rc = ".libcwdrc";
    if (r.chance(.3)) { static char const* const nm[] = {"myrc", "sub/rc", "/abs/rc", ""}; rc = nm[r.below(r.chance(.1) ? 4 : 3)]; c.t["env.LIBCWD_RCFILE_NAME"] = rc; }
    bool havehome = r.chance(.7);
    if (havehome) c.t["env.HOME"] = r.chance(.1) ? "" : r.chance(.5) ? "/home/user" : "/home/other";
    c.n["pw"] = r.chance(.8);
    c.t["pw"] = "/home/user";
    std::vector<std::string> paths = {rc, "/home/user/" + rc, "/home/other/" + rc, DATADIR_RC};
    paths.push_back("/" + rc);   // What an empty HOME would lead to.
    static double const pr[] = {.5, .5, .4, .8, havehome && c.t["env.HOME"].empty() ? .5 : .03};
    for (int i = 0; i < 5; ++i)
      if (r.chance(pr[i]) && !paths[i].empty())
      {
        c.t["file." + paths[i]] = file(true);
        std::string st;
        int k = (int)r.below(30);
        if (k == 0) st = "dir";
        else if (k == 1) st = "stat " + std::to_string(r.chance(.5) ? EACCES : EIO);
        else if (k == 2) st = "access " + std::to_string(EACCES);
        else if (k == 3) st = "open " + std::to_string(r.chance(.5) ? EACCES : EMFILE);
        if (!st.empty()) c.t["mode." + paths[i]] = st;
      }
    if (r.chance(.45))
    {
      std::string o = r.chance(.8) ? "over.rc" : rc;
      c.t["env.LIBCWD_RCFILE_OVERRIDE_NAME"] = o;
      if (o != rc && r.chance(.85)) { c.t["file." + o] = file(r.chance(.5)); if (r.chance(.05)) c.t["mode." + o] = r.chance(.5) ? "dir" : "open 13"; }
    }
    bool init = c.profile == "init";
    int rounds = init ? (int)r.range(1, 3) : 0, nt = 0;
    if (init) { for (int i = rounds; i > 0; --i) nt += (int)r.range(1, 3); if (r.chance(.1)) nt = rounds = 0; }
    c.threads.resize(1 + (size_t)nt);
    Ops& m = c.threads[0];
    int regs = 0;
    if (r.chance(.3)) { m.push_back(mkops(R_REG, "PRE", regs++, 0)); if (r.chance(.5)) m.push_back(mkops(R_REG, "PREFIX", regs++, 0)); }
    if (r.chance(.1)) m.push_back(mkops(R_REG, "TWELVELETTER", regs++, 0));
    auto chan = [&]() -> long { return r.below(4) == 0 && regs ? 100 + (long)r.below(regs) : (long)r.below(NCHAN); };
    for (int i = (int)r.below(8); i > 0; --i) m.push_back(mkop(r.chance(.5) ? C_ON : C_OFF, 0, chan()));
    if (r.chance(.9)) m.push_back(mkop(O_ON, 0));
    if (init)
    {
      static char const* const late[] = {"LATE", "ZLATE", "ALONGLABEL", "THIRTEENLETTR", "SIXTEEN.LETTERS."};
      static char const* const names[] = {"", "", "worker", "a very long thread name", "exactly16chars!!", "fifteen chars..", "x"};
      auto query = [&](Ops& o) { o.push_back(mkop(R_CHANS)); o.push_back(mkop(O_STATE, 0)); o.push_back(mkop(D_FMT, 0)); };
      auto toggles = [&](Ops& o, int n) { for (; n > 0; --n) { long ch = chan(); o.push_back(mkop(r.chance(.6) ? C_ON : C_OFF, 0, ch)); if (r.chance(.3)) o.push_back(mkop(C_STATE, 0, ch)); } };
      if (r.chance(.2)) m.push_back(mkop(O_OFF, 0));
      m.push_back(mkop(INIT));
      query(m);
      int t = 0;
      for (int k = 0; k < rounds; ++k)
      {
        if (r.chance(.3)) { long n = regs++; m.push_back(mkops(R_REG, late[(size_t)n % 5], n, 0)); }
        if (r.chance(.1)) { m.push_back(mkop(INIT)); query(m); }
        toggles(m, (int)r.below(5));
        if (r.chance(.3)) m.push_back(mkop(r.chance(.5) ? O_ON : O_OFF, 0));
        int n = k + 1 == rounds ? nt - t : std::max(1, std::min(nt - t - (rounds - 1 - k), (int)r.range(1, 3)));
        for (int i = 1; i <= n; ++i)
        {
          Ops& o = c.threads[(size_t)(t + i)];
          for (int j = r.chance(.15) ? 2 : 1; j > 0; --j)
          {
            if (r.chance(.4)) toggles(o, 1 + (int)r.below(4));
            if (r.chance(.15)) o.push_back(mkop(r.chance(.6) ? O_ON : O_OFF, 0));
            static int const modes[] = {0, 0, 1, 1, 1, 2, 2, 3};
            if (r.chance(.95)) o.push_back(mkops(T_INIT, names[r.below(7)], 0, modes[r.below(8)]));
            query(o);
          }
        }
        for (int i = 1; i <= n; ++i) m.push_back(mkop(T_SPAWN, t + i));
        for (int i = 1; i <= n; ++i) m.push_back(mkop(T_JOIN, t + i));
        t += n;
        if (r.chance(.3)) { if (r.chance(.5)) m.push_back(mkops(T_INIT, names[r.below(7)], 0, (long)r.below(4))); query(m); }
      }
    }
    int reads = init ? 0 : r.chance(.25) ? 2 : 1;
    for (int k = 0; k < reads; ++k)
    {
      bool user = r.chance(.25);
      m.push_back(mkop(RC_READ, user));
      m.push_back(mkop(R_CHANS));
      m.push_back(mkop(RC_GET, user));
      if (r.chance(.3)) m.push_back(mkop(RC_GET, !user));
      // How deep are they off?
      for (int i = (int)r.below(6); i > 0; --i) { long ch = chan(); m.push_back(mkop(r.chance(.5) ? C_ON : C_OFF, 0, ch)); m.push_back(mkop(C_STATE, 0, ch)); }
    }
    auto& q = c.p;
    q.seed = r.next() >> 1;
    q.strategy = 0;
    if (init)
    {
      q.strategy = (int)r.below(5);
      static double const ps[] = {.02, .1, .3, .6};
      q.p = q.strategy == 2 ? .03 : ps[r.below(4)];
      q.depth = 1 + (int)r.below(5);
      q.horizon = 2000ull << r.below(5);
      q.reuse = r.chance(.3);
    }
    auto fault = [&](rt::Fault f, int nth, long v) { q.faults.push_back({f, nth, v}); };
    if (r.chance(.15)) fault(rt::F_READ, (int)r.below(3), EIO);
    if (r.chance(.4)) for (int i = (int)r.below(6); i >= 0; --i) fault(rt::F_SHORT_READ, (int)r.below(10), (long)r.below(40));
    if (r.chance(.2)) for (int i = (int)r.below(3); i >= 0; --i) fault(rt::F_EINTR_READ, (int)r.below(6), 0);
    if (r.chance(.06)) fault(rt::F_OPEN, (int)r.below(2), r.chance(.5) ? EMFILE : ENOENT);
  }
  void run(Case const& c) override
  {
    RcHooks* h = HK = c.profile == "init" ? new InitHooks(c) : new RcHooks(c);
    for (auto& kv : c.t)
    {
      if (kv.first.compare(0, 4, "env.") == 0) world::env[kv.first.substr(4)] = kv.second;
      if (kv.first.compare(0, 5, "file.") == 0) world::vfs[kv.first.substr(5)].content = kv.second;
    }
    for (auto& kv : c.t)
      if (kv.first.compare(0, 5, "mode.") == 0)
      {
        auto i = world::vfs.find(kv.first.substr(5));
        if (i == world::vfs.end()) continue;
        world::VFile& f = i->second;
        int v = 0;
        size_t sp = kv.second.find(' ');
        if (sp != std::string::npos) v = atoi(kv.second.c_str() + sp);
        if (kv.second == "dir") { f.mode = 0040755; f.open_errno = EISDIR; }
        else if (kv.second.compare(0, 4, "stat") == 0) f.stat_errno = v;
        else if (kv.second.compare(0, 6, "access") == 0) f.access_errno = v;
        else if (kv.second.compare(0, 4, "open") == 0) f.open_errno = v;
      }
    world::have_pw = c.num("pw", 1);
    world::pw_dir = c.str("pw", "/home/user");
    world::vfs_on = world::env_on = true;
    rt::begin(c.p);
    sut.init(h);
    rt::set_terminate_handler(on_terminate);
    uint64_t leak_seq = rt::alloc_seq();
    { rt::OutRt o; sut.run(h, c.threads[0]); }
    rt::check_leaks(leak_seq);
    rt::finish_ok();
  }
};
RcEngine rc_engine;
struct RegRc { RegRc() { register_engine("rc", &rc_engine); } } reg_rc;

} // namespace
