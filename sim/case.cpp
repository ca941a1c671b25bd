#include "case.h"
#include <cstring>
#include <sstream>

namespace app {
char const* const code_names[N_CODES] = {
  "dout", "always", "cont_start", "cont", "finish", "fatal", "entering",
  "text", "num", "hex", "bool", "width", "errno", "loc",
  "o_on", "o_off", "c_on", "c_off", "o_force", "c_force",
  "m_assign", "m_append", "m_prepend", "m_push", "m_pop", "k_assign", "k_append", "k_prepend", "k_push", "k_pop", "col_on", "col_off",
  "ind_set", "ind_inc", "ind_dec", "scope_indent", "scope_mark",
  "os_set", "os_set_lock", "os_get", "os_hasm", "os_direct", "os_reuse",
  "flush_on", "flush_off",
  "r_chans", "r_objs", "r_find", "r_list", "r_reg",
  "t_spawn", "t_join", "t_yield", "t_sleep", "t_init", "t_barrier", "t_core", "t_late",
  "main_reached",
  "l_lookup", "l_func", "l_copy", "l_assign", "l_clear", "l_pc", "l_print", "l_del", "l_move", "l_format",
  "dl_open", "dl_close", "dl_check",
  "gdb", "rc_read", "rc_get", "init", "initialize", "g_call", "o_state", "c_state", "d_fmt", "f_reserve",
  "u_type", "u_demangle", "u_buf", "u_errno",
};
}

using namespace app;

static std::string esc(std::string const& s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

static void put_ops(std::string& o, Ops const& ops, int ind)
{
  for (Op const& op : ops)
  {
    o += std::string(ind, ' ') + code_names[op.code];
    int n = 6;
    while (n > 0 && op.a[n - 1] == 0) --n;
    for (int i = 0; i < n; ++i) o += " " + std::to_string(op.a[i]);
    if (!op.s.empty()) o += " " + esc(op.s);
    if (!op.sub.empty()) { o += " {\n"; put_ops(o, op.sub, ind + 2); o += std::string(ind, ' ') + "}"; }
    o += "\n";
  }
}

std::string case_to_text(Case const& c, std::string const& comment)
{
  std::string o = "# libcwd simulation case\n";
  if (!comment.empty())
  {
    std::istringstream is(comment);
    std::string l;
    while (std::getline(is, l)) o += "# " + l + "\n";
  }
  o += "engine " + c.engine + "\nprofile " + (c.profile.empty() ? "-" : c.profile) + "\n";
  for (auto& kv : c.n) o += "num " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto& kv : c.t) o += "str " + kv.first + " " + esc(kv.second) + "\n";
  auto& p = c.p;
  char b[300];
  snprintf(b, sizeof b, "run %llu %d %.17g %d %llu %d %d %d %llu %d %llu %llu\n", (unsigned long long)p.seed, p.strategy, p.p, p.depth, (unsigned long long)p.horizon,
           p.reuse, p.slack, p.clock_jump, (unsigned long long)p.max_points, p.stall_tid, (unsigned long long)p.stall_from, (unsigned long long)p.stall_to);
  o += b;
  for (auto& f : p.faults) { snprintf(b, sizeof b, "fault %s %d %ld\n", rt::fault_names[f.kind], f.nth, f.val); o += b; }
  for (size_t i = 0; i < c.threads.size(); ++i) { o += "thread " + std::to_string(i) + " {\n"; put_ops(o, c.threads[i], 2); o += "}\n"; }
  if (p.strategy == 9)
  {
    o += "schedule";
    for (auto& e : p.sched) { snprintf(b, sizeof b, " %llu:%d", (unsigned long long)e.pt, e.tid); o += b; }
    o += "\n";
  }
  if (!c.expect_cls.empty()) { snprintf(b, sizeof b, "%016llx", (unsigned long long)c.expect_hash); o += "expect " + std::string(b) + " " + esc(c.expect_cls) + "\n"; }
  return o;
}

namespace {
struct Lex
{
  std::string const& s; size_t i = 0;
  explicit Lex(std::string const& t) : s(t) { }
  void ws() { for (;;) { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r')) ++i; if (i < s.size() && s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; } else break; } }
  void wsnl() { for (;;) { ws(); if (i < s.size() && s[i] == '\n') ++i; else break; } }
  bool eol() { ws(); return i >= s.size() || s[i] == '\n'; }
  std::string word() { ws(); std::string r; while (i < s.size() && !strchr(" \t\r\n\"{}", s[i])) r += s[i++]; return r; }
  bool peek(char c) { ws(); return i < s.size() && s[i] == c; }
  std::string str()
  {
    ws(); std::string r;
    if (i >= s.size() || s[i] != '"') return r;
    for (++i; i < s.size() && s[i] != '"'; ++i)
    {
      if (s[i] != '\\') { r += s[i]; continue; }
      ++i;
      if (s[i] == 'n') r += '\n';
      else if (s[i] == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
      else r += s[i];
    }
    ++i;
    return r;
  }
};
bool get_ops(Lex& l, Ops& ops, std::string& err)
{
  for (;;)
  {
    l.wsnl();
    if (l.i >= l.s.size()) { err = "unexpected end"; return false; }
    if (l.peek('}')) { ++l.i; return true; }
    std::string w = l.word();
    Op op;
    op.code = -1;
    for (int i = 0; i < N_CODES; ++i) if (w == code_names[i]) op.code = i;
    if (op.code < 0) { err = "unknown operation '" + w + "'"; return false; }
    int n = 0;
    while (!l.eol() && !l.peek('"') && !l.peek('{') && !l.peek('}'))
    {
      std::string x = l.word();
      if (x.empty()) { err = "syntax error"; return false; }
      if (n < 6) op.a[n++] = atol(x.c_str());
    }
    if (l.peek('"')) op.s = l.str();
    if (l.peek('{')) { ++l.i; if (!get_ops(l, op.sub, err)) return false; }
    ops.push_back(std::move(op));
  }
}
}

bool case_from_text(std::string const& text, Case& c, std::string& err)
{
  Lex l(text);
  for (;;)
  {
    l.wsnl();
    if (l.i >= text.size()) return true;
    std::string w = l.word();
    if (w == "engine") c.engine = l.word();
    else if (w == "profile") c.profile = l.word();
    else if (w == "num") { std::string k = l.word(); c.n[k] = atol(l.word().c_str()); }
    else if (w == "str") { std::string k = l.word(); c.t[k] = l.str(); }
    else if (w == "run")
    {
      auto& p = c.p;
      p.seed = strtoull(l.word().c_str(), 0, 10); p.strategy = atoi(l.word().c_str()); p.p = atof(l.word().c_str()); p.depth = atoi(l.word().c_str());
      p.horizon = strtoull(l.word().c_str(), 0, 10); p.reuse = atoi(l.word().c_str()); p.slack = atoi(l.word().c_str()); p.clock_jump = atoi(l.word().c_str());
      p.max_points = strtoull(l.word().c_str(), 0, 10); p.stall_tid = atoi(l.word().c_str()); p.stall_from = strtoull(l.word().c_str(), 0, 10); p.stall_to = strtoull(l.word().c_str(), 0, 10);
    }
    else if (w == "fault")
    {
      std::string k = l.word();
      rt::Params::F f{-1, 0, 0};
      for (int i = 0; i < rt::F_COUNT; ++i) if (k == rt::fault_names[i]) f.kind = i;
      if (f.kind < 0) { err = "unknown fault " + k; return false; }
      f.nth = atoi(l.word().c_str()); f.val = atol(l.word().c_str());
      c.p.faults.push_back(f);
    }
    else if (w == "thread")
    {
      l.word();
      if (!l.peek('{')) { err = "expected {"; return false; }
      ++l.i;
      c.threads.emplace_back();
      if (!get_ops(l, c.threads.back(), err)) return false;
    }
    else if (w == "schedule")
    {
      while (!l.eol())
      {
        std::string x = l.word();
        unsigned long long pt; int t;
        if (sscanf(x.c_str(), "%llu:%d", &pt, &t) != 2) { err = "bad schedule"; return false; }
        c.p.sched.push_back({pt, t});
      }
    }
    else if (w == "expect") { c.expect_hash = strtoull(l.word().c_str(), 0, 16); c.expect_cls = l.str(); }
    else { err = "unknown keyword '" + w + "'"; return false; }
  }
}

static size_t count(Ops const& o) { size_t n = 0; for (auto& x : o) n += 1 + count(x.sub); return n; }
size_t case_ops(Case const& c) { size_t n = 0; for (auto& t : c.threads) n += count(t); return n; }

Op mkop(int code, long a0, long a1, long a2, long a3, long a4, long a5)
{
  Op o; o.code = code; o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4; o.a[5] = a5;
  return o;
}
Op mkops(int code, std::string const& s, long a0, long a1, long a2) { Op o = mkop(code, a0, a1, a2); o.s = s; return o; }

static std::map<std::string, Engine*>& engines() { static std::map<std::string, Engine*> m; return m; }
Engine* find_engine(std::string const& n) { auto i = engines().find(n); return i == engines().end() ? nullptr : i->second; }
void register_engine(std::string const& n, Engine* e) { engines()[n] = e; }
