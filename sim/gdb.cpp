// Attaching a debugger: a simulated child process, terminal, debugger and process table around libcwd::attach_gdb.
//
// fork() really forks the simulation, so that the code of the child runs for real in a copy of the program with one
// thread, with system(), exit() and all output recorded.  What the child did and its exit code go back to the
// simulation, where its end, the moment the debugger attaches and everything waitpid() says follow the script of the case.
#include "simple.h"
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace app;
namespace {

enum { PR_ATTACHED = 51, PR_ENDED, PR_SIGNALLED, PR_ECHILD, PR_LATE, PR_RACE, PR_FORKFAIL, PR_LONG };

struct Shared
{
  volatile int called, exit_called, returned;
  char cmd[4096];
  char cmds[4096];     // what the commands file contained when the command started
  char out[1024];
};

struct GdbHooks;
GdbHooks* HK;
Shared* sh;
bool in_child;
long child_pid;        // of the child this process is or started last

struct GSink : Sink
{
  void put(char const* s, size_t n) override
  {
    if (in_child) { strncat(sh->out, s, std::min(n, sizeof sh->out - 1 - strlen(sh->out))); return; }
    Sink::put(s, n);
  }
};

struct Step      // the script of one call
{
  int sys = 0;             // what system() returns (a wait status, or -1)
  int sys_errno = 0;
  int sig = 0;             // the child itself is ended by this signal
  int core = 0;            // ... and dumps core
  long end = 0;            // ms after the start of the child
  long attach = -1;        // ms after the start; -1 never
  bool race = false;       // it attaches, and the child ends, just before a call of waitpid
  long other = -1;         // another child of the program ends this long after the start, in ms; -1 there is none
  bool steal = false;      // the exit status is not available (SIGCHLD is ignored, or somebody else waited)
};

std::string replace(std::string s, std::string const& a, std::string const& b)
{
  size_t p = s.find(a);
  if (p != std::string::npos) s.replace(p, a.size(), b);
  return s;
}

struct GdbHooks : SimpleHooks
{
  std::string gdb, xterm;
  bool read = false;
  int call = -1;
  Step st;
  int nforks = 0;
  bool forked = false, attached = false, ended = false, reaped = false, fork_failed = false, cmds_ok = false;
  int status = 0;
  int fork_errno = 0;
  uint64_t start_ns = 0, end_ns = 0, attach_ns = 0, begin_ns = 0;
  size_t text0 = 0;
  long state0 = 0, last_state = 0;
  bool inside = false;
  bool checking = false;
  int caller = -1;
  std::string said;
  int* hook;
  GSink gout, gerr;
  std::ostream gos{&gout};

  uintptr_t here = 0;
  explicit GdbHooks(Case const& cc) : SimpleHooks(cc)
  {
    std::cerr.rdbuf(&gerr); std::cerr.clear();
    gdb = c.str("gdb"); xterm = c.str("xterm");
    hook = (int*)dlsym(sut.handle, "libcwd_attach_gdb_hook");
    if (!hook) rt::harness_error("no libcwd_attach_gdb_hook");
    here = (uintptr_t)dlsym(sut.handle, "sut_attach_here");
    if (!here) rt::harness_error("no sut_attach_here");
  }
  std::ostream* stream(int) override { return &gos; }
  std::string text() const { return gerr.text + gout.text; }   // destinations are switched at most once, before the call
  void load(int i)
  {
    auto num = [&](char const* k, long d) { return c.num((std::to_string(i) + "." + k).c_str(), d); };
    st = {};
    st.sys = (int)num("sys", 0); st.sys_errno = (int)num("errno", EAGAIN); st.sig = (int)num("sig", 0); st.core = (int)num("core", 0);
    st.end = num("end", 1000); st.attach = num("attach", -1); st.steal = num("steal", 0); st.other = num("other", -1); st.race = num("race", 0) && st.attach >= 0;
  }
  bool cannot_start() const
  {
    return gdb.empty() || too_long();
  }
  bool too_long() const { return command().size() >= 256 || command2().size() >= 512; }
  std::string command() const { std::string p = std::to_string(c.num("pid", 4242)); return gdb + " -n -x gdb.cmds /proc/" + p + "/exe " + p; }
  std::string command2() const { return replace(xterm, "%s", command()); }
  std::string own(std::string const& s) const
  {
    // without the lines of other threads
    std::string r, l;
    for (char ch : s) { l += ch; if (ch == '\n') { if (l.find("bystander") == std::string::npos) r += l; l.clear(); } }
    return r + l;
  }
  std::string fresh() const { return own(text()).substr(std::min(text0, own(text()).size())); }
  void fail(std::string const& cls, std::string const& msg) { rt::violation(cls, msg + "; written: " + show_text(fresh())); }

  bool pre(Op const& op) override
  {
    if (op.code == GDB)
    {
      rt::InRt g;
      load(++call);
      inside = true; nforks = 0; forked = attached = ended = reaped = fork_failed = cmds_ok = false;
      text0 = own(text()).size();
      begin_ns = rt::now_ns();
      state0 = last_state;
      caller = rt::tid();
      rt::note("attach_gdb");
    }
    return true;
  }
  void post(Op const& op, long r, std::string const&) override
  {
    if (in_child) { sh->returned = 1; syscall(SYS_exit_group, 0); }
    rt::InRt g;
    if (op.code == O_STATE)
    {
      last_state = r;
      if (call >= 0 && checking && r != state0) rt::violation("output-state", "the debug output of the caller was " + std::string(state0 ? "on" : "off") + " before attaching and is " + (r ? "on" : "off") + " after it");
      checking = false;
    }
    if (op.code != GDB) return;
    inside = false; checking = true;
    rt::note("returned");
    if (cannot_start()) fail("continued-unattached", "attach_gdb returned although the configured command cannot be used");
    if (fork_failed) fail("continued-unattached", "attach_gdb returned although no child could be started");
    if (nforks == 0) fail("no-child", "attach_gdb returned and never started a child");
    if (!attached) fail("continued-unattached", "attach_gdb returned although no debugger attached");
    uint64_t lim = 1500000000ull;
    if (!c.p.slack && c.p.stall_tid < 0 && !c.p.clock_jump && rt::now_ns() > attach_ns + lim) fail("late-return", "attach_gdb returned " + std::to_string((rt::now_ns() - attach_ns) / 1000000) + " ms after the debugger attached");
    if (state0 && fresh().find("ATTACHED!") == std::string::npos) fail("no-report", "attached without saying so");
    rt::probe(PR_ATTACHED);
  }
  // The debugger stops the program, sets the variable and continues the program.
  void attach()
  {
    attach_ns = rt::now_ns();
    attached = true;
    *hook = 0;
    rt::note("attached");
  }
  // The thread that is the terminal and the debugger in it.
  void debugger()
  {
    if (st.attach >= 0)
    {
      rt::sleep_until(attach_ns + (st.race ? 120000000000ull : 0), false);
      rt::InRt g;
      if (!inside || !forked || attached || ended) return;
      attach();
    }
  }
  // fork() was called.
  long do_fork()
  {
    rt::point(rt::P_IO);
    rt::InRt g;
    if (!inside || rt::tid() != caller) rt::violation("stray-child", "a child is started outside of attach_gdb");
    if (++nforks > 1) fail("second-child", "a second child is started");
    long e = rt::fault(rt::F_FORK_FAIL);
    if (e >= 0) { fork_failed = true; fork_errno = (int)e; rt::probe(PR_FORKFAIL); errno = (int)e; return -1; }
    if (cannot_start()) fail("bad-command", "a child is started although the configured command cannot be used");
    if (!*hook) fail("bad-hook", "the variable that the debugger has to clear is not set when the child starts");
    child_pid = c.num("pid", 4242) + 1 + call;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) rt::harness_error("mmap");
    pid_t p = (pid_t)syscall(SYS_fork);
    if (p < 0) rt::harness_error("fork");
    if (p == 0)
    {
      in_child = true;
      rt::active = false;
      alarm(20);
      return 0;
    }
    int ws = 0;
    while (syscall(SYS_wait4, p, &ws, 0, nullptr) < 0 && errno == EINTR) { }
    // What happened in the child?
    if (sh->out[0]) fail("child-output", "the child wrote " + show_text(sh->out));
    if (sh->returned) fail("child-returned", "the child returned from attach_gdb and runs the program");
    if (rt::res->status != rt::ST_NONE) rt::violation("child", "violation in the child");
    if (WIFSIGNALED(ws)) fail("child-crash", "the child ended by signal " + std::to_string(WTERMSIG(ws)));
    if (sh->exit_called) fail("child-exit", "the child ran the exit handlers of the program");
    if (sh->called != 1) fail("child-command", "the child executed " + std::to_string(sh->called) + " commands");
    if (sh->cmd != command2()) fail("child-command", "the command is " + show_text(sh->cmd) + " but configured is " + show_text(command2()));
    int code = WEXITSTATUS(ws), want = 0;
    bool good;
    if (st.sys == -1) { want = 255; good = code == want; }
    else if (WIFSIGNALED(st.sys)) { want = 126; good = code == 126 || (code == 128 + WTERMSIG(st.sys) && WTERMSIG(st.sys) != SIGINT && WTERMSIG(st.sys) != SIGQUIT); }
    else { want = WEXITSTATUS(st.sys); good = code == want; }
    if (!good) fail("child-status", "the command ended with wait status " + std::to_string(st.sys) + " but the child exits with code " + std::to_string(code) + ", expected " + std::to_string(want));
    if (st.sys == -1) rt::count_fault(rt::F_SYSTEM);
    std::string cm = sh->cmds;
    size_t p1 = cm.find("set *(int*)&libcwd_attach_gdb_hook=0\n"), p2 = cm.find("\nc\n");
    cmds_ok = p1 != std::string::npos && p2 != std::string::npos && p2 > p1;
    bool damaged = rt::res->nfault[rt::F_OPEN] || rt::res->nfault[rt::F_WRITE];
    if (!cmds_ok && !damaged) fail("debugger-commands", "the debugger gets the commands " + show_text(cm));
    size_t pb = cm.find("*0x");
    uintptr_t at = pb < p1 ? strtoull(cm.c_str() + pb + 1, nullptr, 16) : 0;
    if (cmds_ok && !damaged && (at <= here || at > here + 200)) fail("debugger-commands", "the debugger does not stop where the request returns: " + show_text(cm));
    status = code << 8;
    if (st.sig) { status = st.sig | (st.core ? 0x80 : 0); rt::count_fault(rt::F_CHILD_DEATH); rt::probe(PR_SIGNALLED); }
    forked = true;
    start_ns = rt::now_ns();
    end_ns = start_ns + (uint64_t)st.end * 1000000;
    attach_ns = start_ns + (uint64_t)st.attach * 1000000;
    if (!cmds_ok) st.attach = -1;
    if (st.attach > 5000) rt::probe(PR_LATE);
    if (st.attach >= 0) rt::spawn([this] { debugger(); });
    rt::note("fork %d", (int)child_pid);
    return child_pid;
  }
  long other_pid() const { return c.num("pid", 4242) + 100; }
  long do_wait(long pid, int* ws, int opt)
  {
    rt::point(rt::P_IO);
    rt::InRt g;
    if (!inside) { errno = ECHILD; return -1; }
    if (rt::fault(rt::F_WAITPID) >= 0) { errno = EINTR; return -1; }
    // Another child of the program; what it ended with is for the program to collect.
    bool any = pid == -1 || pid == 0;
    if (st.other >= 0 && forked && (any || pid == other_pid()) && rt::now_ns() >= start_ns + (uint64_t)st.other * 1000000)
      fail("another-child", "attach_gdb collects the status of a child of the program that it did not start");
    if (!forked || reaped || (pid != child_pid && !any)) { errno = ECHILD; return -1; }
    if (!(opt & WNOHANG) && rt::now_ns() < end_ns) rt::sleep_until(end_ns, false);
    if (rt::now_ns() < end_ns) return 0;
    // The debugger did its work between the caller's last look and this call.
    if (st.attach >= 0 && cmds_ok && !attached) { attach(); if (st.race) rt::probe(PR_RACE); }
    ended = true;
    if (st.steal) { rt::probe(PR_ECHILD); rt::count_fault(rt::F_WAITPID); errno = ECHILD; return -1; }
    reaped = true;
    rt::probe(PR_ENDED);
    rt::note("wait %x", status);
    if (ws) *ws = status;
    return child_pid;
  }
  void on_end(char const* kind, int code)
  {
    std::string k = kind, t = fresh();
    auto has = [&](char const* s) { return t.find(s) != std::string::npos; };
    if (!inside || rt::tid() != caller) fail("terminated:" + k, "the program ends outside of attach_gdb");
    bool core = k == "abort", fatal = (k == "_Exit" || k == "_exit") && code == 180;
    if (!core && !fatal) fail("terminated:" + k, "attach_gdb ended the program with " + k + " " + std::to_string(code));
    if (fork_failed)
    {
      if (!fatal || !has("fork()") || !has(strerrorname_np(fork_errno)) || has("Failed to start")) fail("diagnostic", std::string("fork failed with ") + strerrorname_np(fork_errno) + "; the program ends by " + k);
      rt::finish_ok();
    }
    if (cannot_start())
    {
      bool l1 = command().size() >= 256, l2 = command2().size() >= 512;
      if (l1 || l2) rt::probe(PR_LONG);
      bool ok = false;
      if (l1 && has("'gdb' too long")) ok = true;
      if (gdb.empty() && has("'gdb' is empty")) ok = true;
      if (l2 && has("'xterm' too long")) ok = true;
      if (!fatal || !ok || nforks) fail("diagnostic", "the configured commands cannot be used (gdb " + std::to_string(gdb.size()) + ", xterm " + std::to_string(xterm.size()) + " characters); the program ends by " + k);
      rt::finish_ok();
    }
    if (attached) fail("terminated-attached", "the program is terminated although the debugger attached");
    if (!forked) fail("no-child", "the program is terminated and no child was started");
    if (rt::now_ns() < end_ns) fail("terminated-early", "the program is terminated while the child is still running");
    if (!core || !has("Failed to start gdb")) fail("diagnostic", "the child ended without attaching and the program ends by " + k);
    if (st.steal)
    {
      if (has("exit code") || has("signal") || has("dumped core")) fail("diagnostic", "nothing is known about the end of the child");
    }
    else if (st.sig)
    {
      if (!has(("signal " + std::to_string(st.sig) + " ").c_str()) || has("exit code")) fail("diagnostic", "the child was ended by signal " + std::to_string(st.sig));
    }
    else if (!has(("exit code " + std::to_string(status >> 8) + " ").c_str()) || has("signal")) fail("diagnostic", "the child ended with exit code " + std::to_string(status >> 8));
    uint64_t lim = std::max<uint64_t>(end_ns, start_ns + 6000000000ull) + 1500000000ull;
    if (!c.p.slack && c.p.stall_tid < 0 && !c.p.clock_jump && rt::now_ns() > lim) fail("late-diagnostic", "the child ended at " + std::to_string((end_ns - start_ns) / 1000000) + " ms and the program at " + std::to_string((rt::now_ns() - start_ns) / 1000000) + " ms");
    rt::finish_ok();
  }
};

struct GdbEngine : Engine
{
  void generate(Rng& r, Case& c) override
  {
    c.n["pid"] = r.chance(.5) ? r.range(2, 99999) : r.range(100000, 4194303);
    std::string gdb = "/sim/gdb", xterm = "/sim/konsole -e %s";
    switch (r.below(8))
    {
      case 0: gdb = "/sim/bin/gdb -q -iex \"set auto-load off\""; break;
      case 1: gdb = "g"; break;
      case 2: { int pad = (int)r.range(-4, 4); std::string p = std::to_string(c.n["pid"]); long fix = (long)(strlen(" -n -x gdb.cmds /proc//exe ") + 2 * p.size()); gdb = "/" + std::string((size_t)(255 - fix + pad - 1), 'g'); break; }
      case 3: if (r.chance(.3)) gdb = ""; else gdb = "/" + std::string((size_t)r.below(300), 'y'); break;
      default: break;
    }
    switch (r.below(8))
    {
      case 0: xterm = "xterm -T 'attach gdb' -e %s"; break;
      case 1: xterm = "%s"; break;
      case 2: xterm = "/sim/term"; break;
      case 3: if (r.chance(.3)) xterm = ""; else xterm = "/" + std::string((size_t)r.below(560), 'x') + " -e %s"; break;
      case 4: { std::string p = std::to_string(c.n["pid"]); long fix = (long)(strlen(" -n -x gdb.cmds /proc//exe ") + 2 * p.size() + gdb.size()); long n = 511 - fix + r.range(-4, 4) - 4; if (n > 5) xterm = "/" + std::string((size_t)n, 't') + " -e %s"; xterm = xterm.substr(0, xterm.size()); break; }
      case 5: xterm = "/sim/konsole -e %s # after"; break;
      default: break;
    }
    c.t["gdb"] = gdb; c.t["xterm"] = xterm;
    int ncall = (int)(r.chance(.3) ? 2 : 1);
    c.threads.resize(1);
    bool by = r.chance(.35);
    Ops& m0 = c.threads[0];
    bool setos = by || r.chance(.3);
    if (setos) m0.push_back(mkop(OS_SET_LOCK, 0, 0, 0));
    bool rd = r.chance(.97);
    if (!rd) { c.t["gdb"] = ""; c.t["xterm"] = ""; }
    if (rd) m0.push_back(mkop(RC_READ));
    bool on = r.chance(.75);
    if (on) m0.push_back(mkop(O_ON, 0));
    if (on && r.chance(.1)) { m0.push_back(mkop(O_OFF, 0)); on = false; }
    if (by)
    {
      c.threads.resize(3);
      for (int i = 1; i < 3; ++i)
      {
        Ops& t = c.threads[(size_t)i];
        t.push_back(mkop(O_ON, 0));
        for (int k = (int)r.range(2, 8); k > 0; --k)
        {
          Op s = mkop(S_ALWAYS, 0, 0); Op tx = mkops(I_TEXT, "bystander"); s.sub.push_back(tx);
          t.push_back(s);
          t.push_back(mkop(T_SLEEP, r.range(0, 900000)));
        }
      }
      m0.push_back(mkop(T_SPAWN, 1)); m0.push_back(mkop(T_SPAWN, 2));
    }
    for (int i = 0; i < ncall; ++i)
    {
      auto set = [&](char const* k, long v) { c.n[std::to_string(i) + "." + k] = v; };
      int how = (int)r.below(10);
      if (how < 1) { set("sys", -1); set("errno", r.chance(.5) ? EAGAIN : ENOMEM); }
      else if (how < 4) { static int const sg[] = {SIGINT, SIGQUIT, SIGKILL, SIGTERM, SIGSEGV, SIGHUP}; set("sys", sg[r.below(6)]); }
      else if (how < 8) { static int const ex[] = {0, 1, 2, 126, 127, 255, 42}; set("sys", ex[r.below(7)] << 8); }
      if (r.chance(.2)) { static int const sg[] = {SIGKILL, SIGTERM, SIGSEGV, SIGHUP, SIGINT, SIGABRT}; set("sig", sg[r.below(6)]); set("core", r.chance(.3)); }
      if (r.chance(.15)) set("race", 1);
      set("steal", r.chance(.2));
      if (r.chance(.3)) set("other", r.chance(.4) ? 0 : r.range(0, 5000));
      static long const ends[] = {0, 1, 100, 3000, 4900, 4999, 5000, 5001, 5100, 5200, 8000, 60000};
      long end = r.chance(.5) ? ends[r.below(12)] + r.range(0, 3) : r.range(0, r.chance(.5) ? 6000 : 20000);
      set("end", end);
      if (r.chance(i + 1 < ncall ? .9 : .55)) set("attach", r.chance(.5) ? std::max(0l, end - r.range(0, r.chance(.5) ? 2 : 150)) : r.range(0, end));
      m0.push_back(mkop(O_STATE, 0));
      m0.push_back(mkop(GDB));
      m0.push_back(mkop(O_STATE, 0));
      Op s = mkop(S_ALWAYS, 0, 0); s.sub.push_back(mkops(I_TEXT, "after")); m0.push_back(s);
      if (r.chance(.3)) m0.push_back(mkop(T_SLEEP, r.range(0, 3000000)));
    }
    if (by) { m0.push_back(mkop(T_JOIN, 1)); m0.push_back(mkop(T_JOIN, 2)); }
    auto& q = c.p;
    q.seed = r.next() >> 1;
    static double const ps[] = {0, .05, .3, .6};
    q.strategy = (int)r.below(4);
    q.p = ps[r.below(4)];
    q.reuse = (int)r.below(2);
    q.slack = r.chance(.15);
    auto fault = [&](rt::Fault f, int nth, long v) { q.faults.push_back({f, nth, v}); };
    if (r.chance(.1)) { static int const e[] = {EAGAIN, ENOMEM, ENOSYS}; fault(rt::F_FORK_FAIL, r.chance(.2), e[r.below(3)]); }
    if (r.chance(.3)) { int at = (int)r.below(70); for (int i = (int)(r.chance(.3) ? 60 : r.below(5)); i >= 0; --i) fault(rt::F_EINTR_SLEEP, at + i, (long)r.below(100)); }
    if (r.chance(.15)) for (int i = (int)r.below(4); i >= 0; --i) fault(rt::F_WAITPID, (int)r.below(30), EINTR);
    if (r.chance(.05)) fault(rt::F_OPEN, rd ? 1 : 0, r.chance(.5) ? EACCES : EROFS);
    if (r.chance(.05)) fault(rt::F_WRITE, (int)r.below(2), ENOSPC);
  }
  void run(Case const& c) override
  {
    world::vfs[".libcwdrc"].content = "silent = on\nchannels_default = on\ngdb = " + c.str("gdb") + "\nxterm = " + c.str("xterm") + "\n";
    if (c.str("gdb").empty() && c.str("xterm").empty()) world::vfs[".libcwdrc"].content = "silent = on\nchannels_default = on\n";
    world::env["HOME"] = "/home/user";
    world::vfs_on = world::env_on = world::vfs_write = true;
    GdbHooks* h = HK = new GdbHooks(c);
    rt::begin(c.p);
    sut.init(h);
    rt::set_terminate_handler([h](char const* k, int code) { h->on_end(k, code); });
    uint64_t leak_seq = rt::alloc_seq();
    { rt::OutRt o; sut.run(h, c.threads[0]); }
    if (HK->inside) rt::violation("hang", "attach_gdb did not return");
    rt::check_leaks(leak_seq);
    rt::finish_ok();
  }
};
GdbEngine gdb_engine;
struct RegGdb { RegGdb() { register_engine("gdb", &gdb_engine); } } reg_gdb;

} // namespace

extern "C" {
pid_t getpid()
{
  if (in_child) return (pid_t)child_pid;
  if (HK && rt::in_sim()) { return (pid_t)HK->c.num("pid", 4242); }
  return (pid_t)syscall(SYS_getpid);
}
pid_t fork()
{
  if (in_child) { errno = EAGAIN; return -1; }
  if (HK && rt::in_sim()) return (pid_t)HK->do_fork();
  static pid_t (*real)() = (pid_t(*)())dlsym(RTLD_NEXT, "fork");
  return real();
}
int system(char const* cmd)
{
  if (in_child)
  {
    sh->called = sh->called + 1;
    snprintf(sh->cmd, sizeof sh->cmd, "%s", cmd ? cmd : "(null)");
    snprintf(sh->cmds, sizeof sh->cmds, "%s", world::written("gdb.cmds").c_str());
    if (HK->st.sys == -1) errno = HK->st.sys_errno;
    return HK->st.sys;
  }
  if (rt::in_sim()) { rt::InRt g; rt::violation("parent-command", "the program itself executes " + std::string(cmd)); }
  return -1;
}
void exit(int c)
{
  if (in_child) { sh->exit_called = 1; syscall(SYS_exit_group, c); }
  static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real(c);
  __builtin_trap();
}
pid_t waitpid(pid_t p, int* ws, int opt)
{
  if (HK && rt::in_sim()) return (pid_t)HK->do_wait(p, ws, opt);
  return (pid_t)syscall(SYS_wait4, p, ws, opt, nullptr);
}
pid_t wait(int* ws) { return waitpid(-1, ws, 0); }
int kill(pid_t p, int s)
{
  if (HK && rt::in_sim()) { rt::InRt g; rt::note("kill %d %d", (int)p, s); return 0; }
  if (in_child) { errno = EPERM; return -1; }
  return (int)syscall(SYS_kill, p, s);
}
}
