// Driver: runs cases in forked children of worker processes, checks determinism, minimises and stores failing cases.
#include "case.h"
#include "world.h"
#include <alloca.h>
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <unordered_set>

using app::Op;

static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// -----------------------------------------------------------------------------------------------------------------
// One run in a child

static void reset_result()
{
  rt::Result* r = rt::res;
  r->status = rt::ST_NONE; r->cls[0] = 0; r->msg[0] = 0; r->hash = r->ilv = r->npoints = r->nswitch = r->nsync = r->vtime_ns = 0;
  memset(r->nfault, 0, sizeof r->nfault); memset(r->probe, 0, sizeof r->probe); r->nsched = 0;
}

static std::string loc(std::string const& cls) { return cls; }

// What is left on the stack by earlier runs must not be seen by this one.
__attribute__((noinline)) static void scrub_stack()
{
  char volatile* a = (char volatile*)alloca(400000);
  memset((char*)a, 0xb5, 400000);
  asm volatile("" : : "r"(a) : "memory");
}

// And it is always at the same place.
__attribute__((noinline)) static void run_at_fixed_depth(Engine* e, Case const& c)
{
  uintptr_t here = (uintptr_t)__builtin_frame_address(0);
  char volatile* a = (char volatile*)alloca(here - ((here - 0x10000) & ~(uintptr_t)0x3ffff));
  asm volatile("" : : "r"(a) : "memory");
  scrub_stack();
  alarm(60);      // blocked in something that is not simulated
  e->run(c);
}

// Returns the class of what happened ("" means that nothing is wrong).
static std::string execute(Case const& c, bool verbose = false)
{
  reset_result();
  Engine* e = find_engine(c.engine);
  if (!e) { fprintf(stderr, "unknown engine %s\n", c.engine.c_str()); exit(3); }
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0)
  {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    // The simulated threads take turns: on one processor that is much cheaper. Which one does not matter.
    int cpu = sched_getcpu();
    if (cpu >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    rt::verbose = verbose;
    run_at_fixed_depth(e, c);
    rt::harness_error("engine returned");
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(3); }
  rt::Result* r = rt::res;
  if (r->status == rt::ST_NONE)
  {
    r->status = rt::ST_VIOLATION;
    snprintf(r->cls, sizeof r->cls, "died:%s%d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    snprintf(r->msg, sizeof r->msg, "the simulated process ended without a result");
  }
  if (r->status == rt::ST_OK) return "";
  return r->cls;
}
// Judged by the wall clock.
static bool wall(std::string const& cls) { return cls == "hang" || cls == "died:signal14"; }
static std::string base_cls(std::string const& c) { size_t i = c.find('@'); return i == std::string::npos ? c : c.substr(0, i); }

static void explicit_schedule(Case& c)
{
  rt::Result* r = rt::res;
  c.p.strategy = 9;
  c.p.sched.assign(r->sched, r->sched + std::min(r->nsched, rt::MAXSCHED));
  c.p.stall_tid = -1;
}

// -----------------------------------------------------------------------------------------------------------------
// Minimiser

struct Mini
{
  Case best; std::string cls; double deadline; uint64_t tries = 0;
  bool same(std::string const& k) { return k == cls || (!k.empty() && base_cls(k) == base_cls(cls)); }
  // Try a structurally different case. The schedule has to be searched for again.
  bool attempt(Case c, int search)
  {
    if (now_s() > deadline) return false;
    Case x = c;
    ++tries;
    if (same(execute(x)) && rt::res->nsched < rt::MAXSCHED) { if (x.p.strategy != 9) explicit_schedule(x); best = x; return true; }
    if (best.threads.size() < 2) return false;
    for (int i = 0; i < search && now_s() < deadline; ++i)
    {
      x = c;
      static int const st[] = {1, 3, 2, 4};
      static double const ps[] = {.1, .3, .05, .6};
      x.p.sched.clear();
      x.p.seed = 1000 + i; x.p.strategy = st[i % 4]; x.p.p = x.p.strategy == 2 ? .03 : ps[(i / 4) % 4]; x.p.depth = 3; x.p.horizon = 3000ull << (i % 4);
      ++tries;
      if (same(execute(x)) && rt::res->nsched < rt::MAXSCHED) { explicit_schedule(x); best = x; return true; }
    }
    return false;
  }
  static bool shrink_ops(Ops& ops, size_t from, size_t n) { if (from >= ops.size()) return false; ops.erase(ops.begin() + from, ops.begin() + std::min(ops.size(), from + n)); return true; }
  static Ops* at(Case& c, size_t th, std::vector<size_t> const& path) { Ops* o = &c.threads[th]; for (size_t i : path) { if (i >= o->size()) return nullptr; o = &(*o)[i].sub; } return o; }
  void ops_pass(size_t th, std::vector<size_t> path, int search)
  {
    Ops* o = at(best, th, path);
    if (!o) return;
    bool scope = !path.empty() && path.size() >= 1;
    (void)scope;
    for (size_t n = std::max<size_t>(o->size() / 2, 1); ; n /= 2)
    {
      for (size_t i = 0; ; )
      {
        if (now_s() > deadline) return;
        o = at(best, th, path);
        if (!o || i >= o->size()) break;
        // The first sub-operation of "entering" is its statement.
        Case c = best;
        Ops* q = at(c, th, path);
        bool ent = false;
        if (!path.empty()) { std::vector<size_t> pp(path.begin(), path.end() - 1); Ops* par = at(c, th, pp); ent = (*par)[path.back()].code == app::S_ENTERING && (*par)[path.back()].sub.size() && (*par)[path.back()].sub[0].code == app::S_ENTERING; }
        if (ent && i == 0) { i = 1; continue; }
        shrink_ops(*q, i, n);
        if (!attempt(c, search)) i += n;
      }
      if (n <= 1) break;
    }
    o = at(best, th, path);
    for (size_t i = 0; o && i < o->size(); ++i)
    {
      if (!(*o)[i].sub.empty()) { auto p2 = path; p2.push_back(i); ops_pass(th, p2, search / 2); }
      o = at(best, th, path);
      if (!o || i >= o->size()) break;
      // simpler arguments
      if ((*o)[i].code <= app::S_ENTERING)
        for (int a : {2, 3, 5})
        {
          o = at(best, th, path);
          if (!(*o)[i].a[a]) continue;
          Case c = best;
          (*at(c, th, path))[i].a[a] = 0;
          attempt(c, search / 4);
        }
      o = at(best, th, path);
    }
  }
  void schedule()
  {
    if (best.p.strategy != 9) return;
    for (size_t n = std::max<size_t>(best.p.sched.size() / 2, 1); ; n /= 2)
    {
      for (size_t i = 0; i < best.p.sched.size(); )
      {
        if (now_s() > deadline) return;
        Case c = best;
        c.p.sched.erase(c.p.sched.begin() + i, c.p.sched.begin() + std::min(c.p.sched.size(), i + n));
        ++tries;
        if (same(execute(c))) best = c; else i += n;
      }
      if (n <= 1) break;
    }
  }
  void run()
  {
    // Does the recorded schedule reproduce it?
    for (size_t t = best.threads.size(); t-- > 1;)
    {
      Case c = best;
      if (c.threads[t].empty()) continue;
      c.threads[t].clear();
      attempt(c, 24);
    }
    for (size_t i = best.p.faults.size(); i-- > 0;) { Case c = best; c.p.faults.erase(c.p.faults.begin() + i); attempt(c, 6); }
    for (size_t t = 0; t < best.threads.size(); ++t) ops_pass(t, {}, 12);
    { Case c = best; if (c.p.reuse) { c.p.reuse = 0; attempt(c, 2); } }
    { Case c = best; if (c.p.slack) { c.p.slack = 0; attempt(c, 2); } }
    { Case c = best; if (c.p.clock_jump) { c.p.clock_jump = 0; attempt(c, 2); } }
    for (auto kv : std::map<std::string, std::string>(best.t)) { Case c = best; if (!kv.second.empty() && kv.first != "stdin") { c.t.erase(kv.first); attempt(c, 2); } }
    while (best.threads.size() > 1 && best.threads.back().empty()) { Case c = best; c.threads.pop_back(); if (!attempt(c, 6)) break; }
    schedule();
  }
};

// -----------------------------------------------------------------------------------------------------------------
// Shared state of the workers

constexpr int MAXV = 48;
constexpr uint32_t MAXILV = 1u << 22;
struct Viol { char cls[128]; char path[300]; char msg[3000]; int known; uint64_t seed; uint64_t hits; };
struct Shared
{
  std::atomic<uint64_t> next[2], taken, runs, dets, points, switches, syncs, vtime, evals, tries;
  std::atomic<uint64_t> fault[rt::F_COUNT], probe[rt::NPROBE], per_profile[32];
  std::atomic<uint32_t> nilv;
  std::atomic<int> stop, nviol, lock, harness;
  std::atomic<double> stop_at;
  char harness_msg[3000];
  char harness_case[200];
  Viol viol[MAXV];
  uint64_t ilv[MAXILV];
};
static Shared* sh;
static void lock() { while (sh->lock.exchange(1)) usleep(100); }
static void unlock() { sh->lock = 0; }

struct Conf
{
  std::vector<std::pair<std::string, std::string>> profiles;
  std::vector<double> weight;
  uint64_t seed = 1;
  double time = 20;
  uint64_t maxruns = ~0ull;
  int workers = 8;
  std::string replaydir, out;
  std::vector<std::string> known;
  double minimise = 20, early = 1e9;
  int det_every = 50;
};
static Conf cf;

static bool is_known(std::string const& cls)
{
  for (auto& k : cf.known) if (k == cls || (!k.empty() && k.back() == '*' && cls.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0)) return true;
  return false;
}
static Case make_case(uint64_t idx, int& prof)
{
  Rng r(cf.seed * 1000003ull + idx * 7919ull + 12345);
  Case c;
  prof = (int)(idx % cf.profiles.size());
  c.engine = cf.profiles[prof].first; c.profile = cf.profiles[prof].second;
  find_engine(c.engine)->generate(r, c);
  return c;
}
static void harness(std::string const& m, bool soft = false)
{
  lock();
  if (!sh->harness) { snprintf(sh->harness_msg, sizeof sh->harness_msg, "%s", m.c_str()); sh->harness = 1; }
  unlock();
  if (!soft) sh->stop = 1;
}

static void handle(Case c, uint64_t idx, std::string cls, double t_end)
{
  std::string msg = rt::res->msg;
  uint64_t h1 = rt::res->hash;
  int ns = rt::res->nsched;
  Case recorded = c;
  if (ns <= rt::MAXSCHED) explicit_schedule(recorded);
  bool unstable = false;
  std::string cls2 = execute(c);
  if (cls2 != cls || rt::res->hash != h1)
  {
    if (wall(cls) && cls2 != cls) return;   // judged by the wall clock; not repeated: not a violation
    // The program does something that depends on what happens to be in memory. Does it fail more often than this once?
    int again = cls2 == cls;
    for (int i = 0; i < 20 && !again; ++i) again = execute(c) == cls;
    std::ofstream(cf.replaydir + "/nondet.case") << case_to_text(c);
    if (again) unstable = true;
    else harness("a failing run was not repeatable: '" + cls + "' " + msg + " versus '" + cls2 + "' " + rt::res->msg + " (case written to nondet.case)", true);
    if (!again) return;
  }
  bool known = is_known(cls);
  lock();
  int slot = -1;
  for (int i = 0; i < sh->nviol; ++i) if (base_cls(sh->viol[i].cls) == base_cls(cls) && (base_cls(cls) != "race" || cls == sh->viol[i].cls) && sh->viol[i].known == known && (!known || cls == sh->viol[i].cls)) { ++sh->viol[i].hits; slot = i; }
  int fresh = 0;
  for (int i = 0; i < sh->nviol; ++i) fresh += !sh->viol[i].known;
  if (slot >= 0 || sh->nviol >= MAXV || (!known && fresh >= 6)) { unlock(); return; }
  slot = sh->nviol++;
  Viol& v = sh->viol[slot];
  snprintf(v.cls, sizeof v.cls, "%s", cls.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  v.known = known; v.hits = 1; v.seed = idx;
  unlock();
  if (known) return;
  if (unstable) { c.n["unstable"] = 1; recorded = c; }
  Mini m;
  m.cls = cls;
  m.best = c;
  if (!unstable && !wall(cls) && ns <= rt::MAXSCHED) { std::string k = execute(recorded); if (m.same(k)) m.best = recorded; }
  m.deadline = now_s() + cf.minimise;
  if (!unstable && !wall(cls) && cls.compare(0, 14, "stuck:livelock") != 0) m.run();
  sh->tries += m.tries;
  // The final word.
  std::string k = execute(m.best);
  if (k.empty()) { m.best = c; k = execute(m.best); }
  for (int i = 0; i < 100 && unstable && k != cls; ++i) k = execute(m.best);
  if (k.empty()) { v.known = 1; harness("a failing run was not repeatable: '" + cls + "' " + msg, true); return; }
  m.best.expect_cls = k;
  m.best.expect_hash = rt::res->hash;
  char name[300];
  std::string fn = base_cls(k);
  for (auto& ch : fn) if (!isalnum((unsigned char)ch) && ch != '-') ch = '_';
  snprintf(name, sizeof name, "%s/%s-%d.case", cf.replaydir.c_str(), fn.c_str(), slot);
  std::ofstream(name) << case_to_text(m.best, "class " + k + "\n" + rt::res->msg + "\nfound by seed " + std::to_string(cf.seed) + " index " + std::to_string(idx) + "; " + std::to_string(case_ops(c)) + " operations reduced to " + std::to_string(case_ops(m.best)) + ", " + std::to_string(ns) + " scheduling decisions to " + std::to_string(m.best.p.sched.size()));
  lock();
  snprintf(v.cls, sizeof v.cls, "%s", k.c_str());
  snprintf(v.msg, sizeof v.msg, "%.2990s", rt::res->msg);
  snprintf(v.path, sizeof v.path, "%s", name);
  if (!sh->stop_at) sh->stop_at = now_s() + cf.early;
  unlock();
}

static void worker(int wid, double t_end)
{
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  rt::res = (rt::Result*)mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // A worker has the library loaded or not: its cases are those that want the same.
  std::vector<size_t> mine[2];
  for (size_t i = 0; i < cf.profiles.size(); ++i) mine[find_engine(cf.profiles[i].first)->needs_sut()].push_back(i);
  int group = mine[1].size() ? 1 : 0;
  if (mine[0].size() && mine[1].size())
  {
    int n0 = std::max(1, (int)(cf.workers * mine[0].size() / cf.profiles.size()));
    group = wid < n0 ? 0 : 1;
  }
  if (group) load_sut();
  for (size_t i : mine[group]) find_engine(cf.profiles[i].first)->prepare();
  while (!sh->stop && now_s() < t_end && (!sh->stop_at || now_s() < sh->stop_at))
  {
    if (sh->taken++ >= cf.maxruns) break;
    uint64_t turn = sh->next[group]++, idx = turn / mine[group].size() * cf.profiles.size() + mine[group][turn % mine[group].size()];
    int prof;
    Case c = make_case(idx, prof);
    std::string cls = execute(c);
    rt::Result* r = rt::res;
    if (r->status == rt::ST_HARNESS) { std::ofstream(cf.replaydir + "/harness.case") << case_to_text(c); harness(std::string(r->msg) + " (harness.case, index " + std::to_string(idx) + ")"); break; }
    ++sh->runs; ++sh->per_profile[prof & 31];
    sh->points += r->npoints; sh->switches += r->nswitch; sh->syncs += r->nsync; sh->vtime += r->vtime_ns;
    for (int i = 0; i < rt::F_COUNT; ++i) if (r->nfault[i]) sh->fault[i] += r->nfault[i];
    for (int i = 0; i < rt::NPROBE; ++i) if (r->probe[i]) sh->probe[i] += r->probe[i];
    bool nontrivial = r->nswitch > 0;
    for (int i = 0; i < rt::F_COUNT; ++i) nontrivial |= r->nfault[i] != 0;
    for (int i = 0; i < rt::NPROBE; ++i) nontrivial |= r->probe[i] != 0;
    uint32_t k = nontrivial ? sh->nilv++ : MAXILV;
    if (k < MAXILV) sh->ilv[k] = r->ilv ^ (r->hash * 0x9e3779b97f4a7c15ull);
    if (!cls.empty()) { handle(c, idx, cls, t_end); continue; }
    if (idx % cf.det_every == 0)
    {
      uint64_t h = r->hash, n = r->npoints;
      std::string c2 = execute(c);
      ++sh->dets;
      if (c2 != "" || r->hash != h || r->npoints != n) { std::ofstream(cf.replaydir + "/nondet.case") << case_to_text(c); harness("two runs of index " + std::to_string(idx) + " differ (nondet.case)", true); }
    }
  }
}

static std::string jstr(std::string const& s)
{
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
  return r + "\"";
}

static int explore()
{
  mkdir(cf.replaydir.c_str(), 0777);
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (char const* p = getenv("SIM_COV"))
  {
    size_t const n = 16 << 20;
    int fd = open(p, O_RDWR | O_CREAT, 0666);
    if (fd < 0 || ftruncate(fd, n)) { perror(p); exit(3); }
    rt::set_coverage((unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0), n);
  }
  double t0 = now_s(), t_end = t0 + cf.time;
  std::vector<pid_t> pids;
  for (int i = 0; i < cf.workers; ++i)
  {
    pid_t p = fork();
    if (p == 0) { worker(i, t_end); _exit(0); }
    pids.push_back(p);
  }
  int bad = 0;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = 1; fprintf(stderr, "worker %d ended with status %x\n", p, st); } }
  double wall = now_s() - t0;
  uint32_t n = std::min<uint32_t>(sh->nilv, MAXILV);
  std::sort(sh->ilv, sh->ilv + n);
  uint32_t distinct = (uint32_t)(std::unique(sh->ilv, sh->ilv + n) - sh->ilv);
  std::string o = "{\n";
  char b[512];
  snprintf(b, sizeof b, "\"runs\": %lu, \"determinism_pairs\": %lu, \"wall_s\": %.2f, \"points\": %lu, \"switches\": %lu, \"sync_points\": %lu, \"simulated_s\": %.6f, \"distinct\": %u, \"minimiser_runs\": %lu,\n",
           sh->runs.load(), sh->dets.load(), wall, sh->points.load(), sh->switches.load(), sh->syncs.load(), sh->vtime.load() * 1e-9, distinct, sh->tries.load());
  o += b;
  o += "\"faults\": {";
  bool first = true;
  for (int i = 0; i < rt::F_COUNT; ++i) if (sh->fault[i]) { o += (first ? "" : ", ") + jstr(rt::fault_names[i]) + ": " + std::to_string(sh->fault[i].load()); first = false; }
  o += "},\n\"rare_events\": {";
  first = true;
  for (int i = 0; i < rt::NPROBE; ++i) if (probe_names[i] && sh->probe[i]) { o += (first ? "" : ", ") + jstr(probe_names[i]) + ": " + std::to_string(sh->probe[i].load()); first = false; }
  o += "},\n\"profiles\": {";
  for (size_t i = 0; i < cf.profiles.size(); ++i) o += (i ? ", " : "") + jstr(cf.profiles[i].first + ":" + cf.profiles[i].second) + ": " + std::to_string(sh->per_profile[i].load());
  o += "},\n\"violations\": [";
  int nv = sh->nviol;
  for (int i = 0; i < nv; ++i)
  {
    Viol& v = sh->viol[i];
    o += (i ? ",\n" : "\n") + std::string("{\"cls\": ") + jstr(v.cls) + ", \"path\": " + jstr(v.path) + ", \"msg\": " + jstr(v.msg) + ", \"known\": " + (v.known ? "true" : "false") + ", \"hits\": " + std::to_string(v.hits) + ", \"index\": " + std::to_string(v.seed) + "}";
  }
  o += "],\n\"harness\": " + (sh->harness || bad ? jstr(sh->harness_msg[0] ? sh->harness_msg : "worker died") : std::string("null")) + "\n}\n";
  if (cf.out.empty()) fputs(o.c_str(), stdout); else std::ofstream(cf.out) << o;
  return sh->harness || bad ? 3 : 0;
}

static std::string slurp(std::string const& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

int main(int argc, char** argv)
{
  unsigned long per = personality(0xffffffff);
  if (per != ~0ul && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
  {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  rt::init_process();
  rt::InRt g;
  char exe[400];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[n < 0 ? 0 : n] = 0;
  out_dir = exe;
  out_dir.resize(out_dir.rfind('/'));
  std::string cmd = argc > 1 ? argv[1] : "";
  bool verbose = false;
  std::vector<std::string> pos;
  uint64_t index = 0;
  for (int i = 2; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--profiles") { std::stringstream s(val()); std::string x; while (std::getline(s, x, ',')) { size_t k = x.find(':'); cf.profiles.push_back({x.substr(0, k), x.substr(k + 1)}); } }
    else if (a == "--seed") cf.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--time") cf.time = atof(val().c_str());
    else if (a == "--runs") cf.maxruns = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") cf.workers = atoi(val().c_str());
    else if (a == "--replays") cf.replaydir = val();
    else if (a == "--out") cf.out = val();
    else if (a == "--known") { std::stringstream s(slurp(val())); std::string x; while (std::getline(s, x)) if (!x.empty()) cf.known.push_back(x); }
    else if (a == "--minimise") cf.minimise = atof(val().c_str());
    else if (a == "--early") cf.early = atof(val().c_str());
    else if (a == "--index") index = strtoull(val().c_str(), 0, 10);
    else if (a == "-v") verbose = true;
    else pos.push_back(a);
  }
  if (cmd == "explore") { int rc = explore(); fflush(nullptr); _exit(rc); }
  if (cmd == "replay" || cmd == "gen" || cmd == "min")
  {
    Case c;
    if (cmd == "gen") { for (auto& p : cf.profiles) find_engine(p.first)->prepare(); int prof; c = make_case(index, prof); if (pos.empty() || pos[0] != "run") { fputs(case_to_text(c).c_str(), stdout); fflush(stdout); _exit(0); } }
    else
    {
      std::string err;
      if (pos.empty() || !case_from_text(slurp(pos[0]), c, err)) { fprintf(stderr, "cannot read case: %s\n", err.c_str()); _exit(3); }
    }
    if (c.engine.empty() || !find_engine(c.engine)) { fprintf(stderr, "no engine\n"); _exit(3); }
    rt::res = (rt::Result*)mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (find_engine(c.engine)->needs_sut()) load_sut();
    find_engine(c.engine)->prepare();
    std::string k = execute(c, verbose);
    bool unstable = c.num("unstable");
    for (int i = 0; i < 100 && unstable && k != c.expect_cls; ++i) k = execute(c, verbose);
    if (cmd == "min")
    {
      Mini m; m.cls = k; m.best = c; if (rt::res->nsched <= rt::MAXSCHED) { Case r = c; explicit_schedule(r); if (m.same(execute(r))) m.best = r; }
      m.deadline = now_s() + cf.minimise;
      m.run();
      execute(m.best);
      fputs(case_to_text(m.best, std::string("class ") + rt::res->cls + "\n" + rt::res->msg).c_str(), stdout);
      fflush(stdout);
      _exit(0);
    }
    rt::Result* r = rt::res;
    printf("{\"class\": %s, \"hash\": \"%016lx\", \"points\": %lu, \"status\": %d, \"expected\": %s, \"reproduced\": %s, \"msg\": %s}\n", jstr(k).c_str(), (unsigned long)r->hash, (unsigned long)r->npoints, r->status, jstr(c.expect_cls).c_str(),
           !c.expect_cls.empty() && k == c.expect_cls && (unstable || r->hash == c.expect_hash) ? "true" : "false", jstr(r->msg).c_str());
    fflush(stdout);
    _exit(r->status == rt::ST_HARNESS ? 3 : k.empty() ? 0 : 1);
  }
  fprintf(stderr, "usage: sim explore|replay|gen|min ...\n");
  return 2;
}
