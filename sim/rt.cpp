// Deterministic simulation runtime. See rt.h.
// This file is compiled without instrumentation and exports the symbols listed in export.list.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <algorithm>

namespace rt {

char const* const fault_names[F_COUNT] = {
  "open_error", "read_error", "short_read", "read_eintr", "mmap_error", "dlopen_fail", "dlclose_fail", "dlinfo_fail", "readlink_error",
  "stream_write_error", "stream_throws", "stream_stalls", "stream_clobbers_errno", "lock_holder_stalls", "stdin_eof", "stdin_error",
  "sleep_interrupted", "clock_jump", "fork_fails", "waitpid_fails", "system_fails", "stat_error", "access_denied", "crash_point",
  "alloc_fails", "trylock_busy", "getpwuid_fails", "env_unset", "rlimit_error", "operand_clobbers_errno", "truncated_file", "address_reuse",
  "thread_stalls", "child_dies", "write_error",
  "dwfl_fails", "dwarf_unit_fails", "dwarf_name_fails", "dwarf_scopes_fails", "dwarf_line_fails"};

// ---------------------------------------------------------------------------------------------------------------
// State

static __thread int rtdepth = 0;

struct VC { uint32_t c[MAXT]; };

enum St { NEW, READY, SLEEP, BLOCKED, DONE };

struct Thr
{
  int id = -1;
  pthread_t pt{};
  std::atomic<int> go{0};
  St st = NEW;
  void const* wobj = nullptr;
  char const* wwhat = "";
  bool parked = false;
  uint64_t wake = 0;
  VC vc{};
  char *slo = nullptr, *shi = nullptr;
  std::vector<std::pair<void const*, char>> held;
  std::vector<std::pair<void (*)(void*), void*>> tls;
  double prio = 0;
  uint64_t run_len = 0;
  std::function<void()> fn;
  bool joined = false;
  char alt[32768];
};

static __thread Thr* self = nullptr;
static Thr* thr[MAXT];
static int nthr = 0;
static Thr* zombie = nullptr;
static int alive_extra = 0;   // simulated threads (other than 0) that are not DONE

bool active = false;
bool verbose = false;
Result* res = nullptr;
static Params P;
static uint64_t sched_rng, aux_rng;
static uint64_t npoints, now_, nswitch, nsync;
static size_t sched_idx;
static uint64_t hash_ = 1469598103934665603ull, ilv_ = 1469598103934665603ull;
static bool races_ = true;
static std::function<void(char const*)> end_handler;
static std::function<void(char const*, int)> term_handler;
static lock_hook_t lock_hook, locking_hook;
static pthread_key_t exit_key;

// The keys of the program; the simulator itself uses the real functions.
constexpr int KEYS = 64, KEY0 = 1000;
struct Key { bool used; void (*dtor)(void*); };
static Key keys[KEYS];
static thread_local void* key_value[KEYS];
// Looked up by the first thread: a thread that starts must not wait for a loader that waits for the simulation.
static int (*real_setspecific)(pthread_key_t, void const*);
static void end_keys()
{
  for (int round = 0; round < 4; ++round)
    for (int k = 0; k < KEYS; ++k)
      if (void* v = key_value[k]; v && keys[k].used && keys[k].dtor) { key_value[k] = nullptr; keys[k].dtor(v); }
}
static uintptr_t sut_lo, sut_hi, cxx_lo, cxx_hi;
static std::vector<uint64_t> pct_points;
static bool ending = false;
uint64_t op_counter = 0;

InRt::InRt() { ++rtdepth; }
InRt::~InRt() { --rtdepth; }
OutRt::OutRt() : saved(rtdepth) { rtdepth = 0; }
OutRt::~OutRt() { rtdepth = saved; }

static uint64_t splitmix(uint64_t& s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline double u01(uint64_t& s) { return (splitmix(s) >> 11) * (1.0 / 9007199254740992.0); }
uint64_t rnd() { return splitmix(aux_rng); }
uint64_t now_ns() { return now_; }
int tid() { return self && active ? self->id : -1; }
bool in_sim() { return active && self && rtdepth == 0; }
bool races_on() { return races_; }
void set_races(bool on) { races_ = on; }
static unsigned char* cov_map;
static size_t cov_size;
void set_coverage(unsigned char* m, size_t n) { cov_map = m; cov_size = n; }
void set_sut_range(uintptr_t lo, uintptr_t hi) { sut_lo = lo; sut_hi = hi; }

static inline void mix(uint64_t& h, uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
static void mixstr(uint64_t& h, char const* s) { for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; } }

static void vnote(bool hashit, char const* fmt, va_list ap)
{
  char buf[2048];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < 0) return;
  if (hashit) { mix(hash_, self ? self->id + 1 : 0); mixstr(hash_, buf); }
  if (verbose)
  {
    char out[2300];
    int m = snprintf(out, sizeof out, "[%8lu T%-2d %10lu] %s\n", (unsigned long)npoints, self ? self->id : -1, (unsigned long)now_, buf);
    if (m > (int)sizeof out) m = sizeof out;
    (void)!syscall(SYS_write, 2, out, m);
  }
}
void note(char const* fmt, ...) { InRt g; int e = errno; va_list ap; va_start(ap, fmt); vnote(true, fmt, ap); va_end(ap); errno = e; }
void trace_only(char const* fmt, ...) { if (!verbose) return; InRt g; int e = errno; va_list ap; va_start(ap, fmt); vnote(false, fmt, ap); va_end(ap); errno = e; }
void probe(int n) { if (res && active) ++res->probe[(unsigned)n % NPROBE]; }

// ---------------------------------------------------------------------------------------------------------------
// Ending a run

[[noreturn]] static void die() { syscall(SYS_exit_group, 0); __builtin_trap(); }

static void fill_result()
{
  res->hash = hash_; res->ilv = ilv_; res->npoints = npoints; res->nswitch = nswitch; res->nsync = nsync; res->vtime_ns = now_;
}
[[noreturn]] void finish_ok()
{
  ++rtdepth;
  fill_result();
  res->status = ST_OK;
  die();
}
[[noreturn]] void violation(std::string const& cls, std::string const& msg)
{
  ++rtdepth;
  if (res->status == ST_NONE)
  {
    mixstr(hash_, cls.c_str());
    fill_result();
    snprintf(res->cls, sizeof res->cls, "%s", cls.c_str());
    snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
    if (verbose) { std::string s = "VIOLATION-CLASS " + cls + "\n" + msg + "\n"; (void)!syscall(SYS_write, 2, s.data(), s.size()); }
    res->status = ST_VIOLATION;
  }
  die();
}
[[noreturn]] void harness_error(std::string const& msg)
{
  ++rtdepth;
  fill_result();
  snprintf(res->cls, sizeof res->cls, "harness");
  snprintf(res->msg, sizeof res->msg, "%s", msg.c_str());
  res->status = ST_HARNESS;
  if (verbose) { std::string s = "HARNESS ERROR " + msg + "\n"; (void)!syscall(SYS_write, 2, s.data(), s.size()); }
  die();
}
void set_end_handler(std::function<void(char const*)> fn) { end_handler = std::move(fn); }
void set_terminate_handler(std::function<void(char const*, int)> fn) { term_handler = std::move(fn); }

std::string locks_held_str(int t)
{
  std::string s;
  for (auto& h : thr[t]->held) { char b[64]; snprintf(b, sizeof b, " %c:%p", h.second, h.first); s += b; }
  return s;
}
void const* innermost_mutex(int t) { auto& h = thr[t]->held; for (size_t i = h.size(); i-- > 0;) if (h[i].second == 'M') return h[i].first; return nullptr; }
int locks_held(int t) { return (int)thr[t]->held.size(); }

std::string thread_states()
{
  std::string s;
  for (int i = 0; i < nthr; ++i)
  {
    Thr* t = thr[i];
    char b[160];
    static char const* const n[] = {"new", "ready", "sleeping", "blocked", "done"};
    snprintf(b, sizeof b, "T%d %s%s%s%s", i, n[t->st], t->st == SLEEP && t->parked ? "(parked)" : "", t->st == BLOCKED ? " on " : "", t->st == BLOCKED ? t->wwhat : "");
    s += b;
    if (t->st != DONE && !t->held.empty()) s += " holding" + locks_held_str(i);
    s += "; ";
  }
  return s;
}

[[noreturn]] static void end_run(char const* reason)
{
  ++rtdepth;
  if (!ending) { ending = true; if (end_handler) end_handler(reason); }
  violation(std::string("stuck:") + reason, thread_states());
}

// ---------------------------------------------------------------------------------------------------------------
// Faults

static uint32_t fault_seen[F_COUNT];
long faults_seen(Fault k) { return res ? (long)res->nfault[k] : 0; }
void count_fault(Fault k) { if (res) ++res->nfault[k]; }
bool fault_active(Fault k) { for (auto& f : P.faults) if (f.kind == k) return true; return false; }
long fault(Fault k)
{
  if (!active) return -1;
  uint32_t n = fault_seen[k]++;
  for (auto& f : P.faults)
    if (f.kind == k && (f.nth == (int)n || f.nth == -1))
    {
      ++res->nfault[k];
      note("fault %s #%u val %ld", fault_names[k], n, f.val);
      return f.val < 0 ? 0 : f.val;
    }
  return -1;
}

// ---------------------------------------------------------------------------------------------------------------
// Scheduler

static void futex_wait(std::atomic<int>& a)
{
  while (a.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  a.store(0, std::memory_order_relaxed);
}
static void futex_wake(std::atomic<int>& a)
{
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void reap()
{
  if (zombie) { Thr* z = zombie; zombie = nullptr; pthread_join(z->pt, nullptr); z->joined = true; }
}

static bool eligible(Thr* t, bool slack)
{
  if (t->st == READY) return true;
  if (t->st == SLEEP) return t->wake <= now_ || (slack && !t->parked);
  return false;
}

static Thr* choose(PointKind k, bool voluntary)
{
  Thr* cand[MAXT];
  int n;
  for (;;)
  {
    n = 0;
    bool slack = P.slack;
    for (int i = 0; i < nthr; ++i) if (eligible(thr[i], slack)) cand[n++] = thr[i];
    if (n) break;
    uint64_t best = ~0ull;
    for (int i = 0; i < nthr; ++i) if (thr[i]->st == SLEEP && !thr[i]->parked && thr[i]->wake < best) best = thr[i]->wake;
    if (best == ~0ull)
    {
      bool blocked = false, parked = false;
      for (int i = 0; i < nthr; ++i) { blocked |= thr[i]->st == BLOCKED; parked |= thr[i]->st == SLEEP; }
      end_run(parked ? (blocked ? "blocked+parked" : "parked") : "deadlock");
    }
    now_ = std::max(now_, best);
  }
  Thr* def = nullptr;
  if (voluntary) def = self;
  else
  {
    for (int d = 1; d <= nthr && !def; ++d) { Thr* t = thr[(self->id + d) % nthr]; for (int i = 0; i < n; ++i) if (cand[i] == t) def = t; }
  }
  Thr* c = def;
  if (P.strategy == 9)
  {
    while (sched_idx < P.sched.size() && P.sched[sched_idx].pt < npoints) ++sched_idx;
    if (sched_idx < P.sched.size() && P.sched[sched_idx].pt == npoints)
    {
      int w = P.sched[sched_idx++].tid;
      for (int i = 0; i < n; ++i) if (cand[i]->id == w) c = cand[i];
    }
  }
  else if (n > 1 || !voluntary)
  {
    if (P.stall_tid >= 0 && npoints >= P.stall_from && npoints < P.stall_to && n > 1)
    {
      int m = 0; bool hit = false;
      for (int i = 0; i < n; ++i) if (cand[i]->id != P.stall_tid) cand[m++] = cand[i]; else hit = true;
      n = m;
      if (hit && self->id == P.stall_tid) { voluntary = false; }
      if (hit) { static bool counted; if (!counted) { counted = true; count_fault(F_STALL); } }
      if (c && c->id == P.stall_tid) c = cand[0];
    }
    bool sync = k != P_MEM && k != P_SHARED;
    if (P.strategy == 4)
    {
      while (!pct_points.empty() && pct_points.back() <= npoints)
      {
        self->prio = -(double)npoints;
        pct_points.pop_back();
      }
      if (self->run_len > 40000) { self->prio = -(double)npoints; self->run_len = 0; }
      c = cand[0];
      for (int i = 1; i < n; ++i) if (cand[i]->prio > c->prio) c = cand[i];
    }
    else
    {
      double p = P.p;
      if (P.strategy == 0) p = 0;
      else if (P.strategy == 1) p = sync ? p : 0;
      else if (P.strategy == 3) p = k == P_SHARED ? 0.4 : sync ? p : p * 0.01;
      if (!voluntary) { if (P.strategy != 0) c = cand[splitmix(sched_rng) % n]; }
      else if (self->run_len > 200000 || (p > 0 && u01(sched_rng) < p)) { self->run_len = 0; c = cand[splitmix(sched_rng) % n]; }
    }
  }
  if (c != def)
  {
    if (res->nsched < MAXSCHED) { res->sched[res->nsched].pt = npoints; res->sched[res->nsched].tid = c->id; }
    ++res->nsched;
  }
  if (c->st == SLEEP) { if (c->wake > now_) now_ = c->wake; c->st = READY; }
  return c;
}

static void switch_to(Thr* n)
{
  if (n == self) return;
  ++nswitch;
  mix(ilv_, n->id * 2654435761u + 17);
  mix(hash_, n->id + 101);
  self->run_len = 0;
  Thr* me = self;
  futex_wake(n->go);
  futex_wait(me->go);
  reap();
}

static void tick()
{
  ++npoints;
  ++self->run_len;
  if (P.clock_jump)
  {
    uint64_t r = splitmix(aux_rng) & 0xfff;
    if (r == 0) { now_ += 1000000ull * (1 + (splitmix(aux_rng) % 400)); count_fault(F_TIMEJUMP); }
    else now_ += r & 63;
  }
  else now_ += 40;
  if (npoints > P.max_points) end_run("livelock");
}

void point(PointKind k)
{
  if (!active || !self || ending) return;
  InRt g;
  int e = errno;
  tick();
  if (k != P_MEM && k != P_SHARED) { ++nsync; mix(ilv_, (uint64_t)k * 31 + self->id); }
  Thr* c = choose(k, true);
  if (c != self) switch_to(c);
  errno = e;
}

static void block(void const* obj, char const* what)
{
  self->st = BLOCKED; self->wobj = obj; self->wwhat = what;
  tick(); ++nsync;
  Thr* c = choose(P_LOCK, false);
  switch_to(c);
}
static void wake_all(void const* obj)
{
  for (int i = 0; i < nthr; ++i) if (thr[i]->st == BLOCKED && thr[i]->wobj == obj) { thr[i]->st = READY; thr[i]->wobj = nullptr; }
}

void sleep_until(uint64_t t, bool parked)
{
  if (!active || !self || ending) return;
  InRt g; int e = errno;
  self->st = SLEEP; self->wake = t; self->parked = parked;
  tick(); ++nsync;
  Thr* c = choose(P_SLEEP, false);
  if (c == self) { errno = e; return; }
  switch_to(c);
  errno = e;
}
void sleep_ns(uint64_t d) { sleep_until(now_ + d, d >= 3600ull * 1000000000ull); }

static void thread_exit_dtor(void* v)
{
  Thr* t = (Thr*)v;
  ++rtdepth;
  note("thread exit");
  t->st = DONE;
  --alive_extra;
  if (!t->held.empty()) violation("lock-leak", "thread ended while holding locks" + locks_held_str(t->id));
  wake_all(t);
  tick();
  Thr* c = choose(P_SYNC, false);
  zombie = t;
  ++nswitch;
  mix(ilv_, c->id * 2654435761u + 17);
  futex_wake(c->go);
}

static char* stack_base = (char*)0x7e0000000000ull;
constexpr size_t STACK = 1 << 20;

static void* thread_main(void* v)
{
  ++rtdepth;
  Thr* t = (Thr*)v;
  self = t;
  stack_t ss{}; ss.ss_sp = t->alt; ss.ss_size = sizeof t->alt; sigaltstack(&ss, nullptr);
  real_setspecific(exit_key, t);
  futex_wait(t->go);
  reap();
  --rtdepth;
  t->fn();
  // The destructors of its thread_local objects.
  while (!t->tls.empty()) { auto d = t->tls.back(); t->tls.pop_back(); d.first(d.second); }
  end_keys();
  return nullptr;
}

int spawn(std::function<void()> fn)
{
  InRt g;
  if (nthr == MAXT) harness_error("too many threads");
  Thr* t = new Thr;
  t->id = nthr;
  t->fn = std::move(fn);
  t->vc = self->vc;
  t->vc.c[t->id] = 1;
  ++self->vc.c[self->id];
  t->st = READY;
  t->prio = u01(sched_rng) * 1000 + 1;
  char* s = stack_base + (size_t)t->id * (STACK + 65536);
  void* m = mmap(s, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (m != s) harness_error("stack mmap");
  t->slo = s; t->shi = s + STACK;
  thr[nthr++] = t;
  ++alive_extra;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, s, STACK);
  int e = pthread_create(&t->pt, &a, thread_main, t);
  if (e) harness_error("pthread_create: " + std::string(strerror(e)));
  note("spawn T%d", t->id);
  point(P_SYNC);
  return t->id;
}

static void vc_join(VC& a, VC const& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

void join(int id)
{
  InRt g;
  Thr* t = thr[id];
  point(P_SYNC);
  while (t->st != DONE) block(t, "join");
  vc_join(self->vc, t->vc);
}

// ---------------------------------------------------------------------------------------------------------------
// Locks

static int lane() { return self->id; }

struct Mtx { int owner = -1; int depth = 0; VC vc{}; bool watched = false; };
struct Rw { int writer = -1; int readers[MAXT] = {}; int nreaders = 0; int upgrader = -1; int wwait = 0; VC wvc{}, rvc{}; };
static std::unordered_map<void const*, Mtx>* mtx;
static std::unordered_map<void const*, Rw>* rws;
static std::unordered_map<void const*, VC>* hbs;

static void hold(void const* m, char k) { self->held.push_back({m, k}); }
static void unhold(void const* m, char k)
{
  auto& h = self->held;
  for (size_t i = h.size(); i-- > 0;) if (h[i].first == m && h[i].second == k) { h.erase(h.begin() + i); return; }
}

static bool nosim() { return !active || !self || ending; }

void watch_lock(void const* m, bool on) { InRt g; (*mtx)[m].watched = on; }
void set_lock_hook(lock_hook_t h) { lock_hook = h; }
void set_locking_hook(lock_hook_t h) { locking_hook = h; }
int mutex_owner(void const* m) { auto it = mtx->find(m); return it == mtx->end() ? -1 : it->second.owner; }

void mutex_lock(void const* m, bool recursive)
{
  if (nosim()) return;
  InRt g; int e = errno;
  if ((*mtx)[m].watched && locking_hook) locking_hook(m, 2);
  point(P_LOCK);
  for (;;)
  {
    Mtx& x = (*mtx)[m];
    if (x.owner == -1) { x.owner = lane(); x.depth = 1; vc_join(self->vc, x.vc); break; }
    if (x.owner == lane() && recursive) { ++x.depth; errno = e; return; }
    if (x.owner == lane())
      violation("self-deadlock", "thread locks a mutex that it already holds;" + locks_held_str(self->id));
    block(m, "mutex");
  }
  hold(m, 'M');
  mix(ilv_, 7777 + self->id);
  if ((*mtx)[m].watched && lock_hook) lock_hook(m, 0);
  errno = e;
}
static int failed_tries_[MAXT];
int failed_tries(int t) { return failed_tries_[t]; }
bool mutex_trylock(void const* m, bool recursive)
{
  if (nosim()) return true;
  InRt g; int e = errno;
  point(P_LOCK);
  Mtx& x = (*mtx)[m];
  if (x.owner == -1)
  {
    x.owner = lane(); x.depth = 1; vc_join(self->vc, x.vc); hold(m, 'M');
    if (x.watched && lock_hook) lock_hook(m, 0);
    errno = e;
    return true;
  }
  errno = e;
  if (x.owner == lane() && recursive) { ++x.depth; return true; }
  ++failed_tries_[self->id];
  return false;
}
void mutex_unlock(void const* m)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_UNLOCK);
  Mtx& x = (*mtx)[m];
  if (x.owner != lane())
    violation("bad-unlock", x.owner == -1 ? "unlock of a mutex that is not locked" : "unlock of a mutex owned by another thread");
  if (--x.depth > 0) { errno = e; return; }
  if (x.watched && lock_hook) lock_hook(m, 1);
  Mtx& y = (*mtx)[m];
  y.owner = -1;
  vc_join(y.vc, self->vc);
  ++self->vc.c[self->id];
  unhold(m, 'M');
  wake_all(m);
  point(P_SYNC);
  errno = e;
}

void rw_rdlock(void const* l)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_LOCK);
  for (;;)
  {
    Rw& x = (*rws)[l];
    if (x.writer == -1 && x.wwait == 0 && x.upgrader == -1) { ++x.readers[lane()]; ++x.nreaders; vc_join(self->vc, x.wvc); break; }
    if (x.writer == lane()) violation("self-deadlock", "read lock of a read/write lock that this thread has write locked");
    block(l, x.readers[lane()] ? "rwlock(read, nested in own read lock)" : "rwlock(read)");
  }
  hold(l, 'R');
  errno = e;
}
bool rw_try_rdlock(void const* l)
{
  if (nosim()) return true;
  InRt g;
  point(P_LOCK);
  Rw& x = (*rws)[l];
  if (x.writer != -1 || x.upgrader != -1 || x.wwait) return false;
  ++x.readers[lane()]; ++x.nreaders; vc_join(self->vc, x.wvc);
  hold(l, 'R');
  return true;
}
void rw_wrlock(void const* l)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_LOCK);
  bool waiting = false;
  for (;;)
  {
    Rw& x = (*rws)[l];
    if (x.writer == -1 && x.nreaders == 0) { x.writer = lane(); if (waiting) --x.wwait; vc_join(self->vc, x.wvc); vc_join(self->vc, x.rvc); break; }
    if (x.writer == lane()) violation("self-deadlock", "write lock of a read/write lock that this thread has write locked");
    if (x.readers[lane()]) violation("self-deadlock", "write lock of a read/write lock that this thread has read locked");
    if (!waiting) { waiting = true; ++x.wwait; }
    block(l, "rwlock(write)");
  }
  hold(l, 'W');
  errno = e;
}
bool rw_try_wrlock(void const* l)
{
  if (nosim()) return true;
  InRt g;
  point(P_LOCK);
  Rw& x = (*rws)[l];
  if (x.writer != -1 || x.nreaders) return false;
  x.writer = lane(); vc_join(self->vc, x.wvc); vc_join(self->vc, x.rvc);
  hold(l, 'W');
  return true;
}
void rw_rdunlock(void const* l)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_UNLOCK);
  Rw& x = (*rws)[l];
  if (!x.readers[lane()]) violation("bad-unlock", "read unlock without read lock");
  --x.readers[lane()]; --x.nreaders;
  vc_join(x.rvc, self->vc);
  ++self->vc.c[self->id];
  unhold(l, 'R');
  wake_all(l);
  point(P_SYNC);
  errno = e;
}
void rw_wrunlock(void const* l)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_UNLOCK);
  Rw& x = (*rws)[l];
  if (x.writer != lane()) violation("bad-unlock", "write unlock without write lock");
  x.writer = -1;
  vc_join(x.wvc, self->vc);
  ++self->vc.c[self->id];
  unhold(l, 'W');
  wake_all(l);
  point(P_SYNC);
  errno = e;
}
bool rw_upgrade(void const* l)
{
  if (nosim()) return true;
  InRt g; int e = errno;
  point(P_LOCK);
  {
    Rw& x = (*rws)[l];
    if (x.upgrader != -1) { errno = e; return false; }
    x.upgrader = lane();
  }
  for (;;)
  {
    Rw& x = (*rws)[l];
    if (x.nreaders == x.readers[lane()]) { x.writer = lane(); vc_join(self->vc, x.wvc); vc_join(self->vc, x.rvc); break; }
    block(l, "rwlock(upgrade)");
  }
  hold(l, 'W');
  errno = e;
  return true;
}
bool rw_upgrading(void const* l) { if (nosim()) return false; InRt g; return (*rws)[l].upgrader != -1; }
// A write access object that was made from a read access object is gone: back to the read lock.
void rw_downgrade(void const* l)
{
  if (nosim()) return;
  InRt g; int e = errno;
  point(P_UNLOCK);
  Rw& x = (*rws)[l];
  x.writer = -1; x.upgrader = -1;
  vc_join(x.wvc, self->vc);
  ++self->vc.c[self->id];
  unhold(l, 'W');
  wake_all(l);
  point(P_SYNC);
  errno = e;
}
void rw_wait_not_upgrading(void const* l)
{
  if (nosim()) return;
  InRt g;
  point(P_SYNC);
  while ((*rws)[l].upgrader != -1) block(l, "rwlock(upgrade conflict)");
}
void rw_forget(void const* l) { if (!rws) return; InRt g; rws->erase(l); }

void hb_acquire(void const* a) { if (nosim()) return; InRt g; auto it = hbs->find(a); if (it != hbs->end()) vc_join(self->vc, it->second); }
void hb_release(void const* a) { if (nosim()) return; InRt g; vc_join((*hbs)[a], self->vc); ++self->vc.c[self->id]; }

// ---------------------------------------------------------------------------------------------------------------
// Allocator

struct Hdr { size_t n; size_t cap; uint64_t seq; void* pc; Hdr *prev, *next; int16_t tid; int16_t live; int32_t magic; uint64_t pad; };
static_assert(sizeof(Hdr) == 64);
constexpr int MAGIC = 0x5afe1234;

static char* const CH_BASE = (char*)0x100000000000ull;   // checked arena
constexpr size_t CH_SIZE = 1ull << 31;
static char* const RT_BASE = (char*)0x110000000000ull;   // runtime arena
constexpr size_t RT_SIZE = 1ull << 34;
static uint8_t* const SHADOW = (uint8_t*)0x120000000000ull; // 1 byte per 8 bytes of the checked arena
static char *ch_ptr, *rt_ptr;
static bool mem_ready = false;
static std::atomic_flag mem_lock = ATOMIC_FLAG_INIT;
struct FreeNode { FreeNode* next; };
static FreeNode* rt_free_[48];
static FreeNode* ch_free_[64];  // by cap/16 for small ones
static Hdr* live_head;
static uint64_t alloc_seq_ = 1;
static size_t live_bytes_, live_blocks_;
static int reuse_mode = 1;      // before a simulation: reuse freely

static void mem_init()
{
  if (mem_ready) return;
  auto mm = [](void* p, size_t n) {
    void* r = (void*)syscall(SYS_mmap, p, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (r != p) __builtin_trap();
  };
  mm(CH_BASE, CH_SIZE); mm(RT_BASE, RT_SIZE); mm(SHADOW, CH_SIZE / 8);
  ch_ptr = CH_BASE; rt_ptr = RT_BASE;
  mem_ready = true;
}
static inline bool in_ch(void const* p) { return (char*)p >= CH_BASE && (char*)p < CH_BASE + CH_SIZE; }
static inline bool in_rt(void const* p) { return (char*)p >= RT_BASE && (char*)p < RT_BASE + RT_SIZE; }
struct MemGuard { MemGuard() { while (mem_lock.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); } ~MemGuard() { mem_lock.clear(std::memory_order_release); } };

static void unpoison(char* p, size_t n)
{
  uint8_t* s = SHADOW + (p - CH_BASE) / 8;
  size_t full = n / 8;
  for (size_t i = 0; i < full; ++i) s[i] = 8;
  if (n % 8) s[full] = n % 8;
}
static void poison(char* p, size_t cap) { uint8_t* s = SHADOW + (p - CH_BASE) / 8; for (size_t i = 0; i < (cap + 7) / 8; ++i) s[i] = 0xfd; }

static void cells_reset(char* p, size_t n);
static void cells_free_check(char* p, size_t n, void* pc);

static void* do_alloc(size_t n, size_t align, void* pc)
{
  if (!mem_ready) mem_init();
  if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
  if (align < 16) align = 16;
  if (rtdepth > 0)
  {
    MemGuard g;
    size_t need = (n ? n : 1) + 16;
    int cl = 64 - __builtin_clzll((need - 1) | 31);
    if (align == 16 && rt_free_[cl]) { FreeNode* f = rt_free_[cl]; rt_free_[cl] = f->next; ((size_t*)f)[0] = n; ((size_t*)f)[1] = cl; return (char*)f + 16; }
    char* p = rt_ptr;
    if (align > 16) { p = (char*)(((uintptr_t)p + 16 + align - 1) / align * align) - 16; }
    rt_ptr = p + (1ull << cl);
    if (rt_ptr > RT_BASE + RT_SIZE) __builtin_trap();
    ((size_t*)p)[0] = n; ((size_t*)p)[1] = align == 16 ? cl : 47;
    return p + 16;
  }
  MemGuard g;
  size_t cap = (n + 15) / 16 * 16;
  if (cap == 0) cap = 16;
  char* p = nullptr;
  size_t cls = cap / 16;
  if (reuse_mode && align == 16 && cls < 64 && ch_free_[cls]) { FreeNode* f = ch_free_[cls]; ch_free_[cls] = f->next; p = (char*)f; }
  else
  {
    char* q = ch_ptr + sizeof(Hdr);
    q = (char*)(((uintptr_t)q + align - 1) / align * align);
    p = q;
    ch_ptr = p + cap + 32;
    if (ch_ptr > CH_BASE + CH_SIZE) __builtin_trap();
  }
  Hdr* h = (Hdr*)p - 1;
  h->n = n; h->cap = cap; h->seq = alloc_seq_++; h->pc = pc; h->tid = self ? self->id : -1; h->live = 1; h->magic = MAGIC;
  h->prev = nullptr; h->next = live_head; if (live_head) live_head->prev = h; live_head = h;
  live_bytes_ += n; ++live_blocks_;
  unpoison(p, n);
  if (active) { cells_reset(p, cap); __builtin_memset(p, 0xbe, n); }
  return p;
}

static void do_free(void* v, void* pc)
{
  if (!v) return;
  if (in_rt(v))
  {
    MemGuard g;
    size_t* h = (size_t*)v - 2;
    size_t cl = h[1];
    if (cl == 47) return;
    FreeNode* f = (FreeNode*)h; f->next = rt_free_[cl]; rt_free_[cl] = f;
    return;
  }
  if (!in_ch(v)) return;   // from before we took over (ld.so)
  Hdr* h = (Hdr*)v - 1;
  if (((uintptr_t)v & 15) || h->magic != MAGIC)
  {
    if (active) violation("bad-free", "free of a pointer that was not allocated; called from " + symbolize(pc));
    return;
  }
  if (!h->live)
  {
    if (active) violation("double-free", "memory freed twice; now from " + symbolize(pc) + ", allocated by " + symbolize(h->pc));
    return;
  }
  if (active && in_sim()) cells_free_check((char*)v, h->n, pc);
  MemGuard g;
  h->live = 0;
  if (h->prev) h->prev->next = h->next; else live_head = h->next;
  if (h->next) h->next->prev = h->prev;
  live_bytes_ -= h->n; --live_blocks_;
  poison((char*)v, h->cap);
  h->pc = pc;
  size_t cls = h->cap / 16;
  if (reuse_mode && cls < 64) { FreeNode* f = (FreeNode*)v; f->next = ch_free_[cls]; ch_free_[cls] = f; }
  else if (active) __builtin_memset(v, 0xdd, h->cap < 4096 ? h->cap : 4096);
}

static size_t alloc_size(void* v) { if (in_rt(v)) return ((size_t*)v)[-2]; return ((Hdr*)v - 1)->n; }

size_t live_bytes() { return live_bytes_; }
size_t live_blocks() { return live_blocks_; }
uint64_t alloc_seq() { return alloc_seq_; }
std::vector<LiveBlock> live_since(uint64_t seq)
{
  InRt g;
  std::vector<LiveBlock> r;
  for (Hdr* h = live_head; h; h = h->next) if (h->seq >= seq) r.push_back({h + 1, h->n, h->pc, h->seq, h->tid});
  return r;
}

// Blocks allocated since `seq' that nothing refers to any more; to be called by the first thread when it is the only one left.
__attribute__((noinline)) std::vector<LiveBlock> unreachable_since(uint64_t seq, std::vector<std::pair<void const*, size_t>> const& more)
{
  InRt g;
  std::vector<LiveBlock> r;
  std::vector<Hdr*> all, todo;
  bool any = false;
  for (Hdr* h = live_head; h; h = h->next) { all.push_back(h); any |= h->seq >= seq; }
  if (!any) return r;
  std::sort(all.begin(), all.end());
  std::vector<char> seen(all.size());
  auto mark = [&](void const* v) {
    if (!in_ch(v)) return;
    auto i = std::upper_bound(all.begin(), all.end(), (Hdr*)v);
    if (i == all.begin()) return;
    --i;
    if ((char*)v < (char*)(*i + 1) || (char*)v > (char*)(*i + 1) + (*i)->n || seen[i - all.begin()]) return;
    seen[i - all.begin()] = 1;
    todo.push_back(*i);
  };
  auto scan = [&](void const* lo, size_t n) {
    char const* p = (char const*)(((uintptr_t)lo + 7) & ~7ull);
    for (; p + 8 <= (char const*)lo + n; p += 8) { void* v; __builtin_memcpy(&v, p, 8); mark(v); }
  };
  struct Seg { char* p; size_t n; };
  std::vector<Seg> segs;
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* d) {
    auto& segs = *(std::vector<Seg>*)d;
    bool exe = !i->dlpi_name || !*i->dlpi_name;
    for (int p = 0; p < i->dlpi_phnum; ++p)
    {
      auto& ph = i->dlpi_phdr[p];
      // The simulator knows of every block: what it has in its own global objects does not count.
      if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W) && !exe) segs.push_back({(char*)i->dlpi_addr + ph.p_vaddr, ph.p_memsz});
      if (ph.p_type == PT_TLS && i->dlpi_tls_data) segs.push_back({(char*)i->dlpi_tls_data, ph.p_memsz});
    }
    return 0;
  }, &segs);
  for (Seg& s : segs) scan(s.p, s.n);
  for (auto& m : more) scan(m.first, m.second);
  char* sp = (char*)__builtin_frame_address(0);
  scan(sp, self->shi - sp);
  for (size_t i = 0; i < all.size(); ++i) if (all[i]->seq < seq && !seen[i]) { seen[i] = 1; todo.push_back(all[i]); }
  while (!todo.empty()) { Hdr* h = todo.back(); todo.pop_back(); scan(h + 1, h->n); }
  for (size_t i = 0; i < all.size(); ++i) if (!seen[i] && all[i]->seq >= seq) r.push_back({all[i] + 1, all[i]->n, all[i]->pc, all[i]->seq, all[i]->tid});
  return r;
}
void check_leaks(uint64_t seq, bool (*skip)(LiveBlock const&), std::vector<std::pair<void const*, size_t>> const& more)
{
  if (alive_extra) return;   // What threads that still run refer to is not known.
  auto l = unreachable_since(seq, more);
  size_t n = 0, bytes = 0;
  std::string what;
  for (auto& b : l)
  {
    if (skip && skip(b)) continue;
    if (getenv("LEAKDBG")) fprintf(stderr, "lost %zu bytes by T%d at %s\n", b.n, b.tid, symbolize(b.pc).c_str());
    ++n; bytes += b.n; what = "allocated by T" + std::to_string(b.tid) + " at " + symbolize(b.pc);
  }
  if (n && !getenv("LEAKDBG")) violation("leak", std::to_string(n) + " blocks of " + std::to_string(bytes) + " bytes are lost: nothing refers to them any more, for example one " + what);
}
// Something that doubles its capacity now and then is seen when there are many repetitions.
void check_growth(std::vector<size_t> const& blocks, std::vector<size_t> const& bytes)
{
  size_t n = blocks.size();
  if (n < 8) return;
  bool grows = true;
  for (size_t i = n - 4; i < n; ++i) grows = grows && blocks[i] > blocks[i - 1];
  if (!grows && n >= 160)
  {
    grows = true;
    for (size_t i = n / 8; i * 2 <= n; i *= 2) grows = grows && bytes[i * 2 - 1] > bytes[i - 1];
  }
  if (grows) violation("growth", "memory use grows each time that the same actions are repeated: " + std::to_string(bytes[0]) + " bytes in " + std::to_string(blocks[0]) + " blocks after the first time, "
                                 + std::to_string(bytes[n - 1]) + " bytes in " + std::to_string(blocks[n - 1]) + " blocks after " + std::to_string(n) + " times");
}
bool alone() { return !alive_extra; }
bool is_live(void const* p) { return in_ch(p) && SHADOW[((char*)p - CH_BASE) / 8] != 0 && SHADOW[((char*)p - CH_BASE) / 8] != 0xfd; }

std::string (*symbol_hook)(uintptr_t offset);

// The location is only meant for humans: "function (sut+0xoffset)".
std::string symbolize(void* pc)
{
  char b[64];
  if ((uintptr_t)pc >= sut_lo && (uintptr_t)pc < sut_hi)
  {
    snprintf(b, sizeof b, "sut+0x%lx", (unsigned long)((uintptr_t)pc - sut_lo - 1));
    if (symbol_hook) return symbol_hook((uintptr_t)pc - sut_lo - 1) + " (" + b + ")";
  }
  else
  {
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname) snprintf(b, sizeof b, "%.60s", di.dli_sname);
    else snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
  }
  return b;
}

// Only the function, which survives a rebuild.
static std::string symbol_of(void* pc)
{
  std::string s = symbolize(pc);
  size_t i = s.find(" (sut+");
  return i == std::string::npos ? s : s.substr(0, i);
}

// ---------------------------------------------------------------------------------------------------------------
// Race detector

struct Cell
{
  uintptr_t addr;
  int32_t lasttid;        // last thread to touch, -2 several
  struct W { uint32_t clk; uint8_t tid, mask; void* pc; } w[2];
  struct R { uint32_t clk; uint8_t mask; void* pc; } r[MAXT];
};
constexpr int CELL_MAX = 1 << 17;
constexpr int IDX_BITS = 19;
static Cell* cells;
static uint32_t* cell_idx;
static int ncells;

static Cell* cell(uintptr_t a, bool create)
{
  uint64_t h = (a >> 3) * 0x9e3779b97f4a7c15ull >> (64 - IDX_BITS);
  for (;;)
  {
    uint32_t i = cell_idx[h];
    if (i == 0)
    {
      if (!create || ncells >= CELL_MAX - 1) return nullptr;
      Cell* c = &cells[++ncells];
      c->addr = a; c->lasttid = -1;
      cell_idx[h] = ncells;
      return c;
    }
    if (cells[i].addr == a) return &cells[i];
    h = (h + 1) & ((1u << IDX_BITS) - 1);
  }
}
static void cells_reset(char* p, size_t n)
{
  if (!ncells) return;
  for (size_t i = 0; i < n; i += 8)
    if (Cell* c = cell((uintptr_t)p + i, false)) { __builtin_memset((char*)c + sizeof(uintptr_t), 0, sizeof(Cell) - sizeof(uintptr_t)); c->lasttid = -1; }
}

[[noreturn]] static void report_race(char const* what, uintptr_t a, void* pc1, void* pc2, int t2)
{
  char b[400];
  std::string s1 = symbolize(pc1), s2 = symbolize(pc2);
  snprintf(b, sizeof b, "%s: T%d at %s conflicts with T%d at %s, no happens-before between them", what, self->id, s1.c_str(), t2, s2.c_str());
  (void)a;
  s1 = symbol_of(pc1), s2 = symbol_of(pc2);
  std::string x = s1 < s2 ? s1 + "," + s2 : s2 + "," + s1;
  violation("race@" + x, b);
}

static bool on_stack(uintptr_t a)
{
  for (int i = 0; i < nthr; ++i) if (a >= (uintptr_t)thr[i]->slo && a < (uintptr_t)thr[i]->shi) return true;
  return false;
}

static void access_cells(uintptr_t a, size_t n, bool write, void* pc)
{
  if (alive_extra == 0 || !races_) return;
  int me = self->id;
  uint32_t myclk = self->vc.c[me];
  uintptr_t end = a + n;
  for (uintptr_t g = a & ~7ull; g < end; g += 8)
  {
    uint8_t mask = 0xff;
    if (g < a) mask &= 0xff << (a - g);
    if (g + 8 > end) mask &= 0xff >> (g + 8 - end);
    Cell* c = cell(g, true);
    if (!c) return;
    for (int i = 0; i < 2; ++i)
      if (c->w[i].mask & mask && c->w[i].tid != me && c->w[i].clk > self->vc.c[c->w[i].tid])
        report_race(write ? "write-write race" : "read-write race", g, pc, c->w[i].pc, c->w[i].tid);
    if (write)
    {
      for (int t = 0; t < nthr; ++t)
        if (t != me && (c->r[t].mask & mask) && c->r[t].clk > self->vc.c[t]) report_race("write-read race", g, pc, c->r[t].pc, t);
      int slot = 0;
      if (c->w[0].mask && (c->w[0].tid != me || (c->w[0].mask & ~mask))) slot = (c->w[0].mask & ~mask) ? 1 : 0;
      c->w[slot] = {myclk, (uint8_t)me, mask, pc};
    }
    else
    {
      if (c->r[me].clk == myclk) c->r[me].mask |= mask; else c->r[me].mask = mask;
      c->r[me].clk = myclk; c->r[me].pc = pc;
    }
    if (c->lasttid == -1) c->lasttid = me; else if (c->lasttid != me) c->lasttid = -2;
  }
}
static void cells_free_check(char* p, size_t n, void* pc)
{
  if (n > 4096) n = 4096;
  if (n) access_cells((uintptr_t)p, n, true, pc);
}

static void check_live(uintptr_t a, size_t n, bool write, void* pc)
{
  if (a < (uintptr_t)CH_BASE || a >= (uintptr_t)CH_BASE + CH_SIZE || n == 0) return;
  uintptr_t g = a & ~7ull;
  uint8_t* s = SHADOW + (g - (uintptr_t)CH_BASE) / 8;
  for (; g < a + n; g += 8, ++s)
  {
    size_t need = std::min<size_t>(8, a + n - g);
    if (*s == 8 || (*s < 8 && *s >= need)) continue;
    bool freed = *s == 0xfd;
    char b[256];
    snprintf(b, sizeof b, "%s of %zu bytes in %s memory at %s by T%d", write ? "write" : "read", n, freed ? "freed" : "unallocated", symbolize(pc).c_str(), self->id);
    violation(std::string(freed ? "use-after-free@" : "out-of-bounds@") + symbol_of(pc), b);
  }
}

static inline bool skip_addr(uintptr_t a) { return a >= 0x7e0000000000ull && on_stack(a); }

void check_range(void const* p, size_t n, bool write, void* pc)
{
  if (!active || !self || ending || !n) return;
  uintptr_t a = (uintptr_t)p;
  if (skip_addr(a) || in_rt(p)) return;
  InRt g;
  check_live(a, n, write, pc);
  access_cells(a, n, write, pc);
}

void access_key(uintptr_t key, size_t n, bool write, void* pc)
{
  if (!active || !self || ending) return;
  InRt g;
  access_cells(key, n, write, pc);
}

static inline void mem_access(void const* p, size_t n, bool write, void* pc)
{
  if (!active || !self || rtdepth || ending) return;
  uintptr_t a = (uintptr_t)p;
  if (skip_addr(a) || in_rt(p)) return;
  PointKind k = P_MEM;
  if (alive_extra)
  {
    Cell* c = cell(a & ~7ull, false);
    if (c && (c->lasttid == -2 || (c->lasttid >= 0 && c->lasttid != self->id))) k = P_SHARED;
    point(k);
  }
  InRt g;
  check_live(a, n, write, pc);
  access_cells(a, n, write, pc);
}

static void sys_init();

void init_process()
{
  ++rtdepth;
  mem_init();
  mtx = new std::unordered_map<void const*, Mtx>;
  rws = new std::unordered_map<void const*, Rw>;
  hbs = new std::unordered_map<void const*, VC>;
  cells = (Cell*)mmap(nullptr, sizeof(Cell) * (size_t)CELL_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  cell_idx = (uint32_t*)mmap(nullptr, 4ull << IDX_BITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  real_setspecific = (int (*)(pthread_key_t, void const*))dlsym(RTLD_NEXT, "pthread_setspecific");
  ((int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create"))(&exit_key, thread_exit_dtor);
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++"))
      for (int p = 0; p < i->dlpi_phnum; ++p)
        if (i->dlpi_phdr[p].p_type == PT_LOAD)
        {
          uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[p].p_vaddr, hi = lo + i->dlpi_phdr[p].p_memsz;
          if (!cxx_lo) cxx_lo = lo;
          cxx_hi = hi;
        }
    return 0;
  }, nullptr);
  sys_init();
  --rtdepth;
}

static void on_signal(int sig, siginfo_t* si, void* uc)
{
  ++rtdepth;
  void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  static volatile int again = 0;
  again = again + 1; if (again > 1) die();
  char b[200];
  mem_lock.clear();
  if (sig == SIGPROF)
  {
    again = 0;
    static uint64_t last = ~0ull; static int same = 0;
    if (npoints == last) { if (++same >= 3) { snprintf(b, sizeof b, "no progress at %s in T%d", symbolize(pc).c_str(), self ? self->id : -1); violation("hang", b); } }
    else { last = npoints; same = 0; }
    --rtdepth;
    return;
  }
  snprintf(b, sizeof b, "signal %d (%s) address %p at %s in T%d", sig, strsignal(sig), si->si_addr, symbolize(pc).c_str(), self ? self->id : -1);
  violation("crash@" + symbol_of(pc), b);
}

void begin(Params const& p)
{
  ++rtdepth;
  P = p;
  uint64_t s = p.seed * 0x2545F4914F6CDD1Dull + 0x1234567;
  sched_rng = splitmix(s); aux_rng = splitmix(s);
  reuse_mode = p.reuse;
  if (!p.reuse) __builtin_memset(ch_free_, 0, sizeof ch_free_);
  mtx->clear(); rws->clear(); hbs->clear();
  Thr* t = new Thr;
  t->id = 0; t->st = READY; t->vc.c[0] = 1; t->pt = pthread_self();
  t->prio = u01(sched_rng) * 1000 + 1;
  pthread_attr_t a; void* sp; size_t sz;
  pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &sp, &sz); pthread_attr_destroy(&a);
  t->slo = (char*)sp; t->shi = (char*)sp + sz;
  // the main stack can grow
  t->slo = t->shi - (64 << 20);
  thr[0] = t; nthr = 1; self = t;
  if (p.strategy == 4)
  {
    for (int i = 0; i < p.depth; ++i) pct_points.push_back(1 + splitmix(sched_rng) % std::max<uint64_t>(p.horizon, 1));
    std::sort(pct_points.begin(), pct_points.end(), std::greater<>());
  }
  struct sigaction sa{};
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(sg, &sa, nullptr);
  sa.sa_flags |= SA_RESTART;
  sigaction(SIGPROF, &sa, nullptr);
  stack_t ss{}; ss.ss_sp = t->alt; ss.ss_size = sizeof t->alt; sigaltstack(&ss, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
  active = true;
  --rtdepth;
}

static void sys_init() { }

} // namespace rt

// ---------------------------------------------------------------------------------------------------------------
// Exported: tsan runtime

using namespace rt;
#define PC __builtin_return_address(0)
extern "C" {

// The real function takes the lock of the dynamic linker, that is held while the program is loaded (by dlopen, here)
// and its global objects are constructed: a real program does not hold it then.
int __cxa_thread_atexit(void (*f)(void*), void* obj, void* dso)
{
  if (in_sim()) { InRt g; self->tls.push_back({f, obj}); return 0; }
  static int (*real)(void (*)(void*), void*, void*);
  if (!real) real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
  return real(f, obj, dso);
}
void __tsan_init() { }
void __sanitizer_cov_trace_pc() { size_t o = (uintptr_t)PC - sut_lo; if (cov_map && o < cov_size) cov_map[o] = 1; }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) \
  void __tsan_read##n(void* a) { mem_access(a, n, false, PC); } \
  void __tsan_write##n(void* a) { mem_access(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { mem_access(a, n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { mem_access(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { mem_access(a, n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { mem_access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (*a != v) mem_access(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { mem_access(a, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { mem_access(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { mem_access(a, n, true, PC); }
void __tsan_atomic_thread_fence(int) { if (in_sim()) point(P_ATOMIC); }
void __tsan_atomic_signal_fence(int) { }

static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(void const* a, size_t n, bool w, void* pc)
{
  if (!in_sim()) return;
  point(P_ATOMIC);
  InRt g;
  if (!skip_addr((uintptr_t)a)) check_live((uintptr_t)a, n, w, pc);
}
static void at_store(void const* a, int mo)
{
  if (!in_sim()) return;
  InRt g;
  if (rel(mo)) { (*hbs)[a] = VC{}; hb_release(a); } else hbs->erase(a);
}
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(T const volatile* a, int mo) { at_pre((void*)a, sizeof(T), false, PC); if (in_sim() && acq(mo)) hb_acquire((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); at_store((void*)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int mo) { at_pre((void*)a, sizeof(T), true, PC); if (in_sim()) { if (acq(mo)) hb_acquire((void*)a); if (rel(mo)) hb_release((void*)a); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo) \
  { at_pre((void*)a, sizeof(T), true, PC); int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (in_sim()) { if (acq(ok ? mo : fmo)) hb_acquire((void*)a); if (ok && rel(mo)) hb_release((void*)a); } return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo) \
  { at_pre((void*)a, sizeof(T), true, PC); int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (in_sim()) { if (acq(ok ? mo : fmo)) hb_acquire((void*)a); if (ok && rel(mo)) hb_release((void*)a); } return ok; } \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo) \
  { at_pre((void*)a, sizeof(T), true, PC); int ok = __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (in_sim()) { if (acq(ok ? mo : fmo)) hb_acquire((void*)a); if (ok && rel(mo)) hb_release((void*)a); } return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// -------------------------------------------------------------------------------------------------------------
// Exported: allocation

static void alloc_point() { if (in_sim() && alive_extra) point(P_ALLOC); }
void* malloc(size_t n)
{
  alloc_point();
  return do_alloc(n, 16, PC);
}
void free(void* p)
{
  if (!p) return;
  alloc_point();
  int e = errno;
  do_free(p, PC);
  errno = e;
}
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  alloc_point();
  void* p = do_alloc(n, 16, PC);
  if (p) __builtin_memset(p, 0, n);
  return p;
}
void* realloc(void* o, size_t n)
{
  alloc_point();
  if (!o) return do_alloc(n, 16, PC);
  if (!in_ch(o) && !in_rt(o)) { void* q = do_alloc(n, 16, PC); __builtin_memcpy(q, o, n); return q; }
  void* p = do_alloc(n, 16, PC);
  if (!p) return p;
  size_t m = alloc_size(o);
  __builtin_memcpy(p, o, m < n ? m : n);
  do_free(o, PC);
  return p;
}
void* aligned_alloc(size_t al, size_t n) { alloc_point(); return do_alloc(n, al, PC); }
void* memalign(size_t al, size_t n) { alloc_point(); return do_alloc(n, al, PC); }
int posix_memalign(void** r, size_t al, size_t n) { alloc_point(); *r = do_alloc(n, al, PC); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? alloc_size(p) : 0; }

// -------------------------------------------------------------------------------------------------------------
// Exported: memory block functions (so that accesses made by libstdc++ and by built-ins are seen too)

static inline bool observed(void* pc)
{
  if (!in_sim()) return false;
  uintptr_t a = (uintptr_t)pc;
  return (a >= sut_lo && a < sut_hi) || (a >= cxx_lo && a < cxx_hi);
}
static inline void copy_fwd(void* d, void const* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, void const* s, size_t n)
{
  if (n && observed(PC)) { mem_access(s, n, false, PC); mem_access(d, n, true, PC); }
  copy_fwd(d, s, n);
  return d;
}
void* memmove(void* d, void const* s, size_t n)
{
  if (n && observed(PC)) { mem_access(s, n, false, PC); mem_access(d, n, true, PC); }
  if ((uintptr_t)d - (uintptr_t)s >= n) copy_fwd(d, s, n);
  else
  {
    char* dd = (char*)d + n - 1; char const* ss = (char const*)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return d;
}
void* memset(void* d, int c, size_t n)
{
  if (n && observed(PC)) mem_access(d, n, true, PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
size_t strlen(char const* s)
{
  size_t n = 0;
  while (s[n]) ++n;
  if (observed(PC)) mem_access(s, n + 1, false, PC);
  return n;
}
char* strncpy(char* d, char const* s, size_t n)
{
  size_t l = 0;
  while (l < n && s[l]) ++l;
  if (observed(PC)) { mem_access(s, l < n ? l + 1 : l, false, PC); mem_access(d, n, true, PC); }
  size_t i = 0;
  for (; i < l; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strcpy(char* d, char const* s)
{
  size_t l = 0;
  while (s[l]) ++l;
  if (observed(PC)) { mem_access(s, l + 1, false, PC); mem_access(d, l + 1, true, PC); }
  for (size_t i = 0; i <= l; ++i) d[i] = s[i];
  return d;
}

// -------------------------------------------------------------------------------------------------------------
// Exported: pthread synchronisation

int pthread_key_create(pthread_key_t* k, void (*dtor)(void*))
{
  for (int i = 0; i < KEYS; ++i) if (!keys[i].used) { keys[i] = {true, dtor}; *k = (pthread_key_t)(KEY0 + i); return 0; }
  return EAGAIN;
}
int pthread_key_delete(pthread_key_t k)
{
  if (k < KEY0 || k >= KEY0 + KEYS || !keys[k - KEY0].used) return EINVAL;
  keys[k - KEY0] = {};
  return 0;
}
int pthread_setspecific(pthread_key_t k, void const* v)
{
  if (k < KEY0 || k >= KEY0 + KEYS || !keys[k - KEY0].used) return EINVAL;
  key_value[k - KEY0] = (void*)v;
  return 0;
}
void* pthread_getspecific(pthread_key_t k) { return k < KEY0 || k >= KEY0 + KEYS ? nullptr : key_value[k - KEY0]; }
static bool rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a)
{
  int kind = 0;
  if (a) pthread_mutexattr_gettype(a, &kind);
  *m = pthread_mutex_t{};
  m->__data.__kind = kind;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (in_sim() && mutex_owner(m) != -1) violation("destroy-locked", "a locked mutex is destroyed");
  if (in_sim()) { InRt g; mtx->erase(m); }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { if (in_sim()) { mem_access(m, 8, false, PC); hb_acquire(nullptr); mutex_lock(m, rec(m)); } return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!in_sim()) return 0; mem_access(m, 8, false, PC); return mutex_trylock(m, rec(m)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (in_sim()) { mem_access(m, 8, false, PC); mutex_unlock(m); } return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const*) { if (!in_sim()) return 0; mutex_lock(m, rec(m)); return 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, timespec const*) { if (!in_sim()) return 0; mutex_lock(m, rec(m)); return 0; }
int pthread_rwlock_init(pthread_rwlock_t* l, pthread_rwlockattr_t const*) { *l = pthread_rwlock_t{}; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (in_sim()) rw_forget(l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (in_sim()) rw_rdlock(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!in_sim()) return 0; return rw_try_rdlock(l) ? 0 : EBUSY; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (in_sim()) rw_wrlock(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!in_sim()) return 0; return rw_try_wrlock(l) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if (!in_sim()) return 0;
  bool w; { InRt g; w = (*rws)[l].writer == self->id; }
  if (w) rw_wrunlock(l); else rw_rdunlock(l);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { if (in_sim()) mutex_lock((void*)l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* l) { if (!in_sim()) return 0; return mutex_trylock((void*)l) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (in_sim()) mutex_unlock((void*)l); return 0; }

int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) { *c = pthread_cond_t{}; return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until)
{
  InRt g;
  note("cond wait");
  // Register as waiter before releasing the mutex.
  Thr* me = self;
  bool timed = until != ~0ull;
  mutex_unlock(m);
  // Spurious wake-ups are allowed by the standard: waiting only as long as nothing happened is enough here.
  if (timed) { self->st = SLEEP; self->wake = until; self->parked = false; self->wobj = c; }
  else { self->st = BLOCKED; self->wobj = c; self->wwhat = "condition variable"; }
  tick(); ++nsync;
  Thr* n = choose(P_LOCK, false);
  if (n != me) switch_to(n);
  bool to = timed && now_ >= until;
  self->wobj = nullptr;
  mutex_lock(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!in_sim()) return 0; return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { if (!in_sim()) return ETIMEDOUT; return cond_wait(c, m, (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* t) { if (!in_sim()) return ETIMEDOUT; return cond_wait(c, m, (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec); }
static void cond_wake(pthread_cond_t* c, bool all)
{
  if (!in_sim()) return;
  InRt g;
  point(P_SYNC);
  for (int i = 0; i < nthr; ++i)
    if (thr[i]->wobj == c && (thr[i]->st == BLOCKED || thr[i]->st == SLEEP)) { thr[i]->st = READY; thr[i]->wobj = nullptr; if (!all) break; }
}
int pthread_cond_signal(pthread_cond_t* c) { cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { cond_wake(c, true); return 0; }

// once: 0 never, 1 busy, 2 done
int pthread_once(pthread_once_t* o, void (*fn)())
{
  if (!in_sim()) { if (*o == 2) return 0; *o = 2; fn(); return 0; }
  point(P_ATOMIC);
  for (;;)
  {
    if (*o == 2) { hb_acquire(o); return 0; }
    if (*o == 0) break;
    InRt g;
    block(o, "once");
  }
  *o = 1;
  struct Reset { pthread_once_t* o; bool done = false; ~Reset() { InRt g; *o = done ? 2 : 0; hb_release(o); wake_all(o); } } r{o};
  fn();
  r.done = true;
  return 0;
}
int __cxa_guard_acquire(uint64_t* gd)
{
  uint8_t volatile* b = (uint8_t volatile*)gd;
  if (!in_sim()) return b[0] ? 0 : 1;
  point(P_ATOMIC);
  for (;;)
  {
    if (b[0]) { hb_acquire(gd); return 0; }
    if (!b[1]) break;
    if (b[2] == self->id + 1) violation("recursive-static-init", "recursive initialisation of a function static");
    InRt g;
    block(gd, "static initialisation guard");
  }
  b[1] = 1; b[2] = self->id + 1;
  return 1;
}
void __cxa_guard_release(uint64_t* gd)
{
  uint8_t volatile* b = (uint8_t volatile*)gd;
  b[0] = 1; b[1] = 0;
  if (in_sim()) { hb_release(gd); InRt g; wake_all(gd); }
}
void __cxa_guard_abort(uint64_t* gd)
{
  uint8_t volatile* b = (uint8_t volatile*)gd;
  b[1] = 0;
  if (in_sim()) { InRt g; wake_all(gd); }
}

// -------------------------------------------------------------------------------------------------------------
// Exported: time

static int do_sleep(timespec const* t, timespec* rem)
{
  uint64_t d = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
  if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
  long f = fault(F_EINTR_SLEEP);
  if (f >= 0)
  {
    uint64_t part = d * (uint64_t)(f % 100) / 100;
    sleep_ns(part);
    if (rem) { uint64_t r = d - part; rem->tv_sec = r / 1000000000ull; rem->tv_nsec = r % 1000000000ull; }
    errno = EINTR;
    return -1;
  }
  sleep_ns(d);
  return 0;
}
int nanosleep(timespec const* t, timespec* rem)
{
  if (!in_sim()) return (int)syscall(SYS_nanosleep, t, rem);
  return do_sleep(t, rem);
}
int clock_nanosleep(clockid_t c, int flags, timespec const* t, timespec* rem)
{
  if (!in_sim()) return (int)syscall(SYS_clock_nanosleep, c, flags, t, rem);
  if (flags & TIMER_ABSTIME)
  {
    uint64_t u = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    sleep_until(u, u > now_ + 3600ull * 1000000000ull);
    return 0;
  }
  return do_sleep(t, rem) ? EINTR : 0;
}
int usleep(useconds_t u) { timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int sched_yield() { if (in_sim()) point(P_SYNC); return 0; }
int clock_gettime(clockid_t c, timespec* t)
{
  if (!in_sim()) return (int)syscall(SYS_clock_gettime, c, t);
  uint64_t v = now_ + 1700000000ull * 1000000000ull;
  t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(timeval* tv, void* tz)
{
  if (!in_sim()) return (int)syscall(SYS_gettimeofday, tv, tz);
  uint64_t v = now_ + 1700000000ull * 1000000000ull;
  tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000;
  return 0;
}

// -------------------------------------------------------------------------------------------------------------
// Exported: termination

static void terminated(char const* kind, int code)
{
  ++rtdepth;
  note("terminate %s %d", kind, code);
  if (!ending && term_handler) term_handler(kind, code);   // may park this thread for ever
  ending = true;
  violation(std::string("terminated:") + kind, std::string("unexpected ") + kind + " in T" + std::to_string(self ? self->id : -1));
}
__attribute__((noreturn)) void abort() { if (active && self) { if (rtdepth == 0) point(P_SYNC); terminated("abort", 0); } signal(SIGABRT, SIG_DFL); syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), SIGABRT); syscall(SYS_exit_group, 134); __builtin_trap(); }
__attribute__((noreturn)) void _Exit(int c) { if (in_sim()) { point(P_SYNC); terminated("_Exit", c); } syscall(SYS_exit_group, c); __builtin_trap(); }
__attribute__((noreturn)) void _exit(int c) { if (in_sim()) { point(P_SYNC); terminated("_exit", c); } syscall(SYS_exit_group, c); __builtin_trap(); }
int raise(int s) { if (in_sim()) { point(P_SYNC); terminated("raise", s); } return (int)syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), s); }
} // extern "C"

// So that an allocation is known by who asked for it and not by the C++ library.
void* operator new(size_t n) { alloc_point(); return do_alloc(n, 16, __builtin_return_address(0)); }
void* operator new[](size_t n) { alloc_point(); return do_alloc(n, 16, __builtin_return_address(0)); }
