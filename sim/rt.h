// Deterministic simulation runtime: scheduler, simulated synchronisation, virtual clock, race detector, allocator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
#include <pthread.h>

namespace rt {

constexpr int MAXT = 24;
constexpr int NPROBE = 96;
constexpr int MAXSCHED = 60000;

// Kinds of faults; keep in step with fault_names.
enum Fault {
  F_OPEN, F_READ, F_SHORT_READ, F_EINTR_READ, F_MMAP, F_DLOPEN_FAIL, F_DLCLOSE_FAIL, F_DLINFO_FAIL, F_READLINK,
  F_SINK_FAIL, F_SINK_THROW, F_SINK_STALL, F_SINK_ERRNO, F_LOCK_STALL, F_STDIN_EOF, F_STDIN_ERR, F_EINTR_SLEEP, F_TIMEJUMP,
  F_FORK_FAIL, F_WAITPID, F_SYSTEM, F_STAT, F_ACCESS, F_CRASH, F_ALLOC, F_TRYLOCK_BUSY, F_GETPW, F_GETENV_NONE, F_RLIMIT,
  F_ITEM_ERRNO, F_TRUNCATE, F_ADDR_REUSE, F_STALL, F_CHILD_DEATH, F_WRITE,
  F_DW_OPEN, F_DW_LOAD, F_DW_NAME, F_DW_SCOPES, F_DW_LOOK, F_COUNT
};
extern char const* const fault_names[F_COUNT];

struct SchedEntry { uint64_t pt; int32_t tid; };

struct Params {
  uint64_t seed = 1;
  int strategy = 1;          // 0 none 1 sync 2 mem 3 shared 4 pct 9 explicit
  double p = 0.1;
  int depth = 3;
  uint64_t horizon = 20000;  // estimate of the number of points (pct)
  int reuse = 0;             // allocator address reuse
  int slack = 0;             // 1: sleepers may always be chosen (everyone else is slow)
  int clock_jump = 0;        // virtual clock increments vary wildly
  uint64_t max_points = 6000000;
  int stall_tid = -1;        // a thread that gets no cpu between these points
  uint64_t stall_from = 0, stall_to = 0;
  std::vector<SchedEntry> sched; // explicit
  struct F { int kind; int nth; long val; };
  std::vector<F> faults;
};

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_HARNESS = 3 };

struct Result {
  volatile int status;
  char cls[128];
  char msg[6000];
  uint64_t hash;      // everything observable
  uint64_t ilv;       // interleaving signature
  uint64_t npoints, nswitch, nsync;
  uint64_t vtime_ns;
  uint32_t nfault[F_COUNT];
  uint32_t probe[NPROBE];
  int nsched;
  SchedEntry sched[MAXSCHED];
};

extern Result* res;      // shared with the parent
extern bool active;      // a simulation is running in this process
extern bool verbose;

// Setup / control (called from the forked child).
void begin(Params const& p);
int spawn(std::function<void()> fn);     // create a simulated thread; returns its id
void join(int tid);
[[noreturn]] void finish_ok();
[[noreturn]] void violation(std::string const& cls, std::string const& msg);
[[noreturn]] void harness_error(std::string const& msg);
void set_end_handler(std::function<void(char const* reason)> fn);  // deadlock/parked/livelock/...
void set_terminate_handler(std::function<void(char const* kind, int code)> fn);  // abort/_Exit/...

int tid();               // current simulated thread or -1
bool in_sim();           // simulated thread outside of runtime code
uint64_t now_ns();
uint64_t rnd();          // deterministic auxiliary random (not for scheduling)
void note(char const* fmt, ...) __attribute__((format(printf, 1, 2)));    // goes in hash and trace
void trace_only(char const* fmt, ...) __attribute__((format(printf, 1, 2))); // only trace
void probe(int n);
long fault(Fault k);     // value of the injected fault for this occurrence, or -1
bool fault_active(Fault k);
void count_fault(Fault k);
long faults_seen(Fault k);

enum PointKind { P_MEM, P_SHARED, P_ATOMIC, P_LOCK, P_UNLOCK, P_ALLOC, P_IO, P_SLEEP, P_SYNC, P_OP };
void point(PointKind k);
void sleep_until(uint64_t t_ns, bool parked);
void sleep_ns(uint64_t d);

// Simulated locks, keyed by address.
void mutex_lock(void const* m, bool recursive = false);
bool mutex_trylock(void const* m, bool recursive = false);
void mutex_unlock(void const* m);
int mutex_owner(void const* m);          // tid or -1
void rw_rdlock(void const* l);
bool rw_try_rdlock(void const* l);
void rw_wrlock(void const* l);
bool rw_try_wrlock(void const* l);
void rw_rdunlock(void const* l);
void rw_wrunlock(void const* l);
bool rw_upgrade(void const* l);          // false: another thread is upgrading (caller must release its read lock)
bool rw_upgrading(void const* l);
void rw_downgrade(void const* l);
void rw_forget(void const* l);
void rw_wait_not_upgrading(void const* l);
int locks_held(int tid);
int failed_tries(int tid);               // try_lock calls that failed
void const* innermost_mutex(int tid);
std::string locks_held_str(int tid);
void hb_acquire(void const* a);
void hb_release(void const* a);

// Lock observation (user supplied locks).
using lock_hook_t = void (*)(void const* m, int what); // 0 acquired 1 about to release
void watch_lock(void const* m, bool on);
void set_lock_hook(lock_hook_t h);
void set_locking_hook(lock_hook_t h);   // what: 2 about to lock

// Memory.
void check_range(void const* p, size_t n, bool write, void* pc = nullptr);
void access_key(uintptr_t key, size_t n, bool write, void* pc);   // for race detection of anything
size_t live_bytes();
size_t live_blocks();
struct LiveBlock { void* p; size_t n; void* pc; uint64_t seq; int tid; };
std::vector<LiveBlock> live_since(uint64_t seq);
// Blocks allocated since `seq' that no global, thread-local, stack or reachable memory (nor `more') refers to.
std::vector<LiveBlock> unreachable_since(uint64_t seq, std::vector<std::pair<void const*, size_t>> const& more = {});
void check_leaks(uint64_t seq, bool (*skip)(LiveBlock const&) = nullptr, std::vector<std::pair<void const*, size_t>> const& more = {});
bool alone();   // no other simulated thread is left
void check_growth(std::vector<size_t> const& blocks, std::vector<size_t> const& bytes);   // after each repetition of the same actions
uint64_t alloc_seq();
bool is_live(void const* p);
std::string symbolize(void* pc);

struct InRt { InRt(); ~InRt(); };
struct OutRt { int saved; OutRt(); ~OutRt(); };

void init_process();     // once, in the exe
void set_coverage(unsigned char* map, size_t n);   // one byte per byte of code of libcwd; see tools/coverage.py
void set_sut_range(uintptr_t lo, uintptr_t hi);
bool races_on();
void set_races(bool on);
extern uint64_t op_counter;
extern std::string (*symbol_hook)(uintptr_t offset);   // names the function at this offset in the library under test
extern int (*getenv_hook)(char const* name, char const** out);
std::string thread_states();
void at_sut_exit_code(std::function<void()> f);

} // namespace rt
