// The simulated application: an interpreter (app.cpp, part of the instrumented shared object, uses libcwd the way an
// application does) that executes operation trees made by the simulator, and reports to it through Hooks.
#pragma once
#include <cstddef>
#include <ostream>
#include <string>
#include <vector>

namespace app {

enum Code {
  // Statements: a[0] object, a[1] channel (or second channel in a[5], -1 none), a[2] flags, a[3] errno before it; s site/text
  S_DOUT, S_ALWAYS, S_CONT_START, S_CONT, S_FINISH, S_FATAL, S_ENTERING,
  // Items of a statement.
  I_TEXT, I_NUM, I_HEX, I_BOOL, I_WIDTH, I_ERRNO, I_LOC,
  // Switches: a[0] object/channel
  O_ON, O_OFF, C_ON, C_OFF, O_FORCE, C_FORCE,
  // Format: a[0] object; s text
  M_ASSIGN, M_APPEND, M_PREPEND, M_PUSH, M_POP, K_ASSIGN, K_APPEND, K_PREPEND, K_PUSH, K_POP, COL_ON, COL_OFF,
  IND_SET, IND_INC, IND_DEC, SCOPE_INDENT, SCOPE_MARK,
  // Destination: a[0] object, a[1] stream, a[2] lock
  OS_SET, OS_SET_LOCK, OS_GET, OS_HASM, OS_DIRECT, OS_REUSE,
  FLUSH_ON, FLUSH_OFF,
  // Registries
  R_CHANS, R_OBJS, R_FIND, R_LIST, R_REG,
  // Threads
  T_SPAWN, T_JOIN, T_YIELD, T_SLEEP, T_INIT, T_BARRIER,
  T_CORE,                          // core_dump()
  T_LATE,                          // a[0] 0, 1: thread_local object, 2: pthread key; its destructor does the sub operations
  MAIN_REACHED,
  // Locations
  L_LOOKUP, L_FUNC, L_COPY, L_ASSIGN, L_CLEAR, L_PC, L_PRINT, L_DEL, L_MOVE, L_FORMAT,
  // Loader
  DL_OPEN, DL_CLOSE, DL_CHECK,
  // misc
  GDB, RC_READ, RC_GET, INIT, INITIALIZE, G_CALL, O_STATE, C_STATE, D_FMT, F_RESERVE,
  // Helpers: a[0] which; s input
  U_TYPE, U_DEMANGLE, U_BUF, U_ERRNO,
  N_CODES
};
extern char const* const code_names[N_CODES];

struct Op
{
  int code = 0;
  long a[6] = {};
  std::string s;
  std::vector<Op> sub;
};

// Implemented by the simulator. All of them run as simulator code (not observed, no scheduling).
struct Hooks
{
  virtual bool stmt_begin(Op const& op) = 0;               // before the statement; false: skip it
  virtual void body_begin(Op const& op) = 0;               // its output expression is being evaluated
  virtual std::string item(Op const& op) = 0;              // text of a text item
  virtual void body_end(Op const& op) = 0;
  virtual void stmt_end(Op const& op, bool evaluated) = 0;
  virtual bool pre(Op const& op) = 0;                      // before any other operation; false: skip it
  virtual void post(Op const& op, long result, std::string const& text) = 0;
  virtual std::ostream* stream(int i) = 0;
  virtual long external(Op const& op) = 0;                 // operations done by the simulator (spawn, join, ...)
  virtual void scope(Op const& op, bool enter) = 0;
  virtual void learned(Op const&, std::string const&) { }  // the margin after init_thread
};

struct LockSlot { void* p; int kind; };

extern "C" {
void app_init(Hooks* h);
void app_run(Hooks* h, std::vector<Op> const& ops);
void app_finalize();            // runs the destructors of the global objects
char const* app_channel_label(int i);
void* app_lock(int i);          // creates it when needed
void app_lock_destroy(int i);
}
void extra(Op const& op, Hooks* h);   // app_extra.cpp: locations, loader

constexpr int NOBJ = 8;   // as many as the library allows
constexpr int NCHAN = 8;   // notice system warning debug + custom
constexpr int NSTREAM = 8;
constexpr int NLOCK = 8;

} // namespace app
