// The simulated application. Everything here is ordinary use of libcwd's public interface.
#include <pthread.h>
#include <cstring>
#include "sys.h"
#include <libcwd/debug.h>
#include "app.h"
#include <cerrno>
#include <iomanip>
#include <new>
#include <mutex>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>

namespace app { namespace channels { namespace dc {
using namespace libcwd::channels::dc;
using libcwd::Channel;
Channel alpha("ALPHA");
Channel beta("BETA");
Channel notify("NOTIFY");
Channel foo("FOO");
} } }

#undef LIBCWD_DEBUG_CHANNELS
#define LIBCWD_DEBUG_CHANNELS app::channels

namespace app {

// A program that extends the keywords of the configuration file.
struct UserRc : libcwd::RcFile
{
  std::string seen;
  bool unknown_keyword(std::string const& k, std::string const& v) override { seen += k + "=" + v + ";"; return k.size() % 2; }
};
static UserRc& user_rc() { static UserRc* p = new UserRc; return *p; }

// A lock type of the application's own: int try_lock, zero means success (like pthread_mutex_trylock).
struct IntLock
{
  pthread_mutex_t m_;
  IntLock() { pthread_mutex_init(&m_, nullptr); }
  ~IntLock() { pthread_mutex_destroy(&m_); }
  void lock() { pthread_mutex_lock(&m_); }
  int try_lock() { return pthread_mutex_trylock(&m_); }
  void unlock() { pthread_mutex_unlock(&m_); }
};

libcwd::DebugObject myobj1;
libcwd::DebugObject myobj2;
libcwd::DebugObject myobj3;
libcwd::DebugObject myobj4;
libcwd::DebugObject myobj5;
libcwd::DebugObject myobj6;
libcwd::DebugObject myobj7;

static libcwd::DebugObject* objs_[NOBJ] = { &libcwd::libcw_do, &myobj1, &myobj2, &myobj3, &myobj4, &myobj5, &myobj6, &myobj7 };
static libcwd::Channel* chans_[NCHAN];
struct Slot { alignas(libcwd::Channel) char store[sizeof(libcwd::Channel)]; libcwd::Channel* c; };
static Slot dyn_[240];
static LockSlot locks_[NLOCK];
static Hooks* H;

static libcwd::Channel& chan(long i)
{
  if (i >= 100) return *dyn_[i - 100].c;
  return *chans_[i];
}

static void run(std::vector<Op> const& ops);
static void late(Op const& op);
static void exec(Op const& op);

// Labels are re-padded by registrations in other threads; this read is outside of what is being checked.
__attribute__((no_sanitize_thread, noinline)) static void copy_label(libcwd::Channel const& c, std::string& out)
{
  char const volatile* l = c.get_label();
  char b[64];
  int n = 0;
  while (n < (int)libcwd::max_label_len && l[n]) { b[n] = l[n]; ++n; }
  out.append(b, (size_t)n);
}

struct Items { Op const& op; bool* ev; };

static std::ostream& operator<<(std::ostream& os, Items const& it)
{
  *it.ev = true;
  H->body_begin(it.op);
  for (Op const& s : it.op.sub)
  {
    switch (s.code)
    {
      case I_TEXT: { std::string t = H->item(s); os << t; break; }
      case I_NUM: H->item(s); os << s.a[0]; break;
      case I_HEX: H->item(s); os << std::hex << s.a[0] << std::dec; break;
      case I_BOOL: H->item(s); os << (s.a[0] != 0); break;
      case I_WIDTH: H->item(s); os << std::setw((int)s.a[1]) << std::setfill('.') << s.a[0] << std::setfill(' '); break;
      case I_ERRNO: H->item(s); errno = (int)s.a[0]; break;
      default: exec(s); break;
    }
  }
  H->body_end(it.op);
  return os;
}

#define STMT(...) do { bool ev = false; if (!H->stmt_begin(op)) break; errno = (int)op.a[3]; __VA_ARGS__; int e_ = errno; H->stmt_end(op, ev); errno = e_; } while (0)

// The flags, those that exist in a conditional form in that form.
static libcwd::control_flag_t conditional(libcwd::control_flag_t f)
{
  using namespace libcwd;
  libcwd::control_flag_t const m = nonewline_cf | noprefix_cf | nolabel_cf | error_cf | blank_margin_cf | blank_label_cf | blank_marker_cf | cerr_cf | flush_cf | wait_cf;
  return (f & ~m) | libcwd::cond_nonewline_cf(f & nonewline_cf) | libcwd::cond_noprefix_cf(f & noprefix_cf) | libcwd::cond_nolabel_cf(f & nolabel_cf) | libcwd::cond_error_cf(f & error_cf) |
      libcwd::conf_blank_margin_cf(f & blank_margin_cf) | libcwd::conf_blank_label_cf(f & blank_label_cf) | libcwd::conf_blank_marker_cf(f & blank_marker_cf) |
      libcwd::conf_cerr_cf(f & cerr_cf) | libcwd::conf_flush_cf(f & flush_cf) | libcwd::conf_wait_cf(f & wait_cf);
}

static libcwd::DebugString& format_string(libcwd::DebugObject& o, long i) { return i == 0 ? o.margin() : i == 1 ? o.marker() : i == 2 ? o.color_on() : o.color_off(); }

static void statement(Op const& op)
{
  libcwd::DebugObject& o = *objs_[op.a[0]];
  libcwd::control_flag_t f = conditional((libcwd::control_flag_t)op.a[2]);
  switch (op.code)
  {
    case S_DOUT:
      if (op.a[5] > 0) STMT(LibcwDout(app::channels, o, chan(op.a[1])|chan(op.a[5] - 1)|f, Items{op, &ev}));
      else STMT(LibcwDout(app::channels, o, chan(op.a[1])|f, Items{op, &ev}));
      break;
    case S_ALWAYS: STMT(LibcwDout(app::channels, o, dc::always|f, Items{op, &ev})); break;
    case S_CONT_START:
      if (op.a[5] > 0) STMT(LibcwDout(app::channels, o, chan(op.a[1])|chan(op.a[5] - 1)|f|continued_cf, Items{op, &ev}));
      else STMT(LibcwDout(app::channels, o, chan(op.a[1])|f|continued_cf, Items{op, &ev}));
      break;
    case S_CONT:
      if (f) STMT(LibcwDout(app::channels, o, dc::continued|f, Items{op, &ev}));
      else STMT(LibcwDout(app::channels, o, dc::continued, Items{op, &ev}));
      break;
    case S_FINISH:
      if (f) STMT(LibcwDout(app::channels, o, dc::finish|f, Items{op, &ev}));
      else STMT(LibcwDout(app::channels, o, dc::finish, Items{op, &ev}));
      break;
    case S_FATAL:
      if (op.a[1]) STMT(LibcwDoutFatal(app::channels, o, dc::core|f, Items{op, &ev}));
      else STMT(LibcwDoutFatal(app::channels, o, dc::fatal|f, Items{op, &ev}));
      break;
  }
}

template <class F> static bool op_(Op const& op, F f)
{
  if (!H->pre(op)) return false;
  std::string text;
  long r = f(text);
  H->post(op, r, text);
  return true;
}
#define OPV(...) op_(op, [&](std::string& text) -> long { (void)text; __VA_ARGS__; return 0; })
#define OPR(...) op_(op, [&](std::string& text) -> long { (void)text; __VA_ARGS__ })

static thread_local libcwd::Channel::OnOffState cstate_[32];
static thread_local libcwd::DebugObject::OnOffState ostate_[32];

// The debugger stops where this call returns.
extern "C" __attribute__((noinline, visibility("default"))) void sut_attach_here()
{
  libcwd::attach_gdb();
  __asm__ volatile("" ::: "memory");
}

static void exec(Op const& op)
{
  switch (op.code)
  {
    case S_DOUT: case S_ALWAYS: case S_CONT_START: case S_CONT: case S_FINISH: case S_FATAL: statement(op); break;
    case S_ENTERING:
    {
      // DoutEntering always uses libcw_do; the scope consists of sub[1..].
      Op const& st = op.sub[0];
      bool ev = false;
      if (!H->stmt_begin(st)) break;
      errno = (int)st.a[3];
      {
        DoutEntering(chan(st.a[1])|(libcwd::control_flag_t)st.a[2], (Items{st, &ev}));
        H->stmt_end(st, ev);
        H->scope(op, true);
        for (size_t i = 1; i < op.sub.size(); ++i) exec(op.sub[i]);
      }
      H->scope(op, false);
      break;
    }
    case SCOPE_INDENT:
    {
      libcwd::Indent indent((int)op.a[1]);
      H->scope(op, true);
      run(op.sub);
    }
    H->scope(op, false);
    break;
    case SCOPE_MARK:
    {
      auto body = [&](libcwd::Mark& m) {
        H->scope(op, true);
        run(op.sub);
        // Ending it early, once or more.
        for (long k = 0; k < op.a[3]; ++k) m.end();
      };
      if (op.s.empty()) { libcwd::Mark mark((char)op.a[1]); body(mark); }
      else if (op.a[2]) { libcwd::Mark mark((char8_t const*)op.s.c_str()); body(mark); }
      else { libcwd::Mark mark(op.s.c_str()); body(mark); }
    }
    H->scope(op, false);
    break;
    // More than once: as often as a[3] says.
    case O_ON: OPV(for (long i = 0; i == 0 || i < op.a[3]; ++i) objs_[op.a[0]]->on()); break;
    case O_OFF: OPV(for (long i = 0; i == 0 || i < op.a[3]; ++i) objs_[op.a[0]]->off()); break;
    case C_ON: OPV(for (long i = 0; i == 0 || i < op.a[3]; ++i) chan(op.a[1]).on()); break;
    case C_OFF: OPV(for (long i = 0; i == 0 || i < op.a[3]; ++i) chan(op.a[1]).off()); break;
    case O_FORCE:
    {
      libcwd::DebugObject::OnOffState st;
      if (!OPV(objs_[op.a[0]]->force_on(st))) break;
      run(op.sub);
      H->scope(op, true);
      objs_[op.a[0]]->restore(st);
      H->scope(op, false);
      break;
    }
    case C_FORCE:
    {
      libcwd::Channel::OnOffState st;
      if (!OPV(chan(op.a[1]).force_on(st, chan(op.a[1]).get_label()))) break;
      run(op.sub);
      H->scope(op, true);
      chan(op.a[1]).restore(st);
      H->scope(op, false);
      break;
    }
    case M_ASSIGN: OPV(objs_[op.a[0]]->margin().assign(op.s.data(), op.s.size())); break;
    case M_APPEND: OPV(objs_[op.a[0]]->margin().append(op.s.data(), op.s.size())); break;
    case M_PREPEND: OPV(objs_[op.a[0]]->margin().prepend(op.s.data(), op.s.size())); break;
    case M_PUSH: OPV(objs_[op.a[0]]->push_margin()); break;
    case M_POP: OPV(objs_[op.a[0]]->pop_margin()); break;
    case K_ASSIGN: OPV(objs_[op.a[0]]->marker().assign(std::string(op.s.c_str()))); break;
    case K_APPEND: OPV(objs_[op.a[0]]->marker().append(std::string(op.s.c_str()))); break;
    case K_PREPEND: OPV(objs_[op.a[0]]->marker().prepend(std::string(op.s.c_str()))); break;
    case K_PUSH: OPV(objs_[op.a[0]]->push_marker()); break;
    case K_POP: OPV(objs_[op.a[0]]->pop_marker()); break;
    case COL_ON: case COL_OFF:
    {
      libcwd::DebugString& d = format_string(*objs_[op.a[0]], op.code == COL_ON ? 2 : 3);
      switch (op.a[1])
      {
        case 1: OPV(d.append(op.s.data(), op.s.size())); break;
        case 2: OPV(d.prepend(std::string(op.s))); break;
        default: OPV(d.assign(op.s.data(), op.s.size())); break;
      }
      break;
    }
    case IND_SET: OPV(objs_[op.a[0]]->set_indent((unsigned short)op.a[1])); break;
    case IND_INC: OPV(objs_[op.a[0]]->inc_indent((unsigned short)op.a[1])); break;
    case IND_DEC: OPV(objs_[op.a[0]]->dec_indent((unsigned short)op.a[1])); break;
    case OS_SET: OPV(objs_[op.a[0]]->set_ostream(H->stream((int)op.a[1]))); break;
    case OS_SET_LOCK:
      OPV(
        void* p = app_lock((int)op.a[2]);
        if (locks_[op.a[2]].kind == 0) objs_[op.a[0]]->set_ostream(H->stream((int)op.a[1]), (std::mutex*)p);
        else objs_[op.a[0]]->set_ostream(H->stream((int)op.a[1]), (IntLock*)p);
      );
      break;
    case OS_GET: OPR(return (long)objs_[op.a[0]]->get_ostream();); break;
    case OS_HASM: OPR(return objs_[op.a[0]]->has_mutex();); break;
    case OS_DIRECT:   // the application itself uses the stream under the same lock
    {
      if (!H->pre(op)) break;
      void* p = app_lock((int)op.a[2]);
      bool k0 = locks_[op.a[2]].kind == 0;
      std::ostream* os = H->stream((int)op.a[1]);
      if (k0) ((std::mutex*)p)->lock(); else ((IntLock*)p)->lock();
      H->body_begin(op);
      *os << op.s.c_str();
      if (op.a[3]) os->flush();
      for (Op const& s : op.sub) exec(s);
      H->body_end(op);
      if (k0) ((std::mutex*)p)->unlock(); else ((IntLock*)p)->unlock();
      H->post(op, 0, "");
      break;
    }
    case FLUSH_ON: OPV(objs_[op.a[0]]->always_flush_on()); break;
    case FLUSH_OFF: OPV(objs_[op.a[0]]->always_flush_off()); break;
    case R_CHANS:
      OPV(LibcwdForAllDebugChannels(app::channels, text += debugChannel.get_label(); text += debugChannel.is_on() ? "+;" : "-;"));
      break;
    case R_OBJS:
      OPR(long n = 0;
        LibcwdForAllDebugObjects(app::channels, (void)debugObject; ++n;
          for (int i = 0; i < NOBJ; ++i) if (&debugObject == objs_[i]) text += (char)('0' + i));
        return n;);
      break;
    case R_FIND:
      OPR(libcwd::Channel* c = libcwd::find_channel(op.s.c_str());
        if (!c) return 0;
        copy_label(*c, text);
        return 1;);
      break;
    case R_LIST: STMT(ev = true; libcwd::list_channels_on(*objs_[op.a[0]])); break;
    case R_REG:
      OPV(
        Slot& s = dyn_[op.a[0]];
        s.c = new (s.store) libcwd::Channel(op.s.c_str(), op.a[1] == 0);
      );
      break;
    case T_INIT:
      STMT(ev = true; libcwd::init_thread(std::string(op.s.c_str()), (libcwd::thread_init_t)op.a[1]));
      H->learned(op, objs_[0]->margin().c_str());
      break;
    case INIT: STMT(ev = true; libcwd::init()); break;
    case INITIALIZE: OPV(libcwd::initialize()); break;
    case MAIN_REACHED: OPV(LibcwDebug(app::channels, libcwd::main_reached())); break;
    case RC_READ: STMT(ev = true; if (op.a[0]) user_rc().read(); else libcwd::read_rcfile()); break;
    case RC_GET: OPR(libcwd::RcFile& f = op.a[0] ? user_rc() : libcwd::rcfile; text = f.gdb_bin() + '\x01' + f.konsole_command(); if (op.a[0]) text += '\x01' + user_rc().seen; return f.read_called();); break;
    case GDB: OPV(sut_attach_here()); break;
    case O_STATE: OPR(return objs_[op.a[0]]->is_on(LIBCWD_TSD_INSTANCE) ? 1 : 0;); break;
    case C_STATE: OPR(return chan(op.a[1]).is_on() ? 1 : 0;); break;
    case D_FMT:
      OPR(for (int i = 0; i < 4; ++i)
          {
            libcwd::DebugString const& d = format_string(*objs_[op.a[0]], i);
            text.append(d.c_str(), d.size());
            text += (char)(1 + (d.c_str()[d.size()] != 0 || d.capacity() < d.size()));
          }
          return objs_[op.a[0]]->get_indent(););
      break;
    case F_RESERVE: OPR(format_string(*objs_[op.a[0]], op.a[1]).reserve((size_t)op.a[2]); return (long)format_string(*objs_[op.a[0]], op.a[1]).capacity();); break;
    case T_CORE: OPR(void (*volatile f)() = libcwd::core_dump; f(); return 0;); break;
    case T_LATE: late(op); break;
    case T_SPAWN: case T_JOIN: case T_YIELD: case T_SLEEP: case T_BARRIER:
      H->external(op);
      break;
    default:
      extra(op, H);
      break;
  }
}

static void run(std::vector<Op> const& ops) { for (Op const& op : ops) exec(op); }

// What a thread does when it has ended.
struct Late
{
  Op const* op = nullptr;
  ~Late() { if (op) run(op->sub); }
};
static pthread_key_t late_key()
{
  static pthread_key_t const key = [] { pthread_key_t k; pthread_key_create(&k, [](void* v) { run(((Op const*)v)->sub); }); return k; }();
  return key;
}
static void late(Op const& op)
{
  // The one that is mentioned first is destroyed last.
  if (op.a[0] == 0) { static thread_local Late l; l.op = &op; }
  else if (op.a[0] == 1) { static thread_local Late l; l.op = &op; }
  else pthread_setspecific(late_key(), &op);
}

extern "C" {

extern void* __dso_handle;
void __cxa_finalize(void*);
void app_finalize() { __cxa_finalize(&__dso_handle); }
void app_run(Hooks* h, std::vector<Op> const& ops)
{
  (void)h;
  run(ops);
}
void app_init(Hooks* h)
{
  H = h;
  chans_[0] = &channels::dc::notice; chans_[1] = &channels::dc::system; chans_[2] = &channels::dc::warning;
  chans_[3] = &channels::dc::debug; chans_[4] = &channels::dc::alpha; chans_[5] = &channels::dc::beta;
  chans_[6] = &channels::dc::notify; chans_[7] = &channels::dc::foo;
}
char const* app_channel_label(int i) { return chan(i).get_label(); }
__attribute__((no_sanitize_thread)) void* app_lock(int i)
{
  LockSlot& l = locks_[i];
  if (!l.p)
  {
    l.kind = i & 1;
    if (l.kind == 0) l.p = new std::mutex; else l.p = new IntLock;
  }
  return l.p;
}
__attribute__((no_sanitize_thread)) void app_lock_destroy(int i)
{
  LockSlot& l = locks_[i];
  if (!l.p) return;
  if (l.kind == 0) delete (std::mutex*)l.p; else delete (IntLock*)l.p;
  l.p = nullptr;
}
}

} // namespace app
