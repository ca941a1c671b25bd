// Operations on locations and shared libraries.
#include "sys.h"
#include <libcwd/debug.h>
#include <libcwd/type_info.h>
#include <libcwd/demangle.h>
#include <libcwd/buf2str.h>
#include <libcwd/strerrno.h>
#include "app.h"
#include <cerrno>
#include <dlfcn.h>
#include <sstream>

namespace app {

using namespace libcwd;

namespace util_types {
struct Plain { char c[24]; };
template<typename A, typename B> struct Two { A a; B b; struct Inner { int i[5]; }; };
enum Colour { red };
struct Incomplete;
template<int> struct N { };
}

namespace {

using namespace util_types;

std::string info(libcwd::TypeInfo const& t)
{
  return std::string(t.demangled_name()) + '\x01' + (t.name() ? t.name() : "(null)") + '\x01' + std::to_string(t.size()) + '\x01' + std::to_string(t.ref_size());
}

std::string helper(Op const& op)
{
  switch (op.code)
  {
    case U_TYPE:
      // sim/util.cpp has the answers.
      switch (op.a[0])
      {
        case 0: return info(type_info_of(1));
        case 1: return info(type_info_of<int>());
        case 2: return info(type_info_of<int const&>());
        case 3: { char const* p = nullptr; return info(type_info_of(p)); }
        case 4: return info(type_info_of<char const*>());
        case 5: { void* p = nullptr; return info(type_info_of(p)); }
        case 6: return info(type_info_of<void*>());
        case 7: return info(type_info_of(Plain()));
        case 8: { Plain* p = nullptr; return info(type_info_of(p)); }
        case 9: return info(type_info_of<Plain const volatile&>());
        case 10: return info(type_info_of<Two<int, char*>>());
        case 11: return info(type_info_of(Two<int, char*>::Inner()));
        case 12: return info(type_info_of<Two<Plain, Two<long, Colour>> const*>());
        case 13: { Incomplete* p = nullptr; return info(type_info_of(p)); }
        case 14: return info(type_info_of(red));
        case 15: return info(type_info_of<int (*)(Plain&, double)>());
        case 16: return info(type_info_of<int[3]>());
        case 17: { int** p = nullptr; return info(type_info_of(p)); }
        case 18: return info(type_info_of(true));
        case 19: return info(unknown_type_info_c);
        // Enough parts for references of two digits, here and inside a const reference.
        case 20: return info(type_info_of<void (*)(N<0>, N<1>, N<2>, N<3>, N<4>, N<5>, N<6>, N<7>, N<8>, N<9>, N<10>, N<11>, N<12>, N<13>, N<14>, N<15>, N<16>, N<17>, N<18>, N<19>, N<20>, N<21>, N<22>, N<23>, N<24>, N<25>, N<26>, N<27>, N<28>, N<29>, N<30>, N<31>, N<32>, N<33>, N<34>, N<35>, N<36>, N<37>, N<38>, N<39>, N<40>, N<41>, N<42>, N<43>, N<43>, N<20>, N<1>, N<35>, N<36>, N<37>)>());
        case 21: return info(type_info_of<void (* const&)(N<0>, N<1>, N<2>, N<3>, N<4>, N<5>, N<6>, N<7>, N<8>, N<9>, N<10>, N<11>, N<12>, N<13>, N<14>, N<15>, N<16>, N<17>, N<18>, N<19>, N<20>, N<21>, N<22>, N<23>, N<24>, N<25>, N<26>, N<27>, N<28>, N<29>, N<30>, N<31>, N<32>, N<33>, N<34>, N<35>, N<36>, N<37>, N<38>, N<39>, N<40>, N<41>, N<42>, N<43>, N<43>, N<20>, N<1>, N<35>, N<36>, N<37>)>());
      }
      return "";
    case U_DEMANGLE:
    {
      std::string out;
      char* in = (char*)malloc(op.s.size() + 1);        // nothing follows it
      memcpy(in, op.s.c_str(), op.s.size() + 1);
      if (op.a[0]) libcwd::demangle_type(in, out); else libcwd::demangle_symbol(in, out);
      free(in);
      return out;
    }
    case U_BUF:
    {
      std::ostringstream o;
      if (op.a[0]) o << buf2str(op.s); else o << buf2str(op.s.data(), op.s.size());
      return o.str();
    }
    default: return strerrno((unsigned int)op.a[0]);
  }
}

std::string describe(Location const& l)
{
  std::string r;
  r += l.is_known() ? "1" : "0";
  char const* f = l.mangled_function_name();
  r += '\x01';
  r += f == unknown_function_c ? "\x02" : f ? f : "\x03";
  r += '\x01';
  if (l.is_known())
  {
    std::ostringstream q;
    l.print_filename_on(q);
    r += q.str() == l.file() ? l.file() : "print_filename_on writes " + q.str();
    r += '\x01';
    std::ostringstream p;
    l.print_filepath_on(p);
    r += p.str() + '\x01' + std::to_string(l.line());
  }
  else
    r += "\x01\x01";
  r += '\x01';
  if (l.object_file()) { r += l.object_file()->filepath(); r += '\x01'; r += l.object_file()->filename(); } else r += "\x01";
  return r;
}

std::string lookup(Op const& op, Hooks* h)
{
  long a = h->external(op);
  if (a == -1) return "-";
  std::string text;
  errno = (int)op.a[3];
  switch (op.code)
  {
    case L_FUNC:
    {
      char const* n = pc_mangled_function_name((void const*)a);
      int e = errno;
      text = n == unknown_function_c ? "\x02" : n;
      h->post(op, e, text);
      break;
    }
    case L_LOOKUP:
    {
      Location l((void const*)a);
      int e = errno;
      text = describe(l);
      h->post(op, e, text);
      break;
    }
  }
  return text;
}

} // namespace

namespace {

// The locations that the program keeps around.
Location* slot[12];

std::string partly(Location const& l)
{
  std::string r = l.is_known() ? "1" : "0";
  if (l.is_known())
  {
    std::ostringstream p;
    p << '\x01' << l.file() << '\x01';
    l.print_filepath_on(p);
    r += p.str() + '\x01' + std::to_string(l.line()) + '\x01' + std::to_string(l.filename_length()) + '\x01' + std::to_string(l.filepath_length());
  }
  return r;
}

void location(Op const& op, Hooks* h)
{
  long m = h->external(op);
  if (m == -1) return;
  Location*& d = slot[op.a[0]];
  long result = 0;
  std::string text;
  switch (op.code)
  {
    case L_PC:
      errno = (int)op.a[3];
      if (d) d->pc_location((void const*)m); else d = new Location((void const*)m);
      result = errno;
      m = 3;
      break;
    case L_COPY:
      if (op.a[1] < 0) d = new Location; else d = new Location(*slot[op.a[1]]);
      break;
    case L_ASSIGN: *d = *slot[op.a[1]]; break;
    case L_CLEAR: d->clear(); break;
    case L_MOVE: d->lock_ownership(); break;
    case L_DEL: delete d; d = nullptr; break;
    case L_FORMAT:
    {
      result = location_format((location_format_t)op.a[1]);
      std::ostringstream o;
      if (m & 4) o << *d;
      text = o.str();
      m = 0;
      break;
    }
  }
  if (d && (m & 1)) text = (m & 2) ? describe(*d) : partly(*d);
  h->post(op, result, text);
}

} // namespace

void extra(Op const& op, Hooks* h)
{
  switch (op.code)
  {
    case U_TYPE: case U_DEMANGLE: case U_BUF: case U_ERRNO:
    {
      if (!h->pre(op)) break;
      errno = (int)op.a[3];
      std::string text = helper(op);
      h->post(op, errno, text);
      break;
    }
    case L_PC: case L_COPY: case L_ASSIGN: case L_CLEAR: case L_MOVE: case L_DEL: case L_FORMAT: case I_LOC: location(op, h); break;
    case L_FUNC: case L_LOOKUP: lookup(op, h); break;
    case L_PRINT:
    {
      // A lookup while a message is being composed.
      if (!h->pre(op)) break;
      std::string text;
      Dout(dc::notice, "<" << op.a[5] << ":" << (text = lookup(op.sub[0], h)) << ":" << op.a[5] << ">");
      h->post(op, 0, text);
      break;
    }
    case G_CALL:
      if (!h->pre(op)) break;
      if (op.a[1]) Debug(libcwd::channels::dc::elfutils.on()); else Debug(libcwd::channels::dc::elfutils.off());
      h->post(op, 0, "");
      break;
    case DL_OPEN:
    {
      if (!h->pre(op)) break;
      char const* name = op.a[0] == -2 ? nullptr : op.s.c_str();
      void* r = dlopen(name, (int)op.a[1]);
      h->post(op, (long)r, "");
      break;
    }
    case DL_CLOSE:
    {
      long v = h->external(op);
      if (v == -1) break;
      int r = dlclose((void*)v);
      h->post(op, r, "");
      break;
    }
    default: break;
  }
}

} // namespace app
