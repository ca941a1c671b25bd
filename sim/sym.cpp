// Engine "sym": address lookups, the dynamic loader, unreadable object files (C16, C17, C18).
#include "util.h"
#include "loader.h"
#include "simple.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <set>

using namespace app;
using ldr::Obj;

namespace {

enum { PR_DWARF = 23, PR_ELF, PR_UNKNOWN, PR_INLINE, PR_EITHER, PR_EARLY, PR_CTOR, PR_UNMAP, PR_FAULTED, PR_SKIP, PR_REOPEN, PR_DEBUGLINK, PR_PRINT, PR_LOCOP, PR_REINIT, PR_SHARE, PR_LOCTEXT, PR_OUTLIVES = 50, PR_FIRSTINIT = 59, PR_PRESTMT, PR_DTORPHASE, PR_FORCEDLOAD, PR_PRETHREAD, PR_LOOKFAULT = 69, PR_REPEAT = 72 };

struct Answer { bool known; std::string func, file, path, line, obj, objname; };
Answer parse(std::string const& t)
{
  std::vector<std::string> f(1);
  for (char c : t) if (c == 1) f.push_back(""); else f.back() += c;
  f.resize(7);
  return {f[0] == "1", f[1], f[2], f[3], f[4], f[5], f[6]};
}
std::string show(std::string const& f) { return f == "\x02" ? "<unknown>" : f; }
std::string show(Answer const& a)
{
  return (a.known ? a.path + ":" + a.line + " (" + a.file + ")" : std::string("no line")) + ", function " + show(a.func) + ", object " + (a.obj.empty() ? "none" : a.obj);
}

struct Lookup { int tid; uintptr_t addr; uint64_t start; bool main; int lf = 0, nf = 0; };
struct OpFrame { ldr::Frame f; Op const* op; int file; Obj* target; };

struct SymHooks : SimpleHooks
{
  std::vector<Lookup> inflight;
  std::vector<OpFrame*> stack[rt::MAXT];
  std::vector<size_t> begun[rt::MAXT];
  bool faults;
  explicit SymHooks(Case const& cc) : SimpleHooks(cc), faults(false) { }

  static bool damaged(Obj* o) { ldr::File& f = ldr::files[(size_t)o->file]; return f.faulted || f.variant || f.dvariant; }
  static bool faulty(Obj* o) { return damaged(o) || !ldr::files[(size_t)o->file].lost.empty(); }
  ldr::Row const* row(Obj* o, uintptr_t a)
  {
    for (auto& r : ldr::fixtures[(size_t)ldr::files[(size_t)o->file].fx].rows) if (a - o->base >= r.lo && a - o->base < r.hi) return &r;
    return nullptr;
  }

  // "" when the answer is what object o states for this address.
  // Compilers give functions with internal linkage no linkage name: their debug information has the plain name only.
  static bool named(std::string const& got, std::string const& want)
  {
    if (got == want) return true;
    // The compiler splits a function in parts with symbols of their own; to the debug information that is one function.
    if (want.find('.') != std::string::npos) return named(got, want.substr(0, want.find('.')));
    if (want.compare(0, 2, "_Z")) return false;
    for (size_t i = 2; i + 1 < want.size(); ++i)
    {
      if (want[i] != 'L' || !isdigit(want[i + 1])) continue;
      char* e;
      long n = strtol(want.c_str() + i + 1, &e, 10);
      if (got == std::string(e).substr(0, (size_t)n)) return true;
    }
    return false;
  }
  std::string check(Obj* o, Lookup const& l, Answer const& a, bool full)
  {
    std::string why = check(o, l, a, full, true);
    // Of a unit that could not be read the symbol table is the best answer.
    if (ldr::Row const* r = !why.empty() && o ? row(o, l.addr) : nullptr)
      if (r->dw && ldr::files[(size_t)o->file].lost.count(r->file.substr(r->file.rfind('/') + 1))) return check(o, l, a, full, false);
    return why;
  }
  std::string check(Obj* o, Lookup const& l, Answer const& a, bool full, bool dw)
  {
    if (!o)
    {
      if (a.known || a.func != "\x02" || (full && !a.obj.empty())) return "the address is not in any object";
      return "";
    }
    std::string opath = o->file == 0 ? ldr::files[0].path : o->name;
    if (full)
    {
      if (a.obj != opath) return "the object is " + opath;
      if (a.objname != opath.substr(opath.rfind('/') + 1)) return "the object's file name is " + a.objname;
    }
    ldr::Row const* r = row(o, l.addr);
    bool loose = damaged(o) || l.lf;
    bool use_dw = dw && r && r->dw && l.main;
    auto in = [](std::vector<std::string> const& v, std::string const& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    auto variant = [&](int v) { return ldr::files[(size_t)o->file].variant == v || ldr::files[(size_t)o->file].dvariant == v; };
    bool corrupt = variant(ldr::V_CORRUPT), garbled = variant(ldr::V_GARBLED);
    bool unnamed = garbled || l.nf || ldr::files[(size_t)o->file].misnamed;
    if (loose)
    {
      if (corrupt) return "";
      bool ok = a.func == "\x02" || (r && (in(r->elf, a.func) || (use_dw && (named(a.func, r->inl) || named(a.func, r->phys)))));
      // A symbol that could not be read leaves its range to one that could.
      if (!ok && r) for (auto& q : ldr::fixtures[(size_t)ldr::files[(size_t)o->file].fx].rows) if (in(q.elf, a.func)) ok = true;
      if (!ok && !unnamed) return "that function is not in the object";
      if (a.known && !use_dw) return "nothing states a line for this address";
      // The names do not matter for the line (but a damaged separate debug file is rejected, because its checksum is wrong).
      ldr::File& f = ldr::files[(size_t)o->file];
      if (full && use_dw && !a.known && !f.faulted && l.lf == l.nf && f.variant == ldr::V_GARBLED && f.dvariant == ldr::V_OK) return "it is " + r->file + ":" + std::to_string(r->lines.empty() ? 0 : r->lines[0]);
    }
    else if (use_dw)
    {
      if (full ? !named(a.func, r->inl) : !named(a.func, r->phys) && !named(a.func, r->inl)) return "the function is " + r->inl + (full ? "" : " or " + r->phys);
      if (full && !a.known) return "it is " + r->file + ":" + std::to_string(r->lines.empty() ? 0 : r->lines[0]);
    }
    else if (r && !r->elf.empty())
    {
      if (!in(r->elf, a.func)) return "the function is " + r->elf[0];
    }
    else if (a.func != "\x02") return "no symbol covers the address";
    if (!full) return "";
    if (a.known)
    {
      if (!use_dw) return "nothing states a line for this address";
      if (a.path != r->file) return "the file is " + r->file;
      if (a.file != r->file.substr(r->file.rfind('/') + 1)) return "the file is " + r->file;
      if (!r->lines.empty() && std::find(r->lines.begin(), r->lines.end(), atol(a.line.c_str())) == r->lines.end()) return "the line is " + std::to_string(r->lines[0]);
    }
    return "";
  }

  // Decides the address to look up; -1 to leave it.
  long start_lookup(int file, long offset)
  {
    if (file < 0 || (size_t)file >= ldr::files.size()) return -1;
    Obj* o = ldr::obj_of(file);
    uintptr_t base;
    if (o) base = o->base;
    else
    {
      Obj* last = nullptr;
      for (Obj* x : ldr::objs) if (x->file == file) last = x;
      base = last ? last->base : 0x20000000000 + (uintptr_t)file * 0x100000;
    }
    uintptr_t a = base + (uintptr_t)offset;
    int t = rt::tid();
    if (Obj* m = ldr::mapped_at(a))
    {
      // Not in an object that is about to go, unless it is its own destructor.
      auto u = ldr::unreachable(true);
      if (std::find(u.begin(), u.end(), m) != u.end() && !(m->running_dtor && !stack[t].empty())) { rt::probe(PR_SKIP); return -1; }
    }
    else
    {
      // Nor one that is going (the program did not order its lookup before the close), or that libdw might load and close again.
      for (Obj* x : ldr::objs)
        if (x->covers(a) && !x->mapped() && x->gone_seq == ~0ull) { rt::probe(PR_SKIP); return -1; }
      if (ldr::cs->num("dbgdclose")) { rt::probe(PR_SKIP); return -1; }
    }
    inflight.push_back({t, a, ++ldr::seq, ldr::main_reached, ldr::lookup_faults[t], ldr::name_faults[t]});
    rt::note("lookup %lx", a);
    return (long)a;
  }
  void end_lookup(Op const& op, long err, std::string const& text)
  {
    int t = rt::tid();
    Lookup l{};
    for (size_t i = inflight.size(); i-- > 0;) if (inflight[i].tid == t) { l = inflight[i]; inflight.erase(inflight.begin() + (long)i); break; }
    uint64_t end = ++ldr::seq;
    l.lf = ldr::lookup_faults[t] - l.lf;
    l.nf = ldr::name_faults[t] - l.nf;
    if (l.lf) rt::probe(PR_LOOKFAULT);
    // The program orders the use of what it found before the close of the object.
    for (Obj* o : ldr::objs) if (o->mapped() && o->covers(l.addr)) rt::hb_release(o);
    bool full = op.code != L_FUNC;
    Answer a = full ? parse(text) : Answer{false, text, "", "", "", "", ""};
    rt::note("answer %s", text.c_str());
    char b[64];
    snprintf(b, sizeof b, "0x%lx", l.addr);
    if (err != op.a[3]) rt::violation("errno", std::string("looking up ") + b + " changed errno from " + std::to_string(op.a[3]) + " to " + std::to_string(err));
    Obj* must = nullptr;
    bool may_unknown = true;
    std::vector<Obj*> may;
    for (Obj* o : ldr::objs)
    {
      if (!o->covers(l.addr)) continue;
      if (o->map_seq <= end && o->gone_seq >= l.start) may.push_back(o);
      if (o->settle_seq < l.start && o->unmap_seq > end) must = o;
    }
    if (must) { may_unknown = false; may = {must}; }
    if (may.size() + may_unknown > 1) rt::probe(PR_EITHER);
    std::string why;
    bool ok = false;
    if (may_unknown) { why = check(nullptr, l, a, full); ok = why.empty(); }
    for (Obj* o : may) if (!ok) { why = check(o, l, a, full); ok = why.empty(); }
    if (!ok)
    {
      std::string off;
      for (Obj* o : may) { char x[200]; snprintf(x, sizeof x, " (%s + %lu)", ldr::files[(size_t)o->file].path.c_str(), l.addr - o->base); off += x; }
      std::string cls = "wrong-answer";
      if (must && full && a.obj.empty()) cls = "not-registered";
      if (!must && may.empty()) cls = "stale-object";
      rt::violation(cls, std::string("lookup of ") + b + off + " gives " + show(a) + ", but " + why + (l.main ? "" : " (main was not reached)"));
    }
    if (must && faulty(must)) rt::probe(PR_FAULTED);
    if (a.known) rt::probe(PR_DWARF); else if (a.func != "\x02") rt::probe(PR_ELF); else rt::probe(PR_UNKNOWN);
    if (!l.main) rt::probe(PR_EARLY);
    if (must && a.known) { ldr::Row const* r = row(must, l.addr); if (r && r->inl != r->phys) rt::probe(PR_INLINE); if (ldr::fixtures[(size_t)ldr::files[(size_t)must->file].fx].name == "split.so") rt::probe(PR_DEBUGLINK); }
    if (!stack[t].empty()) rt::probe(PR_CTOR);
  }

  // Locations that are kept, copied and passed on. Copies share the path; one of them owns it (like std::auto_ptr) and
  // the program uses the others only while that one exists. A slot is used by one thread at a time.
  struct Slot
  {
    bool exists = false, known = false, owner = false, locked = false, busy = false;
    int state = 0;                     // 0 uninitialised, 1 cleared, 2 looked up
    int group = -1;
    Answer a{};
    uintptr_t addr = 0;
    Obj* obj = nullptr;
  };
  struct Use { std::vector<int> held; int shown = -1; long mask = 0; };
  Slot slots[12];
  std::vector<int> group_owner;        // slot that owns the path, -1 when it was released
  Use use[rt::MAXT];
  long fmt[rt::MAXT] = {};
  std::set<std::string> paths;
  uint64_t first_alloc = 0;

  bool usable(Slot const& s) const { return !s.known || group_owner[(size_t)s.group] >= 0; }
  bool object_there(Slot const& s)
  {
    if (s.state != 2 || !s.obj) return true;
    if (!s.obj->mapped()) return false;
    auto u = ldr::unreachable(true);
    return std::find(u.begin(), u.end(), s.obj) == u.end();
  }
  void lose(Slot& s)                   // what clear() does with the path
  {
    if (s.known && s.owner) { group_owner[(size_t)s.group] = -1; s.owner = false; }
    s.known = false;
  }
  void give(Slot& d, Slot& s, int di)
  {
    bool moves = s.owner && !s.locked;
    d.known = s.known; d.group = s.group;
    if (moves) { s.owner = false; d.owner = true; group_owner[(size_t)s.group] = di; }
  }
  long loc_begin(Op const& op)
  {
    int d = (int)op.a[0], s = (op.code == L_COPY || op.code == L_ASSIGN) ? (int)op.a[1] : -1;
    int t = rt::tid();
    Use& u = use[t];
    for (int tries = 0; ; ++tries)
    {
      bool has_d = slots[d].exists;
      if (op.code == L_COPY ? has_d : op.code != L_PC && !has_d) return -1;
      if (s >= 0 && (!slots[s].exists || (slots[s].state == 2 && !usable(slots[s])))) return -1;
      if ((op.code == I_LOC || op.code == L_FORMAT) && !usable(slots[d])) return -1;
      std::set<int> need{d};
      for (int x : {d, s}) if (x >= 0 && slots[x].known && slots[x].exists) { need.insert(x); if (group_owner[(size_t)slots[x].group] >= 0) need.insert(group_owner[(size_t)slots[x].group]); }
      if (s >= 0) need.insert(s);
      bool busy = false;
      for (int x : need) busy |= slots[x].busy;
      if (!busy) { u.held.assign(need.begin(), need.end()); break; }
      if (tries == 6) return -1;
      rt::point(rt::P_SYNC);
    }
    if (op.code == L_MOVE && (!slots[d].known || !slots[d].owner)) return -1;
    long addr = 0;
    if (op.code == L_PC)
    {
      addr = start_lookup((int)op.a[1], op.a[2]);
      if (addr == -1) return -1;
    }
    for (int x : u.held) { slots[x].busy = true; rt::hb_acquire(&slots[x]); }
    Slot& D = slots[d];
    rt::note("location %s %d %d", code_names[op.code], d, s);
    switch (op.code)
    {
      case L_PC: if (D.exists) { lose(D); rt::probe(PR_REINIT); } else { D = Slot(); D.exists = true; D.busy = true; } u.shown = d; u.mask = 3; D.addr = (uintptr_t)addr; return addr;
      case L_COPY:
        D = Slot(); D.exists = true; D.busy = true;
        if (s >= 0)
        {
          Slot& S = slots[s];
          if (S.known) give(D, S, d);
          D.state = S.state; D.a = S.a; D.addr = S.addr; D.obj = S.obj;
        }
        break;
      case L_ASSIGN:
        if (d != s)
        {
          Slot& S = slots[s];
          if (D.known && S.known && D.group == S.group) { give(D, S, d); rt::probe(PR_SHARE); }
          else { lose(D); if (S.known) give(D, S, d); }
          D.state = S.state; D.a = S.a; D.addr = S.addr; D.obj = S.obj;
        }
        break;
      case L_CLEAR: lose(D); D.state = 1; D.obj = nullptr; D.a = Answer(); break;
      case L_DEL: lose(D); break;
      case L_MOVE: D.locked = true; break;
    }
    u.shown = op.code == L_DEL ? -1 : d;
    u.mask = 0;
    if (u.shown >= 0 && usable(D)) u.mask = object_there(D) ? 3 : D.known ? 1 : 0;
    if (op.code == L_FORMAT && u.mask && (u.mask == 3 || (D.known && !(op.a[1] & 6)))) u.mask |= 4;
    if ((u.mask & 2) && D.obj) inflight.push_back({t, D.addr, ++ldr::seq, ldr::main_reached});
    else if (u.mask & 2) inflight.push_back({t, 0, ++ldr::seq, ldr::main_reached});
    return u.mask;
  }
  void loc_end(Op const& op, long result, std::string const& text)
  {
    int t = rt::tid(), d = (int)op.a[0];
    Use& u = use[t];
    Slot& D = slots[d];
    std::string what = std::string(code_names[op.code]) + " of location " + std::to_string(d);
    if (op.code == L_PC)
    {
      end_lookup(op, result, text);
      D.a = parse(text);
      D.state = 2;
      D.known = D.a.known;
      D.obj = nullptr;
      if (!D.a.obj.empty()) D.obj = ldr::mapped_at(D.addr);
      if (D.known) { D.group = (int)group_owner.size(); group_owner.push_back(d); D.owner = true; paths.insert(D.a.path); }
    }
    else
    {
      if (u.mask & 2)
      {
        for (size_t i = inflight.size(); i-- > 0;) if (inflight[i].tid == t) { inflight.erase(inflight.begin() + (long)i); break; }
        if (D.obj && D.obj->mapped()) rt::hb_release(D.obj);
      }
      if (op.code == L_FORMAT)
      {
        if (result != fmt[t]) rt::violation("location-format", "location_format() returns " + std::to_string(result) + " after it was set to " + std::to_string(fmt[t]));
        fmt[t] = op.a[1];
        if (u.mask & 4)
        {
          std::string want;
          if (D.known)
          {
            if (fmt[t] & 2) want += D.a.objname + ":";
            if (fmt[t] & 4) want += D.a.func + ":";
            want += ((fmt[t] & 1) ? D.a.path : D.a.file) + ":" + D.a.line;
          }
          else if (D.state == 2 && !D.a.obj.empty()) want = D.a.objname + ":" + (D.a.func == "\x02" ? "<unknown function>" : D.a.func);
          else
          {
            char b[32];
            snprintf(b, sizeof b, "%#lx", D.state == 2 ? D.addr : 0);
            want = std::string("<unknown object file> (at ") + (D.state == 2 ? b : "0") + ")";
          }
          if (text != want) rt::violation("location-text", what + " is written as " + text + ", not as " + want);
          rt::probe(PR_LOCTEXT);
        }
      }
      else if (u.mask & 1)
      {
        std::string want;
        if (u.mask & 2)
        {
          Answer e = D.a;
          if (D.state != 2) { e = Answer(); e.func = parse(text).func; if (e.func[0] != '<') e.func = "a note that it has no value"; }
          want = std::string(D.known ? "1" : "0") + "\x01" + e.func + "\x01" + e.file + "\x01" + e.path + "\x01" + e.line + "\x01" + e.obj + "\x01" + e.objname;
          if (!D.known) want = std::string("0\x01") + e.func + "\x01\x01\x01\x01" + e.obj + "\x01" + e.objname;
          Answer g = parse(text);
          if (text != want) rt::violation("location-changed", what + " leaves " + show(g) + ", it was " + show(parse(want)));
        }
        else
        {
          want = D.known ? "1\x01" + D.a.file + "\x01" + D.a.path + "\x01" + D.a.line + "\x01" + std::to_string(D.a.file.size()) + "\x01" + std::to_string(D.a.path.size()) : "0";
          if (text != want) rt::violation("location-changed", what + " leaves " + show_text(text) + ", it was " + show_text(want));
          rt::probe(PR_OUTLIVES);
        }
      }
      if (op.code == L_DEL) D.exists = false;
      rt::probe(PR_LOCOP);
    }
    for (int x : u.held) { slots[x].busy = false; rt::hb_release(&slots[x]); }
    u.held.clear();
  }
  // All locations are gone: so is the memory of their paths.
  void loc_leaks()
  {
    for (Slot& s : slots) if (s.exists) return;
    std::string l;
    int n = 0;
    for (auto& b : rt::live_since(first_alloc))
      for (auto& q : paths)
        if (b.n == q.size() + 1 && !memcmp(b.p, q.c_str(), b.n)) { ++n; l = q + " allocated at " + rt::symbolize(b.pc); }
    if (n) rt::violation("location-leak", std::to_string(n) + " paths of locations were never released, for example " + l);
  }

  bool pre(Op const& op) override
  {
    rt::InRt g;
    if (op.code == DL_OPEN)
    {
      OpFrame* f = new OpFrame;
      f->op = &op; f->file = -1; f->target = nullptr;
      f->f.kind = 1;
      f->f.name = op.a[0] == -2 ? nullptr : op.s.c_str();
      f->f.flags = (int)op.a[1];
      stack[rt::tid()].push_back(f);
      ldr::push(&f->f);
      rt::note("dlopen(%s, %lx)", op.s.c_str(), op.a[1]);
    }
    if (op.code == L_PRINT) begun[rt::tid()].push_back(out.text.size());
    if (op.code == MAIN_REACHED) ldr::main_reached = true;
    return true;
  }
  void settle(int file, uint64_t at, std::set<int>& seen)
  {
    if (!seen.insert(file).second) return;
    Obj* o = ldr::obj_of(file);
    if (!o) return;
    if (o->settle_seq == ~0ull) o->settle_seq = at;
    for (int d : ldr::files[(size_t)file].deps) settle(d, at, seen);
  }
  long external(Op const& op) override
  {
    rt::InRt g;
    switch (op.code)
    {
      case L_FUNC: case L_LOOKUP: return start_lookup((int)op.a[0], op.a[1]);
      case L_PC: case L_COPY: case L_ASSIGN: case L_CLEAR: case L_MOVE: case L_DEL: case L_FORMAT: case I_LOC: return loc_begin(op);
      case DL_CLOSE:
      {
        void* h;
        Obj* o = nullptr;
        if (op.a[0] < 0) h = (void*)0x5;              // not a handle
        else
        {
          o = ldr::obj_of((int)op.a[0]);
          if (!o || o->claimed <= 0) return -1;
          --o->claimed;
          for (Obj* d : ldr::unreachable(true))
            for (Lookup& l : inflight)
              if (d->covers(l.addr)) { ++o->claimed; rt::probe(PR_SKIP); return -1; }
          h = o->lm;
        }
        OpFrame* f = new OpFrame;
        f->op = &op; f->file = (int)op.a[0]; f->target = o;
        f->f.kind = 2; f->f.handle = h;
        stack[rt::tid()].push_back(f);
        ldr::push(&f->f);
        rt::note("dlclose(%ld)", op.a[0]);
        return (long)h;
      }
      default: return SimpleHooks::external(op);
    }
  }
  void post(Op const& op, long result, std::string const& text) override
  {
    rt::InRt g;
    if (util::mine(op)) { util::check(op, text); return; }
    switch (op.code)
    {
      case L_FUNC: case L_LOOKUP: end_lookup(op, result, text); break;
      case L_PC: case L_COPY: case L_ASSIGN: case L_CLEAR: case L_MOVE: case L_DEL: case L_FORMAT: case I_LOC: loc_end(op, result, text); break;
      case DL_OPEN: case DL_CLOSE:
      {
        OpFrame* f = stack[rt::tid()].back();
        stack[rt::tid()].pop_back();
        ldr::pop();
        bool open = op.code == DL_OPEN;
        if (f->f.calls != 1) rt::violation("loader-called", std::string(open ? "dlopen" : "dlclose") + " called the real function " + std::to_string(f->f.calls) + " times");
        if (open ? (void*)result != f->f.ret : (int)result != f->f.err)
          rt::violation("loader-result", std::string(open ? "dlopen" : "dlclose") + " does not return what the real function returned");
        uint64_t at = ++ldr::seq;
        if (open && result)
        {
          for (Obj* o : ldr::objs)
            if (o->mapped() && o->lm == (void*)result)
            {
              if (o->settle_seq != ~0ull) rt::probe(PR_REOPEN);
              ++o->claimed; std::set<int> seen; settle(o->file, at, seen);
            }
        }
        if (!open)
        {
          if (result != 0 && f->target) ++f->target->claimed;
          for (Obj* o : f->f.unmapped) { o->gone_seq = at; rt::probe(PR_UNMAP); }
        }
        rt::note("%s done", open ? "dlopen" : "dlclose");
        delete f;
        resources(false);
        break;
      }
      case L_PRINT:
      {
        size_t from = begun[rt::tid()].back();
        begun[rt::tid()].pop_back();
        rt::probe(PR_PRINT);
        std::string id = std::to_string(op.a[5]), want = "<" + id + ":" + text + ":" + id + ">\n", got = out.text.substr(from);
        size_t n = 0;
        for (size_t q = 0; (q = got.find(want, q)) != std::string::npos; ++q) ++n;
        if (n != 1) rt::violation("message-damaged", "the message in which a location was looked up, " + show_text(want) + ", was delivered " + std::to_string(n) + " times; the output was " + show_text(got));
        break;
      }
      default: break;
    }
  }
  void resources(bool end)
  {
    // What is open belongs to objects that are loaded.
    bool busy = false;
    for (auto& s : stack) busy |= !s.empty();
    if (busy || !inflight.empty()) return;
    for (size_t i = 0; i < ldr::files.size(); ++i)
    {
      int m = ldr::obj_of((int)i) != nullptr;
      int fd = ldr::open_fds((int)i), dw = ldr::live_dwarf((int)i);
      if (fd > m) rt::violation("descriptor-leak", std::to_string(fd) + " descriptors are open for " + ldr::files[i].path + ", of which " + std::to_string(m) + " is loaded");
      if (dw > m) rt::violation("handle-leak", std::to_string(dw) + " Dwarf handles exist for " + ldr::files[i].path + ", of which " + std::to_string(m) + " is loaded");
    }
    if (ldr::live_dwfl()) rt::violation("handle-leak", "a Dwfl handle was not ended");
    (void)end;
  }
};
// The construction and destruction of global objects: libcwd is used before its own global objects are constructed, and
// keeps working with everything that was set then.
struct PreHooks : SymHooks
{
  std::ostream own{&out};
  int od[NOBJ] = {}, cd[NCHAN + 1] = {};   // on/off counts; the last channel is elfutils
  struct Format { std::string margin, marker = ": "; long indent = 0; int flush = 0; } fmts[NOBJ];
  int dest[NOBJ] = {};                     // 0 std::cerr, 1 the application's stream
  size_t seen[2] = {};
  bool inited = false, custom = false, over = false, forced = false, nomsgs = false;
  int nested = 0;
  std::vector<std::string> opened_names;
  struct Cur { bool on; bool traced; std::string text; uint64_t seq0; long syncs; };
  std::vector<Cur> cur;
  std::vector<std::pair<int, std::string>> pending;
  explicit PreHooks(Case const& cc) : SymHooks(cc)
  {
    world::env_on = true;
    nomsgs = cc.num("nomsgs");
    if (nomsgs) world::env["LIBCWD_NO_STARTUP_MSGS"] = cc.num("nomsgs") > 1 ? "" : "1";
    if (cc.num("printload")) world::env["LIBCWD_PRINT_LOADING"] = "1";
    forced = cc.num("printload") && !nomsgs;
    world::core_limit = cc.num("rlim", -1);
    for (int& d : cd) d = 0;
    cd[2] = -1;
  }
  static char const* label(int ch) { static char const* const l[] = {"NOTICE", "SYSTEM", "WARNING", "DEBUG", "ALPHA", "BETA", "NOTIFY", "FOO", "ELFUTILS"}; return l[ch]; }
  static std::string padded(std::string l) { l.resize(8, ' '); return l; }
  std::string line(int o, std::string const& l) const { return fmts[o].margin + l + fmts[o].marker + std::string((size_t)fmts[o].indent, ' '); }
  long syncs(int o) const { return dest[o] ? out.syncs : err.syncs; }
  bool traced() const { return cd[NCHAN] < 0 && od[0] < 0; }
  bool can_chan(long c) const { return c >= 0 && (c < 4 || custom) && c < NCHAN; }
  bool can_obj(long o) const { return o >= 0 && (o == 0 || custom) && o < NOBJ; }

  // Everything that was written since the last call, apart from traces that may be there, must be what is expected.
  void settle_output(Op const* op, std::vector<std::pair<int, std::string>> want, bool trace, bool init)
  {
    if (init) rt::probe(PR_FIRSTINIT);
    std::string traces, left;
    if (init && world::core_limit > 0 && !nomsgs)
      want.push_back({0, padded("WARNING") + ": core size is limited (hard limit: " + std::to_string(world::core_limit / 1024) + " kb).  Core dumps might be truncated!\n"});
    for (int k = 0; k < 2; ++k)
    {
      std::string& t = k ? out.text : err.text;
      while (seen[k] < t.size())
      {
        size_t e = t.find('\n', seen[k]);
        std::string l = t.substr(seen[k], e == std::string::npos ? e : e + 1 - seen[k]);
        seen[k] = e == std::string::npos ? t.size() : e + 1;
        if ((trace || forced) && starts(l, line(0, "ELFUTILS")) && l.back() == '\n' && k == dest[0]) { traces += l; continue; }
        if (starts(l, line(0, "WARNING ")) && l.back() == '\n' && k == dest[0] && od[0] < 0 && cd[2] < 0 && about_unreadable(l)) continue;
        auto i = std::find(want.begin(), want.end(), std::make_pair(k, l));
        if (i == want.end()) left += (k ? "stream: " : "cerr: ") + l;
        else want.erase(i);
      }
    }
    std::string what = op ? code_names[op->code] : "construction or destruction of the global objects";
    if (!left.empty()) rt::violation("early-output", "unexpected output of " + what + (init ? " (which initialises)" : "") + ": " + show_text(left));
    if (!want.empty()) rt::violation("early-output-lost", std::string("output of ") + what + (init ? " (which initialises)" : "") + " is missing on " + (want[0].first ? "the application's stream" : "cerr") + ": " + show_text(want[0].second));
    if (init)
    {
      if (world::rlimit_gets != 1 || world::rlimit_sets != 1 || world::core_cur != world::core_limit)
        rt::violation("core-limit", "the core size limit was read " + std::to_string(world::rlimit_gets) + " times, set " + std::to_string(world::rlimit_sets) + " times, and is now " + std::to_string(world::core_cur));
      if (forced) for (Obj* o : ldr::objs) if (ldr::files[(size_t)o->file].startup) must_name(traces, o);
    }
    if (forced && op && op->code == DL_OPEN && !cur.empty())
      for (Obj* o : ldr::objs) if (o->map_seq > cur.back().seq0 && o->mapped()) must_name(traces, o);
  }
  static bool starts(std::string const& l, std::string const& p) { return l.compare(0, p.size(), p) == 0; }
  static bool about_unreadable(std::string const& l)
  {
    for (Obj* o : ldr::objs)
    {
      std::string const& fx = ldr::fixtures[(size_t)ldr::files[(size_t)o->file].fx].name;
      if ((faulty(o) || fx == "linux-vdso.so.1" || fx == "empty.so") && l.find(ldr::files[(size_t)o->file].path) != std::string::npos) return true;
    }
    return false;
  }
  void must_name(std::string const& traces, Obj* o)
  {
    std::string p = o->file == 0 ? ldr::files[0].path : o->name;
    if (traces.find(p) == std::string::npos) rt::violation("loading-not-printed", "LIBCWD_PRINT_LOADING is set but loading " + p + " was not printed");
    rt::probe(PR_FORCEDLOAD);
  }
  static bool initialises(Op const& op)
  {
    switch (op.code)
    {
      case INITIALIZE: case L_FUNC: case L_LOOKUP: case O_FORCE: return true;
      case DL_OPEN: return !op.s.empty();
      default: return false;
    }
  }
  std::vector<bool> init_at;
  // Called around every operation. False: not possible now.
  bool begin(Op const& op)
  {
    bool init = !inited && initialises(op);
    if (!inited && !init) return false;
    if (over && op.code != DL_OPEN && op.code != DL_CLOSE) return false;
    init_at.push_back(init);
    inited = true;
    cur.push_back({traced(), traced(), "", ldr::seq, syncs((op.code == S_DOUT || op.code == S_ALWAYS) ? (int)op.a[0] : 0)});
    return true;
  }
  void end(Op const& op, std::vector<std::pair<int, std::string>> want = {})
  {
    bool init = init_at.back();
    init_at.pop_back();
    bool trace = cur.back().traced || traced();
    for (auto& c : cur) trace |= c.traced;
    // What is done by constructors of libraries is written while they are loaded.
    pending.insert(pending.end(), want.begin(), want.end());
    if (cur.size() == 1) { auto w = std::move(pending); pending.clear(); settle_output(&op, w, trace, init); }
    cur.pop_back();
  }

  bool stmt_begin(Op const& op) override
  {
    rt::InRt g;
    if (!inited || over || !can_obj(op.a[0]) || (op.code == S_DOUT && !can_chan(op.a[1])) || nested) return false;
    if (op.code != S_DOUT && op.code != S_ALWAYS) return false;
    begin(op);
    cur.back().on = od[op.a[0]] < 0 && (op.code == S_ALWAYS || cd[op.a[1]] < 0);
    ++nested;
    return true;
  }
  std::string item(Op const& op) override { rt::InRt g; cur.back().text += op.s; return op.s; }
  void stmt_end(Op const& op, bool evaluated) override
  {
    rt::InRt g;
    --nested;
    if (evaluated != cur.back().on) rt::violation("early-switch", std::string("the output expression of a statement on channel ") + (op.code == S_ALWAYS ? "always" : label((int)op.a[1])) + (evaluated ? " was evaluated while it is off" : " was not evaluated while it is on"));
    std::vector<std::pair<int, std::string>> want;
    if (evaluated) want.push_back({dest[op.a[0]], line((int)op.a[0], op.code == S_ALWAYS ? ">>>>>>>>" : padded(label((int)op.a[1]))) + cur.back().text + "\n"});
    if (evaluated && fmts[op.a[0]].flush > 0 && syncs((int)op.a[0]) == cur.back().syncs) rt::violation("early-flush", "a statement was not flushed while always_flush is on");
    rt::probe(PR_PRESTMT);
    end(op, want);
  }
  std::ostream* stream(int i) override { return i == 0 ? &own : &std::cerr; }
  // Another thread only looks up addresses and loads libraries, while nothing is written.
  static bool other() { return rt::tid() != 0; }
  bool pre(Op const& op) override
  {
    rt::InRt g;
    if (other()) return op.code != L_PRINT && SymHooks::pre(op);
    switch (op.code)
    {
      case FLUSH_OFF: if (fmts[op.a[0]].flush <= 0) return false; [[fallthrough]];
      case FLUSH_ON: case M_ASSIGN: case M_APPEND: case K_ASSIGN: case IND_SET: case IND_INC: case OS_GET: case D_FMT: [[fallthrough]];
      case O_ON: case O_OFF: case O_STATE: case OS_SET: if (!inited || !can_obj(op.a[0])) return false; break;
      case C_ON: if (!can_chan(op.a[1]) || cd[op.a[1]] < 0) return false; break;
      case C_OFF: case C_STATE: if (!can_chan(op.a[1])) return false; break;
      case G_CALL: if ((op.a[1] != 0) == (cd[NCHAN] < 0)) return false; break;
      case O_FORCE: if (!can_obj(op.a[0]) || nested) return false; break;
      case C_FORCE: if (!can_chan(op.a[1]) || nested) return false; break;
      case L_PRINT: if (nested || !inited || over) return false; break;
      default: break;
    }
    if (!begin(op)) return false;
    if (op.code == L_PRINT) { cur.back().on = od[0] < 0 && cd[0] < 0; ++nested; return true; }
    return SymHooks::pre(op);
  }
  long external(Op const& op) override
  {
    if (other()) return SymHooks::external(op);
    { rt::InRt g; if (!begin(op)) return -1; }
    if (op.code == T_SPAWN) rt::probe(PR_PRETHREAD);
    long r = SymHooks::external(op);
    bool ops = op.code == L_FUNC || op.code == L_LOOKUP || op.code == DL_CLOSE;
    rt::InRt g;
    // Done, or nothing will happen.
    if (!ops || r == -1)
    {
      if (init_at.back()) inited = false;
      init_at.back() = false;
      end(op);
    }
    return r;
  }
  std::vector<std::pair<int, int>> saved;
  void scope(Op const& op, bool enter) override
  {
    rt::InRt g;
    if (enter) return;
    if (op.code == O_FORCE) od[op.a[0]] = saved.back().second; else cd[op.a[1]] = saved.back().second;
    saved.pop_back();
    begin(op);
    end(op);
  }
  void post(Op const& op, long result, std::string const& text) override
  {
    rt::InRt g;
    if (other()) { SymHooks::post(op, result, text); return; }
    auto bad = [&](std::string what) { rt::violation("early-state", what); };
    switch (op.code)
    {
      case O_ON: --od[op.a[0]]; break;
      case O_OFF: ++od[op.a[0]]; break;
      case C_ON: --cd[op.a[1]]; break;
      case C_OFF: ++cd[op.a[1]]; break;
      case G_CALL: if (op.a[1]) cd[NCHAN] = -1; else cd[NCHAN] = 0; break;
      case O_FORCE: saved.push_back({0, od[op.a[0]]}); od[op.a[0]] = -1; break;
      case C_FORCE: saved.push_back({1, cd[op.a[1]]}); cd[op.a[1]] = -1; break;
      case FLUSH_ON: ++fmts[op.a[0]].flush; break;
      case FLUSH_OFF: --fmts[op.a[0]].flush; break;
      case M_ASSIGN: fmts[op.a[0]].margin = op.s; break;
      case M_APPEND: fmts[op.a[0]].margin += op.s; break;
      case K_ASSIGN: fmts[op.a[0]].marker = op.s; break;
      case IND_SET: fmts[op.a[0]].indent = op.a[1]; break;
      case IND_INC: fmts[op.a[0]].indent += op.a[1]; break;
      case OS_GET: if ((std::ostream*)result != stream(dest[op.a[0]] ? 0 : 7)) bad("get_ostream() does not return the stream that was set"); break;
      case D_FMT:
      {
        Format const& f = fmts[op.a[0]];
        if (text != f.margin + '\x01' + f.marker + "\x01\x01\x01" || result != f.indent) bad("margin, marker and indentation are " + show_text(text) + " and " + std::to_string(result) + ", not " + show_text(f.margin + '\x01' + f.marker + "\x01\x01\x01") + " and " + std::to_string(f.indent));
        break;
      }
      case OS_SET: dest[op.a[0]] = op.a[1] == 0; break;
      case O_STATE: if (result != (od[op.a[0]] < 0)) bad("debug object " + std::to_string(op.a[0]) + " is " + (result ? "on" : "off")); break;
      case C_STATE: if (result != (cd[op.a[1]] < 0)) bad(std::string("channel ") + label((int)op.a[1]) + " is " + (result ? "on" : "off")); break;
      case R_CHANS:
      {
        std::set<std::string> want;
        for (int i : {0, 1, 2, 3, 8}) want.insert(padded(label(i)) + (cd[i] < 0 ? "+" : "-"));
        if (custom) for (int i = 4; i < NCHAN; ++i) want.insert(padded(label(i)) + (cd[i] < 0 ? "+" : "-"));
        std::string w;
        for (auto& x : want) w += x + ";";
        if (text != w) bad("iteration over the channels gives " + text + ", not " + w);
        break;
      }
      case R_OBJS:
        if (std::count(text.begin(), text.end(), '0') != 1) bad("iteration over the debug objects visits libcw_do " + std::to_string(std::count(text.begin(), text.end(), '0')) + " times");
        if (custom && (result != NOBJ || std::set<char>(text.begin(), text.end()).size() != NOBJ)) bad("iteration over the debug objects gives " + text);
        break;
      case R_FIND:
      {
        bool there = false;
        for (int i = 0; i <= NCHAN; ++i) if ((i < 4 || i == NCHAN || custom) && op.s == label(i)) there = true;
        if (result != there || (there && text != padded(op.s))) bad("looking for channel " + op.s + " gives " + (result ? text : "nothing"));
        break;
      }
      case L_PRINT:
      {
        --nested;
        std::string id = std::to_string(op.a[5]);
        std::vector<std::pair<int, std::string>> want;
        if (cur.back().on) want.push_back({dest[0], line(0, padded("NOTICE")) + "<" + id + ":" + text + ":" + id + ">\n"});
        end(op, want);
        return;
      }
      default: SymHooks::post(op, result, text); break;
    }
    end(op);
  }
  static bool world_gets() { return world::rlimit_sets == 0; }
  void phase(char const* name)
  {
    long i = c.num(name);
    if (i > 0 && (size_t)i < c.threads.size()) sut.run(this, c.threads[(size_t)i]);
  }
};
PreHooks* PHK;
void on_global(int which, bool ctor)
{
  {
    rt::InRt g;
    rt::note("global object %d is %s", which, ctor ? "constructed" : "destroyed");
    if (ctor && which == 0) sut.init(PHK);
    if (ctor && which == 1)
    {
      // The global objects in between were constructed.
      PHK->settle_output(nullptr, {}, PHK->traced(), !PHK->inited);
      PHK->inited = PHK->custom = true;
    }
    if (!ctor) rt::probe(PR_DTORPHASE);
    if (!ctor && which == 0) { PHK->settle_output(nullptr, {}, PHK->traced(), false); }
  }
  { rt::OutRt o; PHK->phase(ctor ? (which ? "pre.last" : "pre.first") : (which ? "post.last" : "post.first")); }
  if (!ctor && which == 0) PHK->over = true;
}

SymHooks* HK;

void on_terminate(char const* kind, int code)
{
  if (PHK && !strcmp(kind, "_Exit") && rt::faults_seen(rt::F_RLIMIT))
  {
    // The core size limit could not be read or set; libcwd says so and ends the process.
    std::string const& t = PHK->err.text;
    size_t a = t.find("FATAL   : "), e = t.find('\n', a == std::string::npos ? 0 : a);
    bool get = PHK->world_gets();
    if (a != std::string::npos && e != std::string::npos && t.substr(a, e - a).find(get ? "getrlimit(RLIMIT_CORE" : "unlimit core size failed") != std::string::npos && t.find("FATAL", e) == std::string::npos) rt::finish_ok();
  }
  rt::violation(std::string("terminated@") + kind, std::string("the process ended with ") + kind + " " + std::to_string(code) + "; output: " + show_text(HK->err.text));
}

struct SymEngine : Engine
{
  bool needs_sut() const override { return false; }
  void prepare() override { ldr::load_table(); prepare_sut("sutr.so"); prepare_sut(); }

  void generate(Rng& r, Case& c) override
  {
    std::string const& pf = c.profile;
    bool globals = pf == "pre";
    bool load = pf == "load", bad = pf == "bad", look = pf == "look", loc = pf == "loc";
    static char const* const libs[] = {"dbg.so", "dw4.so", "nodbg.so", "strip.so", "split.so", "mix.so", "data.so", "nolink.so", "clang.so"};
    int nlib = 1 + (int)r.below(look ? 3 : 4);
    std::vector<std::string> spec{"main startup"};
    std::vector<int> fx{ldr::fixture("main")};
    std::vector<int> dl;
    bool ctors = (load || globals) && r.chance(.4);
    c.n["place"] = (long)r.below(5);
    c.n["rehandle"] = r.chance(.5);
    c.n["base0"] = r.chance(.1);
    c.n["longpath"] = r.chance(.1) ? r.range(235, 260) : r.chance(.05) ? 700 : 0;
    if (r.chance(.2)) { spec.push_back("linux-vdso.so.1 startup"); fx.push_back(ldr::fixture("linux-vdso.so.1")); }
    if (r.chance(.1)) { spec.push_back("empty.so startup"); fx.push_back(ldr::fixture("empty.so")); }
    int extra = 2;        // threads 0.. are application threads; lists of constructors come after them
    std::vector<Ops> lists;
    int first = (int)spec.size();
    for (int i = 0; i < nlib; ++i)
    {
      std::string n = libs[r.below(sizeof libs / sizeof *libs)];
      bool st = load ? r.chance(.25) : r.chance(loc ? .5 : .7);
      std::string s = n + (st ? " startup" : "");
      int me = (int)spec.size();
      std::vector<int> deps;
      for (int d = first; d < me; ++d) if (r.chance(load ? .25 : .1)) deps.push_back(d);
      if (!deps.empty()) { s += " deps="; for (size_t k = 0; k < deps.size(); ++k) s += (k ? "," : "") + std::to_string(deps[k]); }
      if (load && r.chance(.1)) s += " locked";
      dl.push_back(me);
      spec.push_back(s); fx.push_back(ldr::fixture(n));
    }
    auto offset = [&](int f) -> long {
      ldr::Fixture const& x = ldr::fixtures[(size_t)fx[(size_t)f]];
      if (x.rows.empty() || r.chance(.12))
      {
        std::vector<Elf64_Phdr const*> seg;
        for (auto& p : x.ph) if (p.p_type == PT_LOAD && p.p_memsz) seg.push_back(&p);
        if (!seg.empty() && r.chance(.6))
        {
          Elf64_Phdr const& p = *seg[r.below(seg.size())];
          long a = (long)p.p_vaddr, b = a + (long)p.p_filesz, e = a + (long)p.p_memsz;
          long const c2[] = {a - 1, a, b - 1, b, e - 1, e, b + (long)r.below((uint64_t)(e - b) + 1), a - 0x800, e + 0x800};
          return c2[r.below(9)];
        }
        long const cand[] = {(long)x.lo - 1, (long)x.lo, (long)x.hi - 1, (long)x.hi, (long)x.hi + 1, (long)(x.lo + x.hi) / 2};
        return cand[r.below(6)];
      }
      ldr::Row const& w = x.rows[r.below(x.rows.size())];
      switch (r.below(3)) { case 0: return (long)w.lo; case 1: return (long)w.hi - 1; default: return (long)((w.lo + w.hi) / 2); }
    };
    // Some runs have debug output, in which lookups are done as well.
    bool out = r.chance(bad ? .5 : .2), elf = out && r.chance(.5);
    long id = 0;
    auto mkop_on = [&](Ops& o) {
      if (!out) return;
      o.push_back(mkop(O_ON, 0));
      Op n = mkop(C_ON); n.a[1] = 0; o.push_back(n);
      if (elf) o.push_back(mkop(G_CALL, 0, 1));
    };
    auto lookup1 = [&](int f = -1) { if (f < 0) f = (int)r.below(spec.size()); return mkop(r.chance(.3) ? L_FUNC : L_LOOKUP, f, offset(f), 0, r.chance(.5) ? (long)r.below(5) * 3 : 0); };
    auto lookup = [&](int f = -1) {
      Op l = lookup1(f);
      if (!out || r.chance(.4)) return l;
      Op p = mkop(L_PRINT);
      p.a[5] = ++id;
      p.sub.push_back(l);
      return p;
    };
    auto loc_op = [&]() {
      long d = (long)r.below(r.chance(.5) ? 3 : 6), s = (long)r.below(r.chance(.5) ? 3 : 6);
      double u = r.u();
      if (u < .28) { Op l = lookup1(-1), o = mkop(L_PC, d, l.a[0], l.a[1]); o.a[3] = l.a[3]; return o; }
      if (u < .45) return mkop(L_COPY, d, r.chance(.07) ? -1 : s);
      if (u < .62) return mkop(L_ASSIGN, d, s);
      if (u < .68) return mkop(L_CLEAR, d);
      if (u < .77) return mkop(L_DEL, d);
      if (u < .83) return mkop(L_MOVE, d);
      if (u < .91) return mkop(L_FORMAT, d, (long)r.below(8));
      return mkop(I_LOC, d);
    };
    auto open = [&]() {
      int f = dl.empty() || r.chance(.05) ? 0 : dl[r.below(dl.size())];
      long fl = r.chance(.5) ? RTLD_NOW : RTLD_LAZY;
      if (r.chance(.15)) fl |= RTLD_GLOBAL;
      if (r.chance(.12)) fl |= RTLD_NOLOAD;
      if (r.chance(.1)) fl |= RTLD_NODELETE;
      Op o = mkop(DL_OPEN, f, fl);
      std::string n = spec[(size_t)f].substr(0, spec[(size_t)f].find(' '));
      o.s = "/sim/o" + std::to_string(f) + (f == 0 && c.n["longpath"] ? "/" + std::string((size_t)c.n["longpath"], 'p') : "") + "/" + n;
      if (r.chance(.15))
      {
        bool first = true;
        for (int k = 0; k < f; ++k) if (spec[(size_t)k].compare(0, n.size() + 1, n + " ") == 0) first = false;
        if (first && f) o.s = n;
      }
      if (r.chance(.05)) o.s = "/sim/none.so";
      if (r.chance(.04)) { o.a[0] = -2; o.s = ""; }
      else if (r.chance(.04)) { o.a[0] = -3; o.s = ""; }
      return o;
    };
    auto close = [&]() { return mkop(DL_CLOSE, dl.empty() || r.chance(.05) ? (r.chance(.5) ? 0 : -1) : dl[r.below(dl.size())]); };
    int nt = load ? (int)r.below(4) : r.chance(.15) ? 0 : 1 + (int)r.below(4);
    extra = 1 + nt;
    if (!load && r.chance(.15)) { c.n["dbgd"] = r.chance(.7) ? (long)dl[r.below(dl.size())] : 99; c.n["dbgdclose"] = r.chance(.5); }
    if (bad)
    {
      for (int f : dl)
      {
        std::string& s = spec[(size_t)f];
        bool split = s.compare(0, 5, "split") == 0;
        if (r.chance(.5)) s += " variant=" + std::to_string(r.range(1, 6)) + " vval=" + std::to_string(r.below(1 << 20));
        else if (split && r.chance(.6)) s += " dvariant=" + std::to_string(r.range(1, 6)) + " vval=" + std::to_string(r.below(1 << 20));
      }
      if (r.chance(.1)) spec[0] += " variant=" + std::to_string(r.range(1, 6)) + " vval=" + std::to_string(r.below(1 << 20));
    }
    c.threads.resize((size_t)extra);
    for (int f : dl)
      if (ctors && r.chance(.6))
        for (char const* which : {"ctor", "dtor"})
        {
          if (!r.chance(.7)) continue;
          Ops l;
          for (int k = 1 + (int)r.below(2); k > 0; --k)
          {
            double u = r.u();
            if (u < .5) l.push_back(lookup(r.chance(.5) ? f : -1));
            else if (u < .8) { Op o = open(); if (o.a[0] != f || true) l.push_back(o); }
            else l.push_back(close());
          }
          spec[(size_t)f] += std::string(" ") + which + "=" + std::to_string(c.threads.size());
          c.threads.push_back(l);
        }
    for (size_t i = 0; i < spec.size(); ++i) c.t["lib." + std::to_string(i)] = spec[i];
    if (globals) { generate_globals(r, c, lookup1, open, close); goto params; }
    {
    Ops& m = c.threads[0];
    if (out) { Op s = mkop(OS_SET_LOCK, 0, 0, 0); m.push_back(s); mkop_on(m); }
    if (r.chance(.3)) for (int k = 1 + (int)r.below(4); k > 0; --k) m.push_back(r.chance(.75) || !load ? lookup() : open());
    bool reach = r.chance(.97);
    if (reach) m.push_back(mkop(MAIN_REACHED));
    auto body = [&](Ops& o, int n) {
      // A thread without debug output of its own that uses the output stream, under its lock, and does lookups meanwhile.
      // Not with traces: see known/lookup-under-output-lock.case.
      bool own = &o != &m && out && !elf && r.chance(.3);
      auto late = [&](double chance) {
        for (int k = 0; k < 3 && &o != &m; ++k) if (r.chance(chance)) { Op l = mkop(T_LATE, k); l.sub.push_back(lookup1()); o.push_back(l); }
      };
      late(.06);
      if (&o != &m && !own) mkop_on(o);
      for (int k = 0; k < n; ++k)
      {
        if (own && r.chance(.6)) { Op d = mkop(OS_DIRECT); d.sub.push_back(lookup1()); o.push_back(d); continue; }
        if (own) { o.push_back(lookup1()); continue; }
        if (loc && r.chance(.8))
        {
          o.push_back(loc_op());
          Op q = o.back();
          if (q.code == L_COPY && q.a[1] >= 0 && r.chance(.4)) { bool back = r.chance(.5); q = mkop(L_ASSIGN, q.a[back], q.a[!back]); o.push_back(q); if (r.chance(.3)) o.push_back(q); }
          continue;
        }
        double u = r.u();
        double po = load || loc ? .35 : look ? .04 : .1, pc = loc ? .45 : load ? .3 : look ? .02 : .08;
        if (u < po) o.push_back(open()); else if (u < po + pc) o.push_back(close()); else o.push_back(lookup());
      }
      late(.02);
    };
    // A thread that hands the ownership of a few paths round and round.
    auto hand_round = [&](Ops& o) {
      bool ex[4] = {};
      for (int k = 10 + (int)r.below(30); k > 0; --k)
      {
        long d = (long)r.below(4), s = (long)r.below(4);
        double u = r.u();
        if (!ex[d] && u < .6 && ex[s]) { o.push_back(mkop(L_COPY, 8 + d, 8 + s)); ex[d] = true; }
        else if (!ex[d] || u < .15) { Op l = lookup1(-1), q = mkop(L_PC, 8 + d, l.a[0], l.a[1]); q.a[3] = l.a[3]; o.push_back(q); ex[d] = true; }
        else if (u < .4) { if (ex[s]) o.push_back(mkop(L_ASSIGN, 8 + d, 8 + s)); }
        else if (u < .55) o.push_back(mkop(L_MOVE, 8 + d));
        else if (u < .75) { o.push_back(mkop(L_DEL, 8 + d)); ex[d] = false; }
        else if (u < .8) o.push_back(mkop(L_CLEAR, 8 + d));
        else o.push_back(mkop(I_LOC, 8 + d));
      }
    };
    auto with_round = [&](Ops& o, int n) { body(o, n); if (loc && r.chance(.35)) hand_round(o); };
    if (reach) for (int i = 1; i <= nt; ++i) { with_round(c.threads[(size_t)i], 1 + (int)r.below(loc ? 14 : load ? 6 : 5)); m.push_back(mkop(T_SPAWN, i)); }
    with_round(m, (int)r.below(loc ? 16 : load ? 10 : 6));
    if (reach) for (int i = 1; i <= nt; ++i) m.push_back(mkop(T_JOIN, i));
    for (size_t f = 0; f < spec.size(); ++f) if (r.chance(loc ? .1 : .5)) m.push_back(lookup((int)f));
    if (loc && r.chance(.9)) for (int k = 0; k < 12; ++k) m.push_back(mkop(L_DEL, k));
    if (!dl.empty() && r.chance(load ? .1 : .05))
    {
      // Things that can be repeated for ever.
      Ops o;
      bool cycle = r.chance(.7), two = r.chance(.3);
      int f = dl[r.below(dl.size())], g = dl[r.below(dl.size())];
      auto add_open = [&](int x) { Op q = open(); q.a[0] = x; q.a[1] = RTLD_NOW; std::string n = spec[(size_t)x].substr(0, spec[(size_t)x].find(' ')); q.s = "/sim/o" + std::to_string(x) + "/" + n; o.push_back(q); };
      if (cycle) { add_open(f); if (two) add_open(g); }
      for (int k = 1 + (int)r.below(3); k > 0; --k)
        if (r.chance(.3)) { Op l = lookup1(f); o.push_back(mkop(L_PC, 7, l.a[0], l.a[1])); o.push_back(mkop(L_DEL, 7)); }
        else o.push_back(lookup1(r.chance(.8) ? f : -1));
      if (cycle) { o.push_back(mkop(DL_CLOSE, f)); if (two) o.push_back(mkop(DL_CLOSE, g)); }
      c.n["tail"] = (long)c.threads.size();
      c.n["repeat"] = r.chance(cycle ? .8 : .7) ? 10 : 160;
      c.threads.push_back(o);
    }
    }
  params:
    auto& q = c.p;
    q.seed = r.next() >> 1;
    static int const st[] = {1, 1, 2, 3, 3, 4, 4};
    q.strategy = st[r.below(7)];
    static double const ps[] = {.02, .1, .3, .6};
    q.p = q.strategy == 2 ? .01 + .05 * r.u() : ps[r.below(4)];
    q.depth = 1 + (int)r.below(4);
    q.horizon = 500ull << r.below(8);
    q.reuse = r.chance(.3);
    auto fault = [&](rt::Fault f, int nth, long v) { q.faults.push_back({f, nth, v}); };
    if (load || r.chance(.1))
    {
      if (r.chance(.3)) fault(rt::F_DLOPEN_FAIL, (int)r.below(6), 0);
      if (r.chance(.3)) fault(rt::F_DLCLOSE_FAIL, (int)r.below(4), r.chance(.5) ? 0 : 7);
      if (r.chance(.1)) fault(rt::F_DLINFO_FAIL, (int)r.below(3), 0);
    }
    if (bad || (globals && r.chance(.2)))
    {
      static int const errs[] = {EMFILE, ENFILE, EACCES, EIO, ENOENT};
      for (int k = (int)r.below(4); k > 0; --k) fault(rt::F_OPEN, (int)r.below(12), errs[r.below(5)]);
      for (int k = r.chance(.5) ? (int)r.below(4) : 0; k > 0; --k) fault(rt::F_MMAP, (int)r.below(8), 0);
      for (int k = r.chance(.5) ? (int)r.below(4) : 0; k > 0; --k) fault(rt::F_READ, (int)r.below(24), EIO);
    }
    if (bad || r.chance(.15))
    {
      static rt::Fault const dw[] = {rt::F_DW_OPEN, rt::F_DW_LOAD, rt::F_DW_NAME, rt::F_DW_SCOPES, rt::F_DW_LOOK};
      for (rt::Fault f : dw)
        for (int k = r.chance(bad ? .25 : .4) ? 1 + (int)r.below(3) : 0; k > 0; --k) fault(f, (int)r.below(f == rt::F_DW_LOAD || f == rt::F_DW_NAME ? 1u << r.below(10) : f == rt::F_DW_OPEN ? 6 : 20), 0);
    }
    if (bad || r.chance(.1))
    {
      for (int k = r.chance(.3) ? (int)r.below(4) : 0; k > 0; --k) fault(rt::F_SHORT_READ, (int)r.below(24), (long)r.below(100));
      for (int k = r.chance(.3) ? (int)r.below(4) : 0; k > 0; --k) fault(rt::F_EINTR_READ, (int)r.below(24), 0);
    }
  }
  template <class L, class O, class C>
  void generate_globals(Rng& r, Case& c, L lookup, O open, C close)
  {
    static char const* const phases[] = {"pre.first", "pre.last", "", "post.last", "post.first", "post.late"};
    long id = 0;
    c.n["reverse"] = r.chance(.3);
    if (r.chance(.5)) c.n["rlim"] = r.chance(.2) ? 0 : (long)r.below(1 << 24);
    if (r.chance(.2)) c.n["nomsgs"] = 1 + r.chance(.3);
    if (r.chance(.3)) c.n["printload"] = 1;
    double dens = r.u();
    bool quiet = c.threads.size() > 1 && r.chance(.25);
    if (quiet) c.n["printload"] = 0;
    bool trace = !quiet && r.chance(.3);
    for (int ph = 0; ph < 6; ++ph)
    {
      Ops o;
      bool first = ph == 0 || ph == 4;
      auto stmt = [&]() {
        Op s = r.chance(.25) ? mkop(S_ALWAYS) : mkop(S_DOUT, 0, (long)r.below(first ? 4 : NCHAN));
        if (!first && r.chance(.3)) s.a[0] = (long)r.below(NOBJ);
        s.sub.push_back(mkops(I_TEXT, "text" + std::to_string(++id)));
        if (r.chance(.2)) { s.sub.push_back(lookup(-1)); s.sub.push_back(mkops(I_TEXT, "+" + std::to_string(id))); }
        return s;
      };
      auto one = [&]() {
        double u = r.u();
        if (quiet && (u < .33 || (u >= .37 && u < .45) || (u >= .57 && u < .68))) return r.chance(.7) ? lookup(-1) : open();
        long ob = first ? 0 : r.chance(.7) ? 0 : (long)r.below(NOBJ), ch = (long)r.below(first ? 4 : NCHAN);
        if (u < .25) return stmt();
        if (u < .33) return mkop(O_ON, ob);
        if (u < .37) return mkop(O_OFF, ob);
        if (u < .45) return mkop(C_ON, 0, ch);
        if (u < .49) return mkop(C_OFF, 0, ch);
        if (u < .53) return mkop(r.chance(.5) ? O_STATE : C_STATE, ob, ch);
        if (u < .57) return mkop(OS_SET, ob, r.chance(.7) ? 0 : 7);
        if (u < .585 && r.chance(.5)) { static int const k[] = {FLUSH_ON, FLUSH_OFF, M_ASSIGN, M_APPEND, K_ASSIGN, IND_SET, IND_INC, OS_GET, D_FMT}; Op f = mkops(k[r.below(9)], "", ob, (long)r.below(6)); if (f.code == M_ASSIGN || f.code == M_APPEND || f.code == K_ASSIGN) { static char const* const x[] = {"", "> ", "| ", "--", ": ", "\t"}; f.s = x[r.below(6)]; } return f; }
        if (u < .60 && trace) return mkop(G_CALL, 0, r.chance(.6));
        if (u < .64) { Op f = r.chance(.5) ? mkop(O_FORCE, ob) : mkop(C_FORCE, 0, ch); for (int k = (int)r.below(3); k > 0; --k) f.sub.push_back(stmt()); return f; }
        if (u < .68) return mkop(r.chance(.6) ? R_CHANS : R_OBJS);
        if (u < .71) { static char const* const l[] = {"NOTICE", "WARNING", "DEBUG", "ELFUTILS", "SYSTEM", "ALPHA", "FOO", "NOTIFY", "NONE"}; return mkops(R_FIND, l[r.below(9)]); }
        if (u < .74) return mkop(INITIALIZE);
        if (u < .85) { Op l = lookup(-1); if (r.chance(.5)) return l; Op p = mkop(L_PRINT); p.a[5] = ++id; p.sub.push_back(l); return p; }
        return r.chance(.6) ? open() : close();
      };
      int n = r.chance(.2) ? 0 : (int)(r.below(10) * dens);
      if (ph == 0 && n) { double u = r.u(); o.push_back(u < .5 ? mkop(INITIALIZE) : u < .7 ? lookup(-1) : u < .85 || quiet ? open() : mkop(O_FORCE)); }
      if (ph < 2 && n && !quiet && r.chance(.6)) { o.push_back(mkop(O_ON)); if (trace) o.push_back(mkop(G_CALL, 0, 1)); }
      if (ph == 2 && r.chance(.95)) o.push_back(mkop(MAIN_REACHED));
      std::vector<Op> looked;
      if (ph == 2) for (auto& l : c.threads) for (auto& q : l) if (q.code == L_LOOKUP) looked.push_back(q);
      for (auto& q : looked) o.push_back(q);
      if (r.chance(.1)) o.push_back(util::generate(r));
      if (ph == 5) { for (int k = (int)r.below(3); k > 0; --k) o.push_back(close()); }
      else for (int k = 0; k < n; ++k) o.push_back(one());
      if (ph == 2) { c.threads[0] = o; continue; }
      if (o.empty()) continue;
      c.n[phases[ph]] = (long)c.threads.size();
      c.threads.push_back(o);
    }
    if (quiet)
    {
      // A thread that exists for a while, possibly before main is reached.
      int ph = (int)r.below(3);
      Ops* o = ph == 2 ? &c.threads[0] : c.n.count(phases[ph]) ? &c.threads[(size_t)c.n[phases[ph]]] : nullptr;
      if (o)
      {
        Ops& t = c.threads[1];
        for (int k = 1 + (int)r.below(4); k > 0; --k) { double u = r.u(); t.push_back(u < .1 ? util::generate(r) : u < .7 ? lookup(-1) : u < .9 ? open() : close()); }
        size_t a = (ph == 2 && !o->empty()) + r.below(o->size() + (ph != 2 || o->empty())), b = a + r.below(o->size() + 1 - a);
        o->insert(o->begin() + (long)b, mkop(T_JOIN, 1));
        o->insert(o->begin() + (long)a, mkop(T_SPAWN, 1));
      }
    }
    if (r.chance(.06)) c.p.faults.push_back({rt::F_RLIMIT, (int)r.below(2), r.chance(.5) ? (long)EPERM : (long)EINVAL});
  }
  static bool is_path(rt::LiveBlock const& b)
  {
    for (auto& f : ldr::files) if (b.n == f.path.size() + 1 && !memcmp(b.p, f.path.c_str(), b.n)) return true;
    return false;
  }
  void run(Case const& c) override
  {
    bool globals = c.profile == "pre";
    if (globals) HK = PHK = new PreHooks(c); else HK = new SymHooks(c);
    rt::begin(c.p);
    rt::set_terminate_handler(on_terminate);
    ldr::setup(c, HK);
    if (globals) world::global_hook = on_global;
    load_sut(globals && c.num("reverse") ? "sutr.so" : "sut.so");
    sut.init(HK);
    HK->first_alloc = rt::alloc_seq();
    uint64_t leak_seq = rt::alloc_seq();
    { rt::OutRt o; sut.run(HK, c.threads[0]); }
    if (c.num("tail") > 0 && (size_t)c.num("tail") < c.threads.size() && rt::alone())
    {
      std::vector<size_t> blocks, bytes;
      for (long i = 0; i < c.num("repeat"); ++i)
      {
        { rt::OutRt o; sut.run(HK, c.threads[(size_t)c.num("tail")]); }
        // Each time that an object file is loaded its name is stored again.
        size_t n = 0, b = 0;
        for (auto& x : rt::live_since(leak_seq)) if (is_path(x)) { ++n; b += x.n; }
        blocks.push_back(rt::live_blocks() - n); bytes.push_back(rt::live_bytes() - b);
      }
      rt::probe(PR_REPEAT);
      rt::check_growth(blocks, bytes);
    }
    if (globals) { rt::OutRt o; sut.finalize(); PHK->phase("post.late"); }
    HK->resources(true);
    HK->loc_leaks();
    // The names of object files are kept for ever, as documented (the locations in them may still be used).
    rt::check_leaks(leak_seq, is_path);
    rt::finish_ok();
  }
};
SymEngine sym_engine;
struct RegSym { RegSym() { register_engine("sym", &sym_engine); } } reg_sym;

} // namespace
