#include "loader.h"
#include "util.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <elfutils/libdw.h>
#include <elfutils/libdwfl.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace ldr {

std::vector<Fixture> fixtures;
bool on;
std::vector<File> files;
std::vector<Obj*> objs;
uint64_t seq = 1;
bool main_reached;
int place;
app::Hooks* hooks;
Case const* cs;

static char load_lock, write_lock;      // glibc's dl_load_lock and dl_load_write_lock
static std::vector<link_map*> free_lm;
static bool reuse_handles;
static std::vector<Frame*> frames[rt::MAXT];
static int dwio[rt::MAXT];              // this thread is inside libdw
static std::map<int, int> fds;          // descriptor -> file
struct Handle { int file; bool live; uintptr_t key; };
static std::map<void*, Handle> dwarfs;  // Dwarf*
static std::map<void*, void*> cus;      // Dwarf_CU* -> Dwarf*
static std::map<void*, void*> lines;    // Dwarf_Line* -> Dwarf*
static int dwfls;

bool Obj::covers(uintptr_t a) const
{
  for (auto& p : fixtures[files[file].fx].ph)
    if (p.p_type == PT_LOAD && p.p_memsz && a >= base + p.p_vaddr && a < base + p.p_vaddr + p.p_memsz) return true;
  return false;
}

void load_table()
{
  if (!fixtures.empty()) return;
  std::ifstream f(out_dir + "/fx/table");
  std::string l;
  while (std::getline(f, l))
  {
    std::stringstream s(l);
    std::string k;
    s >> k;
    auto dash = [](std::string const& x) { return x == "-" ? std::string() : x; };
    if (k == "file") { fixtures.push_back({}); s >> fixtures.back().name; fixtures.back().lo = ~0ull; }
    else if (k == "ph")
    {
      Fixture& x = fixtures.back();
      Elf64_Phdr p{};
      unsigned long t, fl;
      s >> t >> fl >> p.p_vaddr >> p.p_memsz >> p.p_filesz >> p.p_offset >> p.p_align;
      p.p_paddr = p.p_vaddr;
      p.p_type = (Elf64_Word)t; p.p_flags = (Elf64_Word)fl;
      x.ph.push_back(p);
      if (p.p_type == PT_LOAD && p.p_memsz) { x.lo = std::min<uint64_t>(x.lo, p.p_vaddr); x.hi = std::max<uint64_t>(x.hi, p.p_vaddr + p.p_memsz); }
    }
    else if (k == "a")
    {
      Row r;
      std::string elf, inl, phys, file, ln;
      s >> r.lo >> r.hi >> elf >> inl >> phys >> file >> ln;
      std::stringstream e(dash(elf)); std::string x;
      while (std::getline(e, x, ',')) r.elf.push_back(x);
      r.inl = dash(inl); r.phys = dash(phys); r.file = dash(file);
      r.dw = !r.file.empty();
      std::stringstream n(dash(ln));
      while (std::getline(n, x, ',')) r.lines.push_back(atol(x.c_str()));
      fixtures.back().rows.push_back(r);
    }
  }
  if (fixtures.empty()) { fprintf(stderr, "no fixture table\n"); exit(3); }
  Fixture d = fixtures[(size_t)fixture("data.so")];
  Fixture v; v.name = "linux-vdso.so.1"; v.ph = d.ph; v.lo = d.lo; v.hi = d.hi;
  Elf64_Phdr z{}; z.p_type = PT_LOAD; z.p_vaddr = d.lo + 16; v.ph.push_back(z);   // a segment without size
  fixtures.push_back(v);
  Fixture e; e.name = "empty.so"; z.p_type = PT_NOTE; z.p_memsz = 64; e.ph.push_back(z); e.lo = 0; e.hi = 64;   // nothing is loaded
  fixtures.push_back(e);
}
int fixture(std::string const& name)
{
  for (size_t i = 0; i < fixtures.size(); ++i) if (fixtures[i].name == name) return (int)i;
  return -1;
}

Obj* obj_of(int file) { for (Obj* o : objs) if (o->file == file && o->mapped()) return o; return nullptr; }
Obj* mapped_at(uintptr_t a) { for (Obj* o : objs) if (o->mapped() && o->covers(a)) return o; return nullptr; }
std::vector<Obj*> unreachable(bool claimed)
{
  std::set<Obj*> keep;
  std::vector<Obj*> todo;
  for (Obj* o : objs)
    if (o->mapped() && (files[o->file].startup || o->nodelete || !files[o->file].unloadable || (claimed ? o->claimed : o->refs) > 0)) todo.push_back(o);
  while (!todo.empty())
  {
    Obj* o = todo.back(); todo.pop_back();
    if (!keep.insert(o).second) continue;
    for (int d : files[o->file].deps) if (Obj* q = obj_of(d)) todo.push_back(q);
  }
  std::vector<Obj*> r;
  for (Obj* o : objs) if (o->mapped() && !keep.count(o)) r.push_back(o);
  return r;
}
int open_fds(int file) { int n = 0; for (auto& f : fds) n += f.second == file; return n; }
int open_fds_total() { return (int)fds.size(); }
int live_dwarf(int file) { int n = 0; for (auto& d : dwarfs) n += d.second.live && d.second.file == file; return n; }
int live_dwfl() { return dwfls; }
void push(Frame* f) { frames[rt::tid()].push_back(f); }
void pop() { frames[rt::tid()].pop_back(); }

static int sim_path(char const* path, std::string& real, bool& debug);
static uintptr_t choose_base(File& f)
{
  Fixture& x = fixtures[f.fx];
  uint64_t span = x.hi - x.lo;
  static uintptr_t bump = 0x10000100000;
  uintptr_t at;
  switch (place)
  {
    case 0:                                // always the same place
      if (!f.slot) { f.slot = bump; bump += (span + 0x1fff) & ~0xfffull; }
      at = f.slot;
      break;
    case 1: case 2:                        // first fit
    {
      uint64_t gap = place == 1 ? 0 : 0x1000;
      std::vector<std::pair<uintptr_t, uintptr_t>> used;
      for (Obj* o : objs) if (o->mapped() && files[o->file].path != files[0].path) { Fixture& y = fixtures[files[o->file].fx]; used.push_back({o->base + y.lo, o->base + y.hi}); }
      std::sort(used.begin(), used.end());
      at = 0x10000100000;
      for (auto& u : used) { if (at + span + gap <= u.first) break; at = std::max(at, u.second + gap); }
      break;
    }
    case 4:                                // first fit of every segment: also between the segments of other objects
    {
      std::vector<std::pair<uintptr_t, uintptr_t>> used;
      auto segs = [](Fixture& y, uintptr_t base, auto fn) { if (y.name == "empty.so") fn(base, base + 0x1000); for (auto& p : y.ph) if (p.p_type == PT_LOAD && p.p_memsz) fn((base + p.p_vaddr) & ~0xfffull, (base + p.p_vaddr + p.p_memsz + 0xfff) & ~0xfffull); };
      for (Obj* o : objs) if (o->mapped()) segs(fixtures[files[o->file].fx], o->base, [&](uintptr_t a, uintptr_t b) { used.push_back({a, b}); });
      std::vector<uintptr_t> cand;
      for (auto& u : used) cand.push_back(u.second);
      std::sort(cand.begin(), cand.end());
      at = cand.empty() ? bump : cand.back();
      for (uintptr_t t : cand)
      {
        bool ok = true;
        segs(x, t - (x.lo & ~0xfffull), [&](uintptr_t a, uintptr_t b) { for (auto& u : used) ok &= b <= u.first || a >= u.second; });
        if (ok) { at = t; break; }
      }
      at += x.lo & 0xfff;
      break;
    }
    default: at = bump; bump += (span + 0x2fff) & ~0xfffull; break;
  }
  at -= x.lo;
  for (Obj* o : objs) if (!o->mapped() && o->base == at) { rt::count_fault(rt::F_ADDR_REUSE); break; }
  return at;
}
static Obj* map_file(int i)
{
  File& f = files[i];
  Obj* o = new Obj;
  o->file = i;
  o->base = i == 0 ? (cs->num("base0") ? 0 : 0x10000000000) : choose_base(f);
  if (reuse_handles && !free_lm.empty()) { o->lm = free_lm.back(); free_lm.pop_back(); }
  else o->lm = (link_map*)calloc(1, sizeof(link_map));
  o->name = i == 0 ? "" : f.path;
  o->lm->l_addr = o->base;
  o->lm->l_name = (char*)o->name.c_str();
  o->map_seq = ++seq;
  objs.push_back(o);
  rt::note("map %s at %lx", f.path.c_str(), o->base);
  return o;
}

void setup(Case const& c, app::Hooks* h)
{
  cs = &c; hooks = h; place = (int)c.num("place"); reuse_handles = c.num("rehandle");
  for (int i = 0;; ++i)
  {
    auto it = c.t.find("lib." + std::to_string(i));
    if (it == c.t.end()) break;
    std::stringstream s(it->second);
    std::string name, x;
    s >> name;
    File f;
    f.fx = fixture(name);
    if (f.fx < 0) rt::harness_error("unknown fixture " + name);
    std::string pad = c.num("longpath") && i == 0 ? "/" + std::string((size_t)c.num("longpath"), 'p') : "";
    f.path = name == "linux-vdso.so.1" ? name : "/sim/o" + std::to_string(i) + pad + "/" + name;
    while (s >> x)
    {
      size_t e = x.find('=');
      std::string k = x.substr(0, e), v = e == std::string::npos ? "" : x.substr(e + 1);
      if (k == "startup") f.startup = true;
      else if (k == "locked") f.unloadable = false;
      else if (k == "deps") { std::stringstream d(v); std::string y; while (std::getline(d, y, ',')) f.deps.push_back(atoi(y.c_str())); }
      else if (k == "ctor") f.ctor = atoi(v.c_str());
      else if (k == "dtor") f.dtor = atoi(v.c_str());
      else if (k == "variant") f.variant = atoi(v.c_str());
      else if (k == "dvariant") f.dvariant = atoi(v.c_str());
      else if (k == "vval") f.vval = atol(v.c_str());
    }
    files.push_back(f);
  }
  if (files.empty()) rt::harness_error("no files");
  files[0].startup = true;
  // What a startup object needs is a startup object.
  for (bool more = true; more;)
  {
    more = false;
    for (auto& f : files) if (f.startup) for (int d : f.deps) if (!files[(size_t)d].startup) { files[(size_t)d].startup = true; more = true; }
  }
  for (size_t i = 0; i < files.size(); ++i) if (files[i].startup) { Obj* o = map_file((int)i); o->settle_seq = seq; }
  world::path_hook = [](char const* path, std::string& real) { bool debug; return sim_path(path, real, debug) >= 0; };
  on = true;
}

// -----------------------------------------------------------------------------------------------------------------
// dlopen and dlclose of the loader

static int file_of_path(std::string const& p)
{
  // A name without slashes is looked for in the directories of the loader, in the order of the object files here.
  bool bare = p.find('/') == std::string::npos;
  for (size_t i = 0; i < files.size(); ++i) if (files[i].path == p || (bare && files[i].path.substr(files[i].path.rfind('/') + 1) == p)) return (int)i;
  return -1;
}
static void run_ops(int list)
{
  if (list < 0 || (size_t)list >= cs->threads.size() || cs->threads[(size_t)list].empty()) return;
  rt::OutRt o;
  sut.run(hooks, cs->threads[(size_t)list]);
}
static void collect(int i, std::vector<int>& order)
{
  if (obj_of(i) || std::find(order.begin(), order.end(), i) != order.end()) return;
  order.push_back(i);
  for (int d : files[(size_t)i].deps) collect(d, order);
}
// rtdepth is 1 here; the locks are only simulated outside of the runtime.
struct Lock
{
  void* m;
  explicit Lock(void* l) : m(l) { rt::OutRt o; rt::mutex_lock(m, true); }
  ~Lock() { rt::OutRt o; rt::mutex_unlock(m); }
};

static Frame* frame(int kind)
{
  auto& v = frames[rt::tid()];
  Frame* f = v.empty() ? nullptr : v.back();
  if (!f || f->kind != kind || f->calls) rt::violation("loader-called", std::string("the real ") + (kind == 1 ? "dlopen" : "dlclose") + " was called without (or twice for) a call of the application");
  ++f->calls;
  return f;
}
static void* sim_dlopen(char const* name, int flags)
{
  rt::point(rt::P_SYNC);
  rt::InRt g;
  Frame* fr = frame(1);
  if (name != fr->name && (!name || !fr->name || strcmp(name, fr->name))) rt::violation("loader-args", "dlopen was given another name");
  if (flags != fr->flags) rt::violation("loader-args", "dlopen was given flags " + std::to_string(flags) + " instead of " + std::to_string(fr->flags));
  Lock l(&load_lock);
  if (rt::fault(rt::F_DLOPEN_FAIL) >= 0) { rt::note("dlopen fails"); return fr->ret = nullptr; }
  int i = !name || !*name ? 0 : file_of_path(name);
  if (i < 0) return fr->ret = nullptr;
  Obj* o = obj_of(i);
  if (!o)
  {
    if (flags & RTLD_NOLOAD) return fr->ret = nullptr;
    std::vector<int> order;
    collect(i, order);
    std::vector<Obj*> fresh;
    { Lock w(&write_lock); for (int k : order) fresh.push_back(map_file(k)); }
    o = fresh[0];
    ++o->refs;
    if (flags & RTLD_NODELETE) o->nodelete = true;
    for (size_t k = fresh.size(); k-- > 0;) run_ops(files[(size_t)fresh[k]->file].ctor);
  }
  else
  {
    ++o->refs;
    if (flags & RTLD_NODELETE) o->nodelete = true;
  }
  rt::note("dlopen %s -> %d refs", files[(size_t)i].path.c_str(), o->refs);
  return fr->ret = o->lm;
}
static int sim_dlclose(void* handle)
{
  rt::point(rt::P_SYNC);
  rt::InRt g;
  Frame* fr = frame(2);
  if (handle != fr->handle) rt::violation("loader-args", "dlclose was given another handle");
  Lock l(&load_lock);
  long v = rt::fault(rt::F_DLCLOSE_FAIL);
  if (v >= 0) { rt::note("dlclose fails"); return fr->err = v ? (int)v : -1; }
  Obj* o = nullptr;
  for (Obj* x : objs) if (x->mapped() && x->lm == handle) o = x;
  if (!o || (o->refs <= 0 && !files[o->file].startup)) return fr->err = -1;
  if (o->refs > 0) --o->refs;
  // Like glibc: closing something in a destructor that is called by dlclose takes effect when that dlclose continues.
  static bool closing, again;
  if (closing) { again = true; return fr->err = 0; }
  closing = true;
  do
  {
    again = false;
    std::vector<Obj*> dead = unreachable(false);
    for (Obj* d : dead)
    {
      if (d->running_dtor) continue;
      d->running_dtor = true;
      run_ops(files[d->file].dtor);
    }
    {
      Lock w(&write_lock);
      // Something could have been opened again meanwhile.
      for (Obj* d : unreachable(false))
      {
        if (std::find(dead.begin(), dead.end(), d) == dead.end() || !d->mapped()) continue;
        d->unmap_seq = ++seq;
        rt::hb_acquire(d);
        fr->unmapped.push_back(d);
        free_lm.push_back(d->lm);
        rt::note("unmap %s", files[d->file].path.c_str());
      }
      for (Obj* d : dead) d->running_dtor = false;
    }
  } while (again);
  closing = false;
  return fr->err = 0;
}
static void* sim_dlsym_next(char const* n)
{
  if (!strcmp(n, "dlopen")) return (void*)sim_dlopen;
  if (!strcmp(n, "dlclose")) return (void*)sim_dlclose;
  return nullptr;
}

static bool from_sut(void* ra)
{
  if (!on) return false;
  if (sut.hi) return (uintptr_t)ra >= sut.lo && (uintptr_t)ra < sut.hi;
  struct dl_find_object r;
  return _dl_find_object(ra, &r) == 0 && r.dlfo_link_map && strstr(r.dlfo_link_map->l_name, "sut");
}

// -----------------------------------------------------------------------------------------------------------------
// Files

static int sim_path(char const* path, std::string& real, bool& debug)
{
  if (strncmp(path, "/sim/o", 6)) return -1;
  int i = atoi(path + 6);
  if (i < 0 || (size_t)i >= files.size()) return -1;
  std::string p = path;
  std::string const& own = files[(size_t)i].path;
  debug = p == own + ".debug";
  if (p != own && !debug) return -1;
  real = out_dir + "/fx/" + p.substr(p.rfind('/') + 1);
  struct stat st;
  if (syscall(SYS_newfstatat, AT_FDCWD, real.c_str(), &st, 0)) return -1;
  return i;
}
static void fault_seen(int file) { if (file >= 0) files[(size_t)file].faulted = true; }
// Calls of libdw that fail.
// All are looked up at the start: a simulated thread must not wait for the dynamic linker while another one is inside a constructor.
static char const* const real_names[] = {
  "dl_iterate_phdr", "dlinfo", "dlopen", "dwarf_attr_integrate", "dwarf_begin", "dwarf_child", "dwarf_diecu", "dwarf_diename",
  "dwarf_end", "dwarf_formstring", "dwarf_getfuncs", "dwarf_getscopes", "dwarf_getsrc_die", "dwarf_haspc", "dwarf_lineno",
  "dwarf_linesrc", "dwarf_nextcu", "dwarf_offdie", "dwarf_ranges", "dwarf_siblingof", "dwarf_tag", "dwfl_begin", "dwfl_end",
  "dwfl_module_getdwarf", "dwfl_module_info", "dwfl_report_end", "dwfl_report_offline", "realpath"};
static void* real_addr[sizeof real_names / sizeof *real_names];
__attribute__((constructor)) static void find_real()
{
  rt::InRt g;
  for (size_t i = 0; i < sizeof real_names / sizeof *real_names; ++i) real_addr[i] = dlsym(RTLD_NEXT, real_names[i]);
}
static void* real_of(char const* name)
{
  for (size_t i = 0; i < sizeof real_names / sizeof *real_names; ++i) if (!strcmp(real_names[i], name)) return real_addr[i];
  rt::harness_error(name);
}
#define REAL(f) ([]() { static decltype(&::f) p; if (!p) { rt::InRt g_; p = (decltype(&::f))real_of(#f); } return p; }())
int lookup_faults[rt::MAXT], name_faults[rt::MAXT];
static bool next_open_faulty[rt::MAXT];      // it will be of a file that could not be examined
static int in_load[rt::MAXT];
static void file_fault(void* dw)
{
  auto i = dwarfs.find(dw);
  if (i != dwarfs.end()) fault_seen(i->second.file);
}
// What cannot be read once cannot be read the next time either.
static std::set<std::pair<void const*, uint64_t>> unreadable;
static bool load_fails(void* dw, void const* what, uint64_t at, Dwarf_Die* unit = nullptr)
{
  if (!unreadable.count({what, at}) && rt::fault(rt::F_DW_LOAD) < 0) return false;
  unreadable.insert({what, at});
  auto i = dwarfs.find(dw);
  char const* n = unit ? REAL(dwarf_diename)(unit) : nullptr;
  if (n && i != dwarfs.end() && i->second.file >= 0)
  {
    // The rest of the object can still be read.
    char const* b = strrchr(n, '/');
    files[(size_t)i->second.file].lost.insert(b ? b + 1 : n);
  }
  else file_fault(dw);
  return true;
}
// Any function may change errno, also when it succeeds.
struct Clobber { ~Clobber() { errno = EXFULL; } };
static bool name_fails(void* dw)
{
  if (rt::fault(rt::F_DW_NAME) < 0) return false;
  int t = rt::tid();
  if (!in_load[t]) { ++lookup_faults[t]; ++name_faults[t]; return true; }
  file_fault(dw);
  auto i = dwarfs.find(dw);
  if (i != dwarfs.end() && i->second.file >= 0) files[(size_t)i->second.file].misnamed = true;
  return true;
}
static bool look_fails()
{
  if (rt::fault(rt::F_DW_LOOK) < 0) return false;
  ++lookup_faults[rt::tid()];
  return true;
}
static bool dwfl_fails()
{
  if (rt::fault(rt::F_DW_OPEN) < 0) return false;
  return next_open_faulty[rt::tid()] = true;
}

static int sim_open(char const* path)
{
  if (!dwio[rt::tid()]) rt::point(rt::P_IO);
  rt::InRt g;
  std::string real;
  bool debug = false;
  int i = sim_path(path, real, debug);
  if (i >= 0)
  {
    rt::note("open %s", path);
    if (!dwio[rt::tid()] && next_open_faulty[rt::tid()]) { next_open_faulty[rt::tid()] = false; fault_seen(i); }
    long v = rt::fault(rt::F_OPEN);
    if (v >= 0) { fault_seen(i); errno = (int)v; return -1; }
  }
  if (i < 0) { errno = ENOENT; return -1; }
  File& f = files[(size_t)i];
  int var = debug ? f.dvariant : f.variant;
  if (var == V_MISSING) { errno = ENOENT; return -1; }
  if (var == V_FORBIDDEN) { errno = EACCES; return -1; }
  int fd;
  if (var == V_OK) fd = (int)syscall(SYS_openat, AT_FDCWD, real.c_str(), O_RDONLY);
  else
  {
    std::ifstream in(real, std::ios::binary);
    std::stringstream ss; ss << in.rdbuf();
    std::string b = ss.str();
    if (var == V_EMPTY) b.clear();
    if (var == V_TRUNCATED && b.size()) b.resize((size_t)f.vval % b.size());
    if (var == V_CORRUPT && b.size())
    {
      Rng r((uint64_t)f.vval);
      // Damage the header, the section table or the names in it.
      for (int k = 1 + (int)r.below(6); k > 0; --k)
      {
        size_t at = r.chance(.5) ? r.below(64) : b.size() - 1 - r.below(std::min<size_t>(b.size(), 2000));
        b[at] = (char)r.next();
      }
    }
    if (var == V_GARBLED)
    {
      // Damage the names of functions: other characters, or an early end.
      Rng r((uint64_t)f.vval);
      double const p = r.chance(.5) ? 1 : .3;
      for (size_t k = 1; k + 3 < b.size(); ++k)
      {
        if (b[k - 1] || b[k] != '_' || b[k + 1] != 'Z') continue;
        size_t n = strnlen(&b[k], b.size() - k);
        if (n > 2 && r.chance(p))
        {
          std::string g = util::garble(b.substr(k, n), true, r);
          for (char& ch : g) if (ch > 0 && ch < 4) ch = '?';       // these separate the parts of an answer
          b.replace(k, n, g);
        }
        k += n;
      }
    }
    rt::count_fault(rt::F_TRUNCATE);
    fd = memfd_create("sim", 0);
    for (size_t k = 0; k < b.size();) { ssize_t n = write(fd, b.data() + k, b.size() - k); if (n <= 0) rt::harness_error("memfd write"); k += (size_t)n; }
    lseek(fd, 0, SEEK_SET);
  }
  if (fd < 0) rt::harness_error("cannot open " + real);
  fds[fd] = i;
  return fd;
}
static int tracked(int fd) { if (!on) return -1; auto i = fds.find(fd); return i == fds.end() ? -1 : i->second; }
static ssize_t sim_read(int fd, void* buf, size_t n, off_t off, bool at)
{
  if (!dwio[rt::tid()]) rt::point(rt::P_IO);
  rt::InRt g;
  int i = tracked(fd);
  if (rt::fault(rt::F_EINTR_READ) >= 0) { errno = EINTR; return -1; }
  long v = rt::fault(rt::F_READ);
  if (v >= 0) { fault_seen(i); errno = (int)v; return -1; }
  v = rt::fault(rt::F_SHORT_READ);
  if (v >= 0 && n > (size_t)v + 1) n = (size_t)v + 1;
  return at ? syscall(SYS_pread64, fd, buf, n, off) : syscall(SYS_read, fd, buf, n);
}

uintptr_t sut_symbol(char const* name);

// -----------------------------------------------------------------------------------------------------------------
// libdw

static void* dw_of_cu(void* cu) { auto i = cus.find(cu); return i == cus.end() ? nullptr : i->second; }
static void dw_use(void* dw, char const* what, bool write, void* ra)
{
  auto i = dwarfs.find(dw);
  if (i == dwarfs.end()) return;
  if (!i->second.live) rt::violation(std::string("use-after-close@") + what, std::string(what) + " called with data of a Dwarf handle that was closed");
  if (write) rt::access_key(i->second.key, 8, true, ra);
}
struct Call
{
  int t;
  explicit Call() : t(rt::tid()) { ++dwio[t]; }
  ~Call() { --dwio[t]; }
};
static void adopt(Dwarf_Die* d, void* dw) { if (d && d->cu && dw) cus[d->cu] = dw; }

struct FuncsArg { int (*cb)(Dwarf_Die*, void*); void* arg; void* dw; };
static int funcs_cb(Dwarf_Die* d, void* v)
{
  FuncsArg* a = (FuncsArg*)v;
  adopt(d, a->dw);
  int t = rt::tid(), saved = dwio[t], r;
  dwio[t] = 0;
  ++in_load[t];
  { rt::OutRt o; r = a->cb(d, a->arg); }
  --in_load[t];
  dwio[t] = saved;
  return r;
}

// The first search for separate debug information loads the client library of debuginfod. Whoever comes while that goes on does
// without: waiting here for a thread that waits for the loader would be a deadlock of this model, if a constructor does a lookup.
static int dbgd_state;
static void debuginfod()
{
  if (!cs->num("dbgd")) return;
  if (dbgd_state == 0)
  {
    dbgd_state = 1;
    auto op = (void* (*)(char const*, int))sut_symbol("dlopen");
    auto cl = (int (*)(void*))sut_symbol("dlclose");
    Frame f;
    f.kind = 1; f.flags = RTLD_LAZY;
    static std::string name;
    { rt::InRt g; int i = (int)cs->num("dbgd"); name = (size_t)i < files.size() ? files[(size_t)i].path : "/sim/none/libdebuginfod.so.1"; f.name = name.c_str(); push(&f); }
    void* h = op(f.name, f.flags);
    {
      rt::InRt g;
      pop();
      if (h != f.ret) rt::violation("loader-result", "dlopen returned something else than the real dlopen");
      for (Obj* o : objs) if (o->mapped() && o->settle_seq == ~0ull && o->file == cs->num("dbgd")) o->settle_seq = ++seq;
    }
    if (h && cs->num("dbgdclose"))
    {
      Frame c;
      c.kind = 2; c.handle = h;
      { rt::InRt g; push(&c); }
      cl(h);
      { rt::InRt g; pop(); ++seq; for (Obj* o : c.unmapped) o->gone_seq = seq; }
    }
  }
}

} // namespace ldr

using namespace ldr;
#define RA __builtin_return_address(0)
#define SIMULATED (on && rt::in_sim())

extern "C" {

void* dlsym(void* h, char const* name)
{
  static void* (*real)(void*, char const*);
  if (!real) real = (void* (*)(void*, char const*))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
  if (on && h == RTLD_NEXT && from_sut(RA)) if (void* p = sim_dlsym_next(name)) return p;
  return real(h, name);
}
void* dlopen(char const* name, int flags)
{
  int t = rt::tid();
  if (on && t >= 0 && dwio[t]) return nullptr;   // see debuginfod()
  return REAL(dlopen)(name, flags);
}
int dlinfo(void* h, int req, void* arg)
{
  if (!SIMULATED || !from_sut(RA)) return REAL(dlinfo)(h, req, arg);
  rt::point(rt::P_SYNC);
  rt::InRt g;
  long v = rt::fault(rt::F_DLINFO_FAIL);
  if (v >= 0) return -1;
  for (Obj* o : objs) if (o->mapped() && o->lm == h && req == RTLD_DI_LINKMAP) { *(link_map**)arg = o->lm; return 0; }
  return -1;
}
int dl_iterate_phdr(int (*cb)(dl_phdr_info*, size_t, void*), void* data)
{
  if (!SIMULATED || !from_sut(RA)) return REAL(dl_iterate_phdr)(cb, data);
  rt::point(rt::P_SYNC);
  rt::InRt g;
  Lock w(&write_lock);
  std::vector<Obj*> list = objs;
  for (Obj* o : list)
  {
    if (!o->mapped()) continue;
    Fixture& x = fixtures[files[o->file].fx];
    dl_phdr_info i{};
    i.dlpi_addr = o->base;
    i.dlpi_name = o->name.c_str();
    i.dlpi_phdr = x.ph.data();
    i.dlpi_phnum = (Elf64_Half)x.ph.size();
    int r;
    { rt::OutRt out; r = cb(&i, sizeof i, data); }
    if (r) return r;
  }
  return 0;
}
ssize_t readlink(char const* path, char* buf, size_t n)
{
  if (!SIMULATED || strcmp(path, "/proc/self/exe")) return syscall(SYS_readlinkat, AT_FDCWD, path, buf, n);
  rt::point(rt::P_IO);
  rt::InRt g;
  std::string const& p = files[0].path;
  n = std::min(n, p.size());
  std::memcpy(buf, p.data(), n);
  return (ssize_t)n;
}
int open(char const* path, int flags, ...)
{
  va_list ap; va_start(ap, flags);
  int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (on && rt::tid() >= 0 && (dwio[rt::tid()] || rt::in_sim())) return sim_open(path);
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(char const* path, int flags, ...)
{
  va_list ap; va_start(ap, flags);
  int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open(path, flags, mode);
}
int close(int fd)
{
  if (tracked(fd) < 0)
  {
    if (on && rt::in_sim() && from_sut(RA))
    {
      rt::violation("bad-close", "close(" + std::to_string(fd) + ") of a descriptor that is not open");
    }
    return (int)syscall(SYS_close, fd);
  }
  if (rt::in_sim()) rt::point(rt::P_IO);
  rt::InRt g;
  fds.erase(fd);
  return (int)syscall(SYS_close, fd);
}
ssize_t pread(int fd, void* buf, size_t n, off_t off)
{
  if (tracked(fd) < 0) return syscall(SYS_pread64, fd, buf, n, off);
  return sim_read(fd, buf, n, off, true);
}
ssize_t pread64(int fd, void* buf, size_t n, off_t off) { return pread(fd, buf, n, off); }
ssize_t __pread_chk(int fd, void* buf, size_t n, off_t off, size_t) { return pread(fd, buf, n, off); }
ssize_t __pread64_chk(int fd, void* buf, size_t n, off_t off, size_t) { return pread(fd, buf, n, off); }
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
  int i = fd >= 0 ? tracked(fd) : -1;
  if (i >= 0)
  {
    rt::InRt g;
    if (rt::fault(rt::F_MMAP) >= 0) { errno = ENOMEM; return MAP_FAILED; }
  }
  long r = syscall(SYS_mmap, a, n, prot, flags, fd, off);
  return r == -1 ? MAP_FAILED : (void*)r;
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
char* realpath(char const* path, char* out)
{
  if (path && !strncmp(path, "/sim/", 5)) return out ? strcpy(out, path) : strdup(path);
  return REAL(realpath)(path, out);
}

// libdw. Its code runs as one step; what it does to the data behind a handle is seen as one access to that handle.
Dwarf* dwarf_begin(int fd, Dwarf_Cmd cmd)
{
  if (!SIMULATED) return REAL(dwarf_begin)(fd, cmd);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  if (!main_reached) rt::violation("premature-debug-info", "debug information is read before main was reached");
  Dwarf* d = REAL(dwarf_begin)(fd, cmd);
  static uintptr_t key = 0x130000000000;
  if (d) dwarfs[d] = {tracked(fd), true, key += 64};
  return d;
}
int dwarf_end(Dwarf* d)
{
  if (!SIMULATED) return REAL(dwarf_end)(d);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  dw_use(d, "dwarf_end", true, RA);
  int r = REAL(dwarf_end)(d);
  auto i = dwarfs.find(d);
  if (i != dwarfs.end()) i->second.live = false;
  return r;
}
int dwarf_nextcu(Dwarf* d, Dwarf_Off off, Dwarf_Off* next, size_t* hs, Dwarf_Off* ab, uint8_t* as, uint8_t* os)
{
  if (!SIMULATED) return REAL(dwarf_nextcu)(d, off, next, hs, ab, as, os);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  dw_use(d, "dwarf_nextcu", true, RA);
  if (load_fails(d, d, off)) return -1;
  return REAL(dwarf_nextcu)(d, off, next, hs, ab, as, os);
}
Dwarf_Die* dwarf_offdie(Dwarf* d, Dwarf_Off off, Dwarf_Die* die)
{
  if (!SIMULATED) return REAL(dwarf_offdie)(d, off, die);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  dw_use(d, "dwarf_offdie", true, RA);
  Dwarf_Die* r = REAL(dwarf_offdie)(d, off, die);
  if (load_fails(d, d, off, r)) { if (r) std::memset(r, 0, sizeof *r); return nullptr; }
  adopt(r, d);
  return r;
}
ptrdiff_t dwarf_getfuncs(Dwarf_Die* cu, int (*cb)(Dwarf_Die*, void*), void* arg, ptrdiff_t off)
{
  if (!SIMULATED) return REAL(dwarf_getfuncs)(cu, cb, arg, off);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  void* dw = cu ? dw_of_cu(cu->cu) : nullptr;
  dw_use(dw, "dwarf_getfuncs", true, RA);
  if (load_fails(dw, cu ? cu->cu : nullptr, 0, cu)) return -1;
  FuncsArg a{cb, arg, dw};
  return REAL(dwarf_getfuncs)(cu, funcs_cb, &a, off);
}
#define DIE_CALL(die, name, write, call) DIE_CALL_(die, name, write, false, 0, call)
#define DIE_CALL_(die, name, write, fails, fail, call) \
  rt::point(rt::P_SYNC); \
  Clobber k; rt::InRt g; Call c; \
  void* dw = (die) ? dw_of_cu((die)->cu) : nullptr; \
  dw_use(dw, name, write, RA); \
  decltype(call) r; \
  if (fails) r = fail; \
  else r = call;
ptrdiff_t dwarf_ranges(Dwarf_Die* die, ptrdiff_t off, Dwarf_Addr* base, Dwarf_Addr* lo, Dwarf_Addr* hi)
{
  if (!SIMULATED) return REAL(dwarf_ranges)(die, off, base, lo, hi);
  DIE_CALL_(die, "dwarf_ranges", true, load_fails(dw, die ? die->addr : nullptr, (uint64_t)off), -1, REAL(dwarf_ranges)(die, off, base, lo, hi));
  return r;
}
Dwarf_Die* dwarf_diecu(Dwarf_Die* die, Dwarf_Die* res, uint8_t* as, uint8_t* os)
{
  if (!SIMULATED) return REAL(dwarf_diecu)(die, res, as, os);
  DIE_CALL_(die, "dwarf_diecu", false, look_fails(), nullptr, REAL(dwarf_diecu)(die, res, as, os));
  adopt(r, dw);
  return r;
}
int dwarf_getscopes(Dwarf_Die* die, Dwarf_Addr pc, Dwarf_Die** scopes)
{
  if (!SIMULATED) return REAL(dwarf_getscopes)(die, pc, scopes);
  // The caller must free the result, so it is given a block whose use is checked.
  Dwarf_Die* list = nullptr;
  int n;
  {
    DIE_CALL_(die, "dwarf_getscopes", true, rt::fault(rt::F_DW_SCOPES) >= 0, -1, REAL(dwarf_getscopes)(die, pc, &list));
    for (int i = 0; i < r; ++i) adopt(&list[i], dw);
    n = r;
  }
  if (n <= 0) return n;
  *scopes = static_cast<Dwarf_Die*>(malloc(n * sizeof(Dwarf_Die)));
  rt::InRt g;
  memcpy(*scopes, list, n * sizeof(Dwarf_Die));
  free(list);
  return n;
}
int dwarf_child(Dwarf_Die* die, Dwarf_Die* res)
{
  if (!SIMULATED) return REAL(dwarf_child)(die, res);
  DIE_CALL(die, "dwarf_child", true, REAL(dwarf_child)(die, res));
  if (r == 0) adopt(res, dw);
  return r;
}
int dwarf_siblingof(Dwarf_Die* die, Dwarf_Die* res)
{
  if (!SIMULATED) return REAL(dwarf_siblingof)(die, res);
  DIE_CALL(die, "dwarf_siblingof", true, REAL(dwarf_siblingof)(die, res));
  if (r == 0) adopt(res, dw);
  return r;
}
int dwarf_haspc(Dwarf_Die* die, Dwarf_Addr pc)
{
  if (!SIMULATED) return REAL(dwarf_haspc)(die, pc);
  DIE_CALL(die, "dwarf_haspc", true, REAL(dwarf_haspc)(die, pc));
  return r;
}
Dwarf_Attribute* dwarf_attr_integrate(Dwarf_Die* die, unsigned int n, Dwarf_Attribute* res)
{
  if (!SIMULATED) return REAL(dwarf_attr_integrate)(die, n, res);
  DIE_CALL_(die, "dwarf_attr_integrate", true, name_fails(dw), nullptr, REAL(dwarf_attr_integrate)(die, n, res));
  if (r && r->cu && dw) cus[r->cu] = dw;
  return r;
}
char const* dwarf_formstring(Dwarf_Attribute* at)
{
  if (!SIMULATED) return REAL(dwarf_formstring)(at);
  DIE_CALL_(at, "dwarf_formstring", true, name_fails(dw), nullptr, REAL(dwarf_formstring)(at));
  return r;
}
char const* dwarf_diename(Dwarf_Die* die)
{
  if (!SIMULATED) return REAL(dwarf_diename)(die);
  DIE_CALL_(die, "dwarf_diename", true, name_fails(dw), nullptr, REAL(dwarf_diename)(die));
  return r;
}
int dwarf_tag(Dwarf_Die* die)
{
  if (!SIMULATED) return REAL(dwarf_tag)(die);
  DIE_CALL(die, "dwarf_tag", true, REAL(dwarf_tag)(die));
  return r;
}
Dwarf_Line* dwarf_getsrc_die(Dwarf_Die* die, Dwarf_Addr a)
{
  if (!SIMULATED) return REAL(dwarf_getsrc_die)(die, a);
  DIE_CALL_(die, "dwarf_getsrc_die", true, look_fails(), nullptr, REAL(dwarf_getsrc_die)(die, a));
  if (r && dw) lines[r] = dw;
  return r;
}
int dwarf_lineno(Dwarf_Line* l, int* n)
{
  if (!SIMULATED) return REAL(dwarf_lineno)(l, n);
  Clobber k; rt::InRt g; Call c;
  dw_use(lines[l], "dwarf_lineno", false, RA);
  if (look_fails()) return -1;
  return REAL(dwarf_lineno)(l, n);
}
char const* dwarf_linesrc(Dwarf_Line* l, Dwarf_Word* m, Dwarf_Word* n)
{
  if (!SIMULATED) return REAL(dwarf_linesrc)(l, m, n);
  Clobber k; rt::InRt g; Call c;
  dw_use(lines[l], "dwarf_linesrc", false, RA);
  if (look_fails()) return nullptr;
  return REAL(dwarf_linesrc)(l, m, n);
}
Dwfl* dwfl_begin(Dwfl_Callbacks const* cb)
{
  if (!SIMULATED) return REAL(dwfl_begin)(cb);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  if (!main_reached) rt::violation("premature-debug-info", "a search for debug information is started before main was reached");
  if (dwfl_fails()) return nullptr;
  Dwfl* d = REAL(dwfl_begin)(cb);
  if (d) ++dwfls;
  return d;
}
void dwfl_end(Dwfl* d)
{
  if (!SIMULATED) return REAL(dwfl_end)(d);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  if (d) --dwfls;
  REAL(dwfl_end)(d);
}
Dwfl_Module* dwfl_report_offline(Dwfl* d, char const* name, char const* file, int fd)
{
  if (!SIMULATED) return REAL(dwfl_report_offline)(d, name, file, fd);
  rt::point(rt::P_SYNC);
  Clobber k; rt::InRt g; Call c;
  if (dwfl_fails()) return nullptr;
  return REAL(dwfl_report_offline)(d, name, file, fd);
}
int dwfl_report_end(Dwfl* d, int (*f)(Dwfl_Module*, void*, char const*, Dwarf_Addr, void*), void* arg)
{
  if (!SIMULATED || f) return REAL(dwfl_report_end)(d, f, arg);
  Clobber k; rt::InRt g; Call c;
  if (dwfl_fails()) return -1;
  return REAL(dwfl_report_end)(d, f, arg);
}
Dwarf* dwfl_module_getdwarf(Dwfl_Module* m, Dwarf_Addr* bias)
{
  if (!SIMULATED) return REAL(dwfl_module_getdwarf)(m, bias);
  rt::point(rt::P_SYNC);
  debuginfod();
  Clobber k; rt::InRt g; Call c;
  if (dwfl_fails()) return nullptr;
  return REAL(dwfl_module_getdwarf)(m, bias);
}
char const* dwfl_module_info(Dwfl_Module* m, void*** u, Dwarf_Addr* s, Dwarf_Addr* e, Dwarf_Addr* db, Dwarf_Addr* sb, char const** mf, char const** df)
{
  if (!SIMULATED) return REAL(dwfl_module_info)(m, u, s, e, db, sb, mf, df);
  Clobber k; rt::InRt g; Call c;
  return REAL(dwfl_module_info)(m, u, s, e, db, sb, mf, df);
}
} // extern "C"

namespace ldr { uintptr_t sut_symbol(char const* name) { rt::InRt g; return (uintptr_t)dlsym(sut.handle, name); } }
