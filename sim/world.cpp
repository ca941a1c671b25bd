#include "world.h"
#include "rt.h"
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <link.h>
#include <streambuf>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fcntl.h>
#include <pwd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

Sut sut;

namespace {
struct Sym { uintptr_t lo, hi; std::string name; };
std::vector<Sym>* symtab = new std::vector<Sym>;
uintptr_t sym_base;

// "libcwd::Buffer::writeto(std::ostream*, ...)" -> "Buffer::writeto"
std::string short_name(char const* mangled)
{
  int st;
  char* d = abi::__cxa_demangle(mangled, nullptr, nullptr, &st);
  std::string s = d ? d : mangled, r;
  free(d);
  int depth = 0;
  for (size_t i = 0; i < s.size(); ++i)
  {
    if (s.compare(i, 21, "(anonymous namespace)") == 0) { i += 22; continue; }
    char c = s[i];
    if (c == '<' && !r.empty() && r.find("operator") == std::string::npos) { ++depth; continue; }
    if (c == '>' && depth) { --depth; continue; }
    if (depth) continue;
    if (c == '(') break;
    r += c;
  }
  if (r.compare(0, 8, "libcwd::") == 0) r = r.substr(8);
  size_t sp = r.rfind(' ');
  if (sp != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
  return r.substr(0, 48);
}
void load_symbols(std::string const& path)
{
  static std::map<std::string, std::vector<Sym>> tables;
  bool have = tables.count(path);
  symtab = &tables[path];
  if (have) return;
  std::vector<Sym>& syms = *symtab;
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss; ss << f.rdbuf();
  std::string b = ss.str();
  if (b.size() < sizeof(Elf64_Ehdr)) return;
  auto* eh = (Elf64_Ehdr const*)b.data();
  auto* sh = (Elf64_Shdr const*)(b.data() + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; ++i)
    if (sh[i].sh_type == SHT_SYMTAB)
    {
      auto* st = (Elf64_Sym const*)(b.data() + sh[i].sh_offset);
      char const* str = b.data() + sh[sh[i].sh_link].sh_offset;
      for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k)
        if (ELF64_ST_TYPE(st[k].st_info) == STT_FUNC && st[k].st_shndx != SHN_UNDEF && st[k].st_size)
          syms.push_back({st[k].st_value, st[k].st_value + st[k].st_size, str + st[k].st_name});
    }
  std::sort(syms.begin(), syms.end(), [](Sym const& a, Sym const& b) { return a.lo < b.lo || (a.lo == b.lo && a.name < b.name); });
}
std::string symbol_at(uintptr_t off)
{
  off += sut.lo - sym_base;
  std::vector<Sym>& syms = *symtab;
  auto it = std::upper_bound(syms.begin(), syms.end(), off, [](uintptr_t o, Sym const& s) { return o < s.lo; });
  while (it != syms.begin()) { --it; if (off < it->hi) return short_name(it->name.c_str()); if (off - it->lo > 100000) break; }
  return "?";
}
}
std::string out_dir;

void load_sut(char const* name)
{
  std::string path = out_dir + "/" + name;
  static auto real_dlopen = (void* (*)(char const*, int))dlsym(RTLD_NEXT, "dlopen");
  void* h;
  { rt::OutRt g; h = real_dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); }
  if (!h) { fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror()); exit(3); }
  sut.handle = h;
  auto sym = [&](char const* n) { void* p = dlsym(h, n); if (!p) { fprintf(stderr, "no %s in %s\n", n, path.c_str()); exit(3); } return p; };
  sut.init = (decltype(sut.init))sym("app_init");
  locate_sut((void*)sut.init);
  load_symbols(path);
  sut.run = (decltype(sut.run))sym("app_run");
  sut.finalize = (decltype(sut.finalize))sym("app_finalize");
  sut.channel_label = (decltype(sut.channel_label))sym("app_channel_label");
  sut.lock = (decltype(sut.lock))sym("app_lock");
  sut.lock_destroy = (decltype(sut.lock_destroy))sym("app_lock_destroy");
}

void locate_sut(void* addr)
{
  if (sut.lo) return;
  struct Arg { uintptr_t base, lo, hi, at; } a{0, ~0ul, 0, (uintptr_t)addr};
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void* v) {
    Arg& a = *(Arg*)v;
    bool here = false;
    for (int p = 0; p < i->dlpi_phnum; ++p)
      if (i->dlpi_phdr[p].p_type == PT_LOAD && a.at - (i->dlpi_addr + i->dlpi_phdr[p].p_vaddr) < i->dlpi_phdr[p].p_memsz) here = true;
    if (!here) return 0;
    a.base = i->dlpi_addr;
    if (strstr(i->dlpi_name, "sutr.so")) rt::set_coverage(nullptr, 0);      // only the other one is looked at
    for (int p = 0; p < i->dlpi_phnum; ++p)
      if (i->dlpi_phdr[p].p_type == PT_LOAD)
      {
        a.lo = std::min(a.lo, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[p].p_vaddr));
        a.hi = std::max(a.hi, (uintptr_t)(i->dlpi_addr + i->dlpi_phdr[p].p_vaddr + i->dlpi_phdr[p].p_memsz));
      }
    return 1;
  }, &a);
  sut.lo = a.lo; sut.hi = a.hi;
  rt::set_sut_range(sut.lo, sut.hi);
  sym_base = a.base;
  rt::symbol_hook = symbol_at;
}

void prepare_sut(char const* name) { load_symbols(out_dir + "/" + name); }

namespace world {

long stdin_reads_past_end;

namespace {
struct Stdin : std::streambuf
{
  std::string text; size_t i = 0; bool error = false, ended = false;
  char ch[1];
  int underflow() override
  {
    rt::point(rt::P_IO);
    rt::InRt g;
    if (rt::fault(rt::F_STDIN_EOF) >= 0) ended = true;
    if (rt::fault(rt::F_STDIN_ERR) >= 0) { ended = true; throw std::ios_base::failure("simulated read error"); }
    if (ended || i >= text.size()) { ended = true; ++stdin_reads_past_end; return EOF; }
    rt::sleep_ns(100000);
    ch[0] = text[i++];
    setg(ch, ch, ch + 1);
    return (unsigned char)ch[0];
  }
};
}

void set_stdin(std::string text, bool)
{
  Stdin* s = new Stdin;
  s->text = std::move(text);
  std::cin.rdbuf(s);
  std::cin.clear();
}
void reset() { }

bool vfs_on, env_on, vfs_write;
bool (*path_hook)(char const* path, std::string& real);
std::map<std::string, VFile> vfs;
std::vector<VOpen> opened;
std::map<std::string, std::string> env;
long core_limit = -1, core_cur = 0;
int rlimit_gets, rlimit_sets;
void (*global_hook)(int which, bool ctor);
bool have_pw = true;
std::string pw_dir;
static std::map<std::string, int> wfiles;   // created file -> descriptor of it
static std::map<int, bool> wfds;             // descriptors opened for writing
static std::map<int, size_t> fds;     // descriptor -> index in opened

static int vopen(char const* path)
{
  rt::point(rt::P_IO);
  rt::InRt g;
  rt::note("open %s", path);
  opened.push_back({path, "", false, false});
  VOpen& o = opened.back();
  long f = rt::fault(rt::F_OPEN);
  auto i = vfs.find(path);
  int e = i == vfs.end() ? ENOENT : i->second.open_errno;
  if (f >= 0) e = (int)f;
  if (e) { o.failed = true; errno = e; return -1; }
  int fd = memfd_create("sim", 0);
  if (fd < 0) rt::harness_error("memfd_create");
  std::string const& c = i->second.content;
  for (size_t k = 0; k < c.size();) { ssize_t n = write(fd, c.data() + k, c.size() - k); if (n <= 0) rt::harness_error("memfd write"); k += n; }
  lseek(fd, 0, SEEK_SET);
  fds[fd] = opened.size() - 1;
  return fd;
}
static int wopen(char const* path)
{
  rt::point(rt::P_IO);
  rt::InRt g;
  rt::note("create %s", path);
  long f = rt::fault(rt::F_OPEN);
  if (f >= 0) { errno = (int)f; return -1; }
  int fd = memfd_create("simw", 0);
  if (fd < 0) rt::harness_error("memfd_create");
  auto i = wfiles.find(path);
  if (i != wfiles.end()) syscall(SYS_close, i->second);
  wfiles[path] = dup(fd);
  wfds[fd] = true;
  return fd;
}
std::string written(std::string const& path)
{
  auto i = wfiles.find(path);
  std::string r;
  if (i == wfiles.end()) return r;
  char b[512];
  for (long n; (n = syscall(SYS_pread64, i->second, b, sizeof b, r.size())) > 0;) r.append(b, (size_t)n);
  return r;
}
static bool sim_io(bool on) { return on && rt::in_sim(); }

} // namespace world

// -----------------------------------------------------------------------------------------------------------------
// Exported: files and environment

using namespace world;
extern "C" {

char* getenv(char const* name)
{
  if (sim_io(env_on))
  {
    rt::InRt g;
    auto i = env.find(name);
    return i == env.end() ? nullptr : (char*)i->second.c_str();
  }
  size_t n = __builtin_strlen(name);
  for (char** e = environ; e && *e; ++e)
    if (__builtin_strncmp(*e, name, n) == 0 && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
int stat(char const* path, struct stat* st)
{
  std::string real;
  if (path_hook && !strncmp(path, "/sim/", 5)) { if (!path_hook(path, real)) { errno = ENOENT; return -1; } return (int)syscall(SYS_newfstatat, AT_FDCWD, real.c_str(), st, 0); }
  if (!sim_io(vfs_on)) return (int)syscall(SYS_newfstatat, AT_FDCWD, path, st, 0);
  rt::point(rt::P_IO);
  rt::InRt g;
  rt::note("stat %s", path);
  auto i = vfs.find(path);
  int e = i == vfs.end() ? ENOENT : i->second.stat_errno;
  // When it fails nothing is known about the buffer; this would be a regular file.
  if (e) { if (e != ENOENT) rt::count_fault(rt::F_STAT); memset(st, 0x80, sizeof *st); errno = e; return -1; }
  *st = {};
  st->st_mode = i->second.mode;
  st->st_size = (off_t)i->second.content.size();
  return 0;
}
int access(char const* path, int mode)
{
  if (!sim_io(vfs_on)) return (int)syscall(SYS_faccessat, AT_FDCWD, path, mode);
  rt::point(rt::P_IO);
  rt::InRt g;
  rt::note("access %s", path);
  auto i = vfs.find(path);
  int e = i == vfs.end() ? ENOENT : i->second.access_errno;
  if (e) { rt::count_fault(rt::F_ACCESS); errno = e; return -1; }
  return 0;
}
static FILE* sim_fopen(char const* path, char const* mode)
{
  int fd = mode && mode[0] == 'w' && vfs_write ? wopen(path) : vopen(path);
  if (fd < 0) return nullptr;
  rt::InRt g;
  return fdopen(fd, mode);
}
FILE* fopen64(char const* path, char const* mode)
{
  if (sim_io(vfs_on)) return sim_fopen(path, mode);
  static FILE* (*real)(char const*, char const*) = (FILE * (*)(char const*, char const*)) dlsym(RTLD_NEXT, "fopen64");
  return real(path, mode);
}
FILE* fopen(char const* path, char const* mode)
{
  if (sim_io(vfs_on)) return sim_fopen(path, mode);
  static FILE* (*real)(char const*, char const*) = (FILE * (*)(char const*, char const*)) dlsym(RTLD_NEXT, "fopen");
  return real(path, mode);
}
ssize_t read(int fd, void* buf, size_t n)
{
  if (!sim_io(vfs_on)) return syscall(SYS_read, fd, buf, n);
  rt::point(rt::P_IO);
  rt::InRt g;
  auto i = fds.find(fd);
  if (i == fds.end()) return syscall(SYS_read, fd, buf, n);
  if (rt::fault(rt::F_EINTR_READ) >= 0) { errno = EINTR; return -1; }
  long f = rt::fault(rt::F_READ);
  VOpen& o = opened[i->second];
  if (f >= 0) { o.error = true; errno = (int)f; return -1; }
  f = rt::fault(rt::F_SHORT_READ);
  if (f >= 0 && n > (size_t)f + 1) n = (size_t)f + 1;
  ssize_t r = syscall(SYS_read, fd, buf, n);
  if (r > 0) o.delivered.append((char*)buf, (size_t)r);
  return r;
}
ssize_t write(int fd, void const* buf, size_t n)
{
  if (sim_io(vfs_write) && wfds.count(fd))
  {
    rt::point(rt::P_IO);
    rt::InRt g;
    long f = rt::fault(rt::F_WRITE);
    if (f >= 0) { errno = (int)f; return -1; }
    return syscall(SYS_write, fd, buf, n);
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, struct iovec const* v, int n)
{
  if (sim_io(vfs_write) && wfds.count(fd))
  {
    rt::point(rt::P_IO);
    rt::InRt g;
    long f = rt::fault(rt::F_WRITE);
    if (f >= 0) { errno = (int)f; return -1; }
    return syscall(SYS_writev, fd, v, n);
  }
  return syscall(SYS_writev, fd, v, n);
}
int getrlimit(__rlimit_resource_t what, struct rlimit* r)
{
  if (!rt::in_sim() || what != RLIMIT_CORE) return (int)syscall(SYS_prlimit64, 0, what, nullptr, r);
  rt::point(rt::P_IO);
  rt::InRt g;
  ++rlimit_gets;
  long f = rt::fault(rt::F_RLIMIT);
  if (f >= 0) { errno = (int)f; return -1; }
  r->rlim_max = core_limit < 0 ? RLIM_INFINITY : (rlim_t)core_limit;
  r->rlim_cur = core_cur < 0 ? RLIM_INFINITY : (rlim_t)core_cur;
  return 0;
}
int setrlimit(__rlimit_resource_t what, struct rlimit const* r)
{
  if (!rt::in_sim() || what != RLIMIT_CORE) return (int)syscall(SYS_prlimit64, 0, what, r, nullptr);
  rt::point(rt::P_IO);
  rt::InRt g;
  ++rlimit_sets;
  long f = rt::fault(rt::F_RLIMIT);
  if (f >= 0) { errno = (int)f; return -1; }
  core_cur = r->rlim_cur == RLIM_INFINITY ? -1 : (long)r->rlim_cur;
  core_limit = r->rlim_max == RLIM_INFINITY ? -1 : (long)r->rlim_max;
  return 0;
}
void sim_global(int which, int ctor, void (*init)(app::Hooks*), void (*run)(app::Hooks*, std::vector<app::Op> const&))
{
  if (!global_hook) return;
  if (init) { rt::InRt g; sut.init = init; sut.run = run; locate_sut((void*)init); }
  global_hook(which, ctor);
}
uid_t getuid() { return 1000; }
struct passwd* getpwuid(uid_t)
{
  static struct passwd pw;
  static char name[] = "user";
  rt::point(rt::P_IO);
  rt::InRt g;
  if (!have_pw || rt::fault(rt::F_GETPW) >= 0) return nullptr;
  pw.pw_name = name;
  pw.pw_dir = (char*)pw_dir.c_str();
  return &pw;
}
} // extern "C"

