// What the engines share: the loaded library under test and the simulated operating system around it.
#pragma once
#include "app.h"
#include "rt.h"
#include <cstdint>
#include <map>
#include <string>
#include <vector>

struct Sut
{
  void* handle = nullptr;
  uintptr_t lo = 0, hi = 0;
  void (*init)(app::Hooks*) = nullptr;
  void (*run)(app::Hooks*, std::vector<app::Op> const&) = nullptr;
  char const* (*channel_label)(int) = nullptr;
  void* (*lock)(int) = nullptr;
  void (*lock_destroy)(int) = nullptr;
  void (*finalize)() = nullptr;
};
extern Sut sut;
extern std::string out_dir;       // where the shared objects are
void load_sut(char const* name = "sut.so");
void locate_sut(void* addr);
void prepare_sut(char const* name = "sut.so");   // for loading it in the child

// Runs f as application code (scheduled, observed).
template <class F> auto as_app(F f) { rt::OutRt g; return f(); }

namespace world {
void reset();
// Standard input of the simulated program.
void set_stdin(std::string text, bool error_at_end);
extern long stdin_reads_past_end;

// The simulated file system and environment. Only in effect for the code under test, and only when switched on.
struct VFile
{
  std::string content;
  int mode = 0100644;     // S_IFREG, S_IFDIR, ...
  int open_errno = 0;     // opening it fails
  int stat_errno = 0;
  int access_errno = 0;
};
struct VOpen { std::string path; std::string delivered; bool failed = false, error = false; };
extern bool vfs_on, env_on, vfs_write;     // vfs_write: files can be created
std::string written(std::string const& path);   // current content of a file that was created
extern bool (*path_hook)(char const* path, std::string& real);   // where a path below /sim really is
extern std::map<std::string, VFile> vfs;
extern std::vector<VOpen> opened;        // every opened file, with what was read from it
extern std::map<std::string, std::string> env;
extern long core_limit;                  // hard limit of RLIMIT_CORE, -1 none
extern int rlimit_gets, rlimit_sets;
extern long core_cur;                    // current limit
// Called for the first and the last global object of the program (first.cpp, last.cpp).
extern void (*global_hook)(int which, bool ctor);
extern bool have_pw;
extern std::string pw_dir;
}
