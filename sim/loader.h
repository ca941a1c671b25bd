// The simulated dynamic loader, the object files on the simulated disk, and the seam around libdw.
#pragma once
#include <set>
#include "case.h"
#include "world.h"
#include <link.h>
#include <string>
#include <vector>

namespace ldr {

// What binutils says about an address range of a fixture.
struct Row
{
  uint64_t lo, hi;
  std::vector<std::string> elf;      // names according to the symbol table
  bool dw = false;                   // covered by debug information
  std::string inl, phys, file;
  std::vector<long> lines;
};
struct Fixture
{
  std::string name;
  std::vector<Elf64_Phdr> ph;
  std::vector<Row> rows;
  uint64_t lo = 0, hi = 0;           // range of the loaded segments
};
extern std::vector<Fixture> fixtures;
void load_table();                   // before the first fork
int fixture(std::string const& name);

enum Variant { V_OK, V_MISSING, V_FORBIDDEN, V_TRUNCATED, V_CORRUPT, V_EMPTY, V_GARBLED };
// A file on the simulated disk that can be loaded.
struct File
{
  int fx = 0;
  std::string path;
  std::vector<int> deps;
  bool startup = false, unloadable = true;
  int ctor = -1, dtor = -1;          // index in Case::threads
  int variant = 0, dvariant = 0;     // of the file itself, of its debug file
  long vval = 0;
  std::set<std::string> lost;        // sources whose compilation unit could not be read
  bool faulted = false;              // an injected fault was seen while reading it
  bool misnamed = false;             // the name of a function could not be read
  uintptr_t slot = 0;
};
extern int lookup_faults[rt::MAXT], name_faults[rt::MAXT]; // failures of libdw that only the running lookup may suffer from
// An object in memory. They are never removed, so that history can be inspected.
struct Obj
{
  int file;
  uintptr_t base;
  link_map* lm;
  std::string name;                  // as reported by the loader
  bool nodelete = false;
  int refs = 0, claimed = 0;         // handles according to the loader, and those that are not being closed
  uint64_t map_seq = 0, settle_seq = ~0ull, unmap_seq = ~0ull, gone_seq = ~0ull;
  bool mapped() const { return unmap_seq == ~0ull; }
  bool running_dtor = false;
  bool covers(uintptr_t a) const;
};
extern bool on;                      // the loader is simulated
extern std::vector<File> files;
extern std::vector<Obj*> objs;       // in load order, including those that are gone
extern uint64_t seq;
extern bool main_reached;
extern int place;                    // how addresses are chosen
extern app::Hooks* hooks;            // for constructors and destructors
extern Case const* cs;

void setup(Case const& c, app::Hooks* h);   // reads the files, maps the startup objects
Obj* mapped_at(uintptr_t a);
Obj* obj_of(int file);               // the mapped object or null
std::vector<Obj*> unreachable(bool claimed);  // mapped objects that nothing keeps loaded
int open_fds(int file);
int live_dwarf(int file);
int live_dwfl();
int open_fds_total();

// One call of dlopen/dlclose by the application.
struct Frame
{
  int kind = 0;                      // 1 dlopen, 2 dlclose
  char const* name = nullptr; int flags = 0; void* handle = nullptr;
  int calls = 0; void* ret = nullptr; int err = 0;
  std::vector<Obj*> unmapped;
};
void push(Frame* f);
void pop();

uintptr_t sut_symbol(char const* name);
} // namespace ldr
