// A global object that is constructed after everything else in the program, and destroyed first.
#include "app.h"
extern "C" void sim_global(int which, int ctor, void (*init)(app::Hooks*), void (*run)(app::Hooks*, std::vector<app::Op> const&));
static struct Last
{
  Last() { sim_global(1, 1, app::app_init, app::app_run); }
  ~Last() { sim_global(1, 0, nullptr, nullptr); }
} last;
