// A global object that is constructed before everything else in the program, and destroyed after it.
#include "app.h"
extern "C" void sim_global(int which, int ctor, void (*init)(app::Hooks*), void (*run)(app::Hooks*, std::vector<app::Op> const&));
static struct First
{
  First() { sim_global(0, 1, app::app_init, app::app_run); }
  ~First() { sim_global(0, 0, nullptr, nullptr); }
} first;
