#include <vector>
#include <map>
#include <string>
#include <cmath>
#include <sstream>
#include <iostream>
#include <fstream>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <mpi.h>
#include "simhooks.h"
SimHooks sim_hooks;
// the log is kept quiet while simulations run, except for fatal messages
bool sim_quiet = false;
void (*sim_log_hook)(const char *) = 0; // sees the log text
extern "C" void __wrap_log_printf(const char *fmt, ...) {
  static bool fatal = false;
  if (!strncmp(fmt, "Error at", 8)) fatal = true;
  if (sim_log_hook && !fatal) { char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); sim_log_hook(b); }
  if (sim_quiet && !fatal) return;
  va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a);
}
vpic_simulation *simulation = NULL;
void checkpt_main(vpic_simulation **_simulation) { CHECKPT_PTR(simulation); }
vpic_simulation **restore_main(void) { RESTORE_PTR(simulation); return &simulation; }
void checkpt(const char *fbase, int tag) {
  char fname[1024];
  sprintf(fname, "%s.%i.%i", fbase, tag, world_rank);
  checkpt_objects(fname);
}
void vpic_simulation::user_initialization(int argc, char **argv) { if (sim_hooks.init) sim_hooks.init(this, argc, argv); }
void vpic_simulation::user_particle_injection(void) { if (sim_hooks.particle) sim_hooks.particle(this); }
void vpic_simulation::user_current_injection(void) { if (sim_hooks.current) sim_hooks.current(this); }
void vpic_simulation::user_field_injection(void) { if (sim_hooks.field) sim_hooks.field(this); }
void vpic_simulation::user_diagnostics(void) { if (sim_hooks.diag) sim_hooks.diag(this); }
void vpic_simulation::user_particle_collisions(void) { if (sim_hooks.coll) sim_hooks.coll(this); }
