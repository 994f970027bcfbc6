#ifndef SIMHOOKS_H
#define SIMHOOKS_H
#define protected public
#define private public
#include "vpic/vpic.h"
#undef protected
#undef private
struct SimHooks {
  void (*init)(vpic_simulation *, int, char **);
  void (*particle)(vpic_simulation *);
  void (*current)(vpic_simulation *);
  void (*field)(vpic_simulation *);
  void (*diag)(vpic_simulation *);
  void (*coll)(vpic_simulation *);
};
extern SimHooks sim_hooks;
extern void (*sim_log_hook)(const char *);
// the globals of deck/main.cc
extern vpic_simulation *simulation;
void checkpt_main(vpic_simulation **);
vpic_simulation **restore_main(void);
#endif
