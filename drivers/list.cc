#include "drivers.h"
int run_init();
int run_conc();
int run_sweep();
int run_rng();
int run_mte();
int run_fatal();
Driver driver_list[] = {{"init", run_init}, {"conc", run_conc}, {"sweep", run_sweep}, {"rng", run_rng}, {"mte", run_mte}, {"fatal", run_fatal}, {nullptr, nullptr}};
