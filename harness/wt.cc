#include "wt.h"
extern "C" void pbt_worker_setup(void) { WizardsToolkitGenesis("pbt"); }
