// Simulator of the shared caches of the proof service: many concurrent proof contexts, a cleanup timer with a virtual
// clock, reorganisations of the chain and slow or failing nodes are interleaved by the seeded scheduler.
#include "caches.h"
#include "../core/sim.h"
const char* sim_name = "caches";
void        sim_warmup(const sim_cfg_t* cfg) {}
void        sim_run(const sim_cfg_t* cfg) {
  if (sim_is("P08")) run_prover_cache();
  else if (sim_is("P09")) run_logs_cache();
  else if (sim_is("P10")) run_tx_cache();
  else sim_error("unknown property");
}
