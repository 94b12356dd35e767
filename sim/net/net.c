#include "net.h"
#include "colibri.h"
#include "logger.h"
#include "prover.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

const char* sim_name = "net";
void        sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCFG; i++) world_get(i);
  process_snapshot();
}
void run_probe(void);
void run_adv(void);
void run_sync(void);
void run_honest(void);
void run_byz(void);
void run_crash(void);
void run_failover(void);
void run_witness(void);
void sim_run(const sim_cfg_t* cfg) {
  if (sim_is("PROBE")) return run_probe();
  if (sim_is("P01") || sim_is("P02") || sim_is("P03")) return run_adv();
  if (sim_is("P04")) return run_sync();
  if (sim_is("P11")) return run_honest();
  if (sim_is("P23")) return run_witness();
  if (sim_is("P12")) return run_failover();
  if (sim_is("P05") || sim_is("P06")) return run_crash();
  if (sim_is("P07")) return run_byz();
  sim_error("unknown property %s", cfg->prop);
}
