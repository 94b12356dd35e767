// honest end-to-end flows
#include "net.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void run_probe(void) {
  W = world_get(sim_choose(NCFG, "cfg"));
  W->head    = W->head_min + sim_choose(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  char cp[67];
  set_checkpoint(cp, W->b[W->head].final_root);
  for (int i = 0; i < 4; i++) {
    wreq r;
    gen_request(&r, 31, W->head - 20, W->head - 1);
    pcfg c = {.answer = honest_answer, .max_rounds = 50};
    if (sim_choose(2, "code")) c.flags |= 1;
    wout p, v;
    run_prover(&r, &c, &p);
    if (p.ok) {
      run_verify(&r, p.proof.d, p.proof.n, i == 0 ? cp : NULL, honest_answer, 50, &v);
      if (!v.ok && r.kind == K_LOGS && empty_logs(&r)) continue; // nothing to prove
      SIM_REQUIRE(v.ok, "reject", "%s %s: %s", r.method, r.args, v.error ? v.error : "stuck");
      const char* d = check_answer(&r, v.result, v.nresult);
      SIM_REQUIRE(!d, "diff", "%s %s: %s\n%.300s", r.method, r.args, d, v.result);
    }
    else
      SIM_REQUIRE(!has_answer(&r) || !req_provable(&r, 0), "noproof", "%s %s: %s", r.method, r.args, p.error ? p.error : "stuck");
  }
}
