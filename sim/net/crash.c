// P05: crashes at any storage operation with lost and torn writes never make the client trust or return anything that is not canonical.
// P06: once the faults stop, a client gets the canonical answer again after a bounded number of attempts, whatever happened before.
#include "forge.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
static world*   F;
static bool     faulty, refuse;
static void     node(const wrequest* q, wanswer* a) {
  bool upd = q->type == 'b' && strstr(q->url, "light_client/updates");
  if (upd && refuse) {
    a->outcome = 1;
    return;
  }
  int how = faulty ? C(10, "node") : 0;
  if (how == 7 || (how > 5 && q->type == 'c')) {
    a->outcome = 1;
    sim_fault_count("failed_response");
    return;
  }
  if (how == 8 && F) {
    world* k = AW;
    AW       = F;
    honest_answer(q, a);
    AW = k;
    sim_fault_count("forged_response");
    return;
  }
  honest_answer(q, a);
  if (how == 9) {
    mutate_bytes(&a->body);
    sim_fault_count("corrupt_response");
  }
}
static bool prove(const wreq* r, wbuf* out, uint32_t flags) {
  wbuf cs = {0};
  client_state_of(&cs);
  pcfg c = {.answer = honest_answer, .max_rounds = 60, .flags = flags};
  if (flags) c.client_state = cs;
  wout p;
  run_prover(r, &c, &p);
  *out = p.proof;
  return p.ok;
}
static void state_ok(const char* when) {
  const char* d = check_sync_state(true);
  SIM_REQUIRE(!d, "state", "%s: %s", when, d);
}
// verifies several proofs at the same time; a crash ends all of them
static bool crash_verify(wreq* r, wbuf* p, int n, const char* cps, wout* v) {
  static task t[3];
  task*       tp[3];
  STORE->crash_at = STORE->lossy && C(3, "crash") ? (int) C(C(3, "late") ? 16 : 90, "crash-at") : -1;
  for (int i = 0; i < n; i++) tp[i] = t + i;
  crash_armed = true;
  if (setjmp(crash_env)) {
    store_crash(STORE);
    process_restart();
    store_install(STORE, 0);
    sim_log("restart after a crash");
    state_ok("after a crash");
    return false;
  }
  for (int i = 0; i < n; i++) task_verify(t + i, r + i, p[i].d, p[i].n, cps, node, 60);
  tasks_run(tp, n);
  crash_armed     = false;
  STORE->crash_at = -1;
  for (int i = 0; i < n; i++) v[i] = t[i].out;
  return true;
}
static void leftover(sstore* s, const char* key, const wcommittee* c, int format) {
  static uint8_t k[512 * 96 + 32];
  uint32_t       n = 512 * 48;
  memset(k, 0, sizeof(k));
  if (format) {
    keys96(c, k);
    n = 512 * 96;
  }
  else
    memcpy(k, c->keys, n);
  store_put(s, key, k, n + (format == 2 ? 0 : 32));
  store_find(s, key)->leftover = true;
}
void run_crash(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore s = {.crash_at = -1};
  uint32_t      ms = 2 + C(6, "max-states");
  store_install(&s, ms);
  uint32_t hp = w_period(W, W->b[W->head].slot), far = hp - W->first_period, wsp = W->wsp_epochs / (8192 >> W->epoch_bits);
  if (far > wsp) far = wsp;
  char cp[67], *cps = cp;
  int  start = C(5, "start");
  if (start == 0) set_checkpoint(cp, W->b[W->head].final_root);
  else if (start == 1) cps = NULL;
  else {
    uint32_t d = 1 + C(start == 2 ? 2 : far, "behind");
    if (d > far) d = far;
    set_checkpoint(cp, W->b[w_find_slot(W, (uint64_t) (hp - d) * 8192 + 4 * (1 << W->epoch_bits))].root);
  }
  bool once = C(2, "configured-once"); // the checkpoint is passed only with the first call or always
  static const int MODES[] = {SM_BAD_CLAIM_ALL, SM_ALL_INF, SM_ALL_RANDOM, SM_COPY, SM_ZERO_SIG, SM_BAD_CLAIM_342};
  F      = C(2, "forge-committees") ? forge_committees(W, hp, w_com(W, hp - 1)->upd, MODES[C(6, "sign-mode")], 1 + C(255, "what")) : forge_chain(W, W->head - 12, W->head - 7, MODES[C(6, "sign-mode")], 1 + C(1023, "what"));
  // keys of a discarded chain the client does not list anymore, but the storage still holds
  for (int left = F->com != W->com && C(3, "leftover") ? 1 + C(2, "leftovers") : 0; left > 0; left--) {
    char     key[64];
    uint32_t p = hp - left + 1;
    snprintf(key, sizeof(key), "sync_%llu_%u", (unsigned long long) W->chain_id, p);
    leftover(&s, key, w_com(F, p), C(3, "left-format"));
    sim_fault_count("leftover_keys");
  }
  s.lossy = true;
  faulty  = true;
  int n = 3 + C(6, "steps");
  for (int i = 0; i < n; i++) {
    wreq r[3];
    wbuf p[3];
    wout v[3];
    bool good[3];
    int  k = 1 + C(3, "parallel"), m = 0;
    refuse = C(5, "refuse") == 4;
    s.full = C(6, "full") == 5;
    for (int j = 0; j < k; j++) {
      gen_request(&r[m], 31, W->head - 12, W->head - 6);
      bool forged = C(3, "forged") == 2;
      good[m]     = !forged;
      uint32_t fl = C(4, "sync-data") == 3 ? 1 << 5 : 0;
      if (forged) {
        wreq rf = r[m];
        AW      = F;
        translate(&rf, W, F);
        bool ok = prove(&rf, &p[m], fl);
        AW      = NULL;
        if (!ok) continue;
        sim_fault_count("forged_proof");
      }
      else if (!prove(&r[m], &p[m], fl))
        continue;
      m++;
    }
    if (!m) continue;
    if (!crash_verify(r, p, m, cps, v)) store_install(&s, ms);
    else
      for (int j = 0; j < m; j++)
        if (v[j].ok) {
          const char* d = sound_answer(&r[j], v[j].result, v[j].nresult);
          SIM_REQUIRE(!d, "forged-answer", "the verifier accepted a wrong answer for %s %s: %s", r[j].method, r[j].args, d);
          sim_stat("accepted", 1);
        }
    if (once && s.n) cps = NULL;
    state_ok("after a verification");
    if (C(6, "power-loss") == 5) {
      sim_fault_count("power_loss");
      store_crash(&s);
      process_restart();
      store_install(&s, ms);
      state_ok("after a power loss");
    }
    else if (C(6, "restart") == 5) {
      process_restart();
      store_install(&s, ms);
      sim_fault_count("restart");
    }
  }
  if (sim_is("P05")) return;
  // the faults stop
  sim_heal();
  faulty = refuse = false;
  s.lossy         = false;
  s.full          = false;
  // a power loss may have damaged every committee the client lists: it notices one of them per attempt, forgets it and goes on with the others
  char key[40];
  snprintf(key, sizeof(key), "states_%u", (unsigned) W->chain_id);
  sfile* sf    = store_find(&s, key);
  int    bound = 2 + (sf && sf->nvis > 4 ? (int) (sf->nvis - 1) / 4 : 0);
  int    need  = 0;
  for (int i = 0; i < 3; i++) {
    wreq r;
    wbuf p;
    do gen_request(&r, K_ACCOUNT | K_TX | K_BLOCK, W->head - 12, W->head - 6);
    while (!has_answer(&r) || !req_provable(&r, 0));
    if (!prove(&r, &p, C(4, "sync-data") == 3 ? 1 << 5 : 0)) sim_violation("no-proof", "no proof for %s %s", r.method, r.args);
    wout v;
    run_verify(&r, p.d, p.n, cps, node, 60, &v);
    SIM_REQUIRE(!v.stuck, "stuck", "the verification of %s %s does not end", r.method, r.args);
    if (!v.ok) {
      SIM_REQUIRE(need < bound, "no-progress", "%d attempts after the faults stopped the client still rejects %s %s: %s", need + 1, r.method, r.args, v.error);
      need++;
      i = -1;
      continue;
    }
    const char* d = check_answer(&r, v.result, v.nresult);
    SIM_REQUIRE(!d, "wrong-answer", "%s %s: %s", r.method, r.args, d);
  }
  sim_stat("attempts needed", need);
  const char* d = check_sync_state(true);
  SIM_REQUIRE(!d, "state", "at the end: %s", d);
}
