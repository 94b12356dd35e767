// P11: whatever the order and timing of the responses, the caches, the concurrent requests, the moving head and restarts, an honest prover
// creates a proof for everything that can be proven and the verifier accepts it with the canonical answer.
#include "net.h"
#include "prover.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
typedef struct {
  sstore s;
  char   cp[67], *cps;
} client;
static client* cl;
static int     moves, steps;
static void    tick(void) {
  steps++;
  if (moves && W->head < W->head_max - 2 && sim_chance(30, "new-head")) {
    moves--;
    W->head++;
    uint64_t t = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 1) * 1000;
    if (t > sim_now_ms) sim_now_ms = t;
    sim_log("new head slot %llu", (unsigned long long) W->b[W->head].slot);
    sim_fault_count("head_moved");
  }
  if (sim_chance(8, "cleanup")) {
    c4_prover_cache_cleanup(current_ms(), C(2, "size") ? 1ull << 40 : 0);
    sim_fault_count("cache_cleanup");
  }
  if (sim_chance(8, "pause")) {
    sim_advance(1000 * (1 + C(900, "pause")));
    sim_fault_count("pause");
  }
}
static void new_client(client* c) {
  memset(c, 0, sizeof(*c));
  c->s.crash_at = -1;
  c->cps        = c->cp;
  int m         = C(4, "client");
  if (m == 0) set_checkpoint(c->cp, W->b[W->head].final_root);
  else if (m == 1) c->cps = NULL;
  else {
    uint32_t hp = w_period(W, W->b[W->head].slot), far = hp - W->first_period, wsp = W->wsp_epochs / (8192 >> W->epoch_bits);
    if (far > wsp) far = wsp;
    uint32_t d = m == 2 ? 1 : 1 + C(far, "behind");
    if (d > far) d = far;
    set_checkpoint(c->cp, W->b[w_find_slot(W, (uint64_t) (hp - d) * 8192 + 4 * (1 << W->epoch_bits))].root);
  }
}
static void use_client(client* c) { store_install(&c->s, 4); }
void run_honest(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  int ncl    = 1 + C(2, "clients");
  cl         = calloc(ncl, sizeof(client));
  for (int i = 0; i < ncl; i++) new_client(cl + i);
  TICK = tick;
  int n = 2 + C(3, "batches");
  for (int i = 0; i < n; i++) {
    // a batch of requests is proven at the same time
    task   pt[4], vt[4], *tp[4];
    wreq   r[4];
    bool   must[4], hist[4];
    int    k  = 1 + C(4, "parallel"), head0 = W->head;
    client* c = cl + C(ncl, "client");
    use_client(c);
    moves = C(3, "moves") ? 0 : 1 + C(3, "moves");
    wbuf cs = {0};
    client_state_of(&cs);
    uint32_t lowest = ~0u;
    if (cs.n && cs.d[0] == 1)
      for (uint32_t j = 1; j + 4 <= cs.n; j += 4) {
        uint32_t v;
        memcpy(&v, cs.d + j, 4);
        if (v < lowest) lowest = v;
      }
    for (int j = 0; j < k; j++) {
      pcfg pc = {.answer = honest_answer, .max_rounds = 80};
      hist[j] = false;
      int m   = C(5, "mode");
      if (m == 1 && cs.n && cs.d[0] == 1) { // server like with the state of the client
        pc.flags        = 1 << 3;
        pc.client_state = cs;
        if (C(2, "historic") && lowest >= w_period(W, W->b[W->head].slot)) hist[j] = true;
      }
      if (m == 2) pc.flags = 1 << 5, pc.client_state = cs;
      if (m == 3) pc.flags = 1 << 1;
      if (m == 4) pc.flags = 1 << 4;
      if (C(2, "code")) pc.flags |= 1;
      if (hist[j]) {
        int lo = w_find_slot(W, (uint64_t) W->rich[C(3, "period")] * 8192);
        gen_request(&r[j], 31, lo, lo + 13);
      }
      else
        gen_request(&r[j], 31, W->head - 20, W->head - 1);
      if (j && C(4, "same") == 3 && !hist[0]) r[j] = r[0], hist[j] = false;
      must[j] = has_answer(&r[j]) && req_provable(&r[j], hist[j] ? 0 : w_period(W, W->b[W->head].slot)) && !(r[j].kind == K_LOGS && empty_logs(&r[j]));
      task_prover(&pt[j], &r[j], &pc);
      tp[j] = &pt[j];
    }
    tasks_run(tp, k);
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      if (must[j]) SIM_REQUIRE(p->ok, "no-proof", "no proof for %s %s: %s", r[j].method, r[j].args, p->error ? p->error : "stuck");
      // the proof does not depend on the order of the answers or the caches
      if (p->ok && !r[j].tag && !hist[j] && head0 == W->head && C(3, "again") == 2) {
        wout p2;
        pcfg pc = {.answer = honest_answer, .max_rounds = 80, .flags = 0};
        if (C(2, "restart")) process_restart(), use_client(c);
        // same flags and state as before
        pc.flags = pt[j].flags;
        if (pc.flags & (1 << 3 | 1 << 5)) pc.client_state = cs;
        run_prover(&r[j], &pc, &p2);
        SIM_REQUIRE(p2.ok, "no-proof", "no proof for %s %s the second time: %s", r[j].method, r[j].args, p2.error ? p2.error : "stuck");
        SIM_REQUIRE(p2.proof.n == p->proof.n && !memcmp(p2.proof.d, p->proof.d, p->proof.n), "different-proof", "two proofs of the same request %s %s differ (%u and %u bytes)", r[j].method, r[j].args, p->proof.n, p2.proof.n);
        sim_stat("proven twice", 1);
      }
    }
    if (C(6, "restart") == 5) {
      process_restart();
      use_client(c);
      sim_log("restart of the process");
      sim_fault_count("restart");
    }
    // another client may be the one to verify
    int nv = 0;
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      if (!p->ok) continue;
      task_verify(&vt[j], &r[j], p->proof.d, p->proof.n, c->cps, honest_answer, 60);
      tp[nv++] = &vt[j];
    }
    c->cps = NULL;
    tasks_run(tp, nv);
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      if (!p->ok) continue;
      wout* v = &vt[j].out;
      if (!v->ok && r[j].kind == K_LOGS && empty_logs(&r[j])) continue;
      if (must[j] || r[j].tag) {
        SIM_REQUIRE(v->ok, "rejected", "the proof of %s %s was rejected: %s", r[j].method, r[j].args, v->error ? v->error : "stuck");
      }
      if (v->ok) {
        const char* d = check_answer(&r[j], v->result, v->nresult);
        SIM_REQUIRE(!d, "wrong-answer", "%s %s: %s\n%.300s", r[j].method, r[j].args, d, v->result);
        sim_stat("verified", 1);
      }
    }
    const char* d = check_sync_state(false);
    SIM_REQUIRE(!d, "state", "%s", d);
    if (C(5, "restart") == 4) {
      process_restart();
      sim_log("restart of the process");
      sim_fault_count("restart");
    }
    if (C(4, "wait") == 3) sim_advance(1000 * (1 + C(2000, "wait")));
  }
}
