// P12: nodes which fail, are unavailable or cannot answer a method are passed over; with one good node the proof is created, without one the prover ends.
#include "net.h"
#include "prover.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
enum { GOOD, DOWN, HTTP_ERR, PARAMS, NO_RESULT, NULL_RECEIPTS, EMPTY_OBJ, BAD_RESULT_KIND, NBEH };
static const char* BN[] = {"good", "down", "http_error", "rpc_-32602", "no_result", "null_receipts", "empty_object", "flaky"};
typedef struct {
  int n, beh[16];
} nset;
static nset     RN, BNODES;
static uint32_t seen_excl;
static int      spent; // transient failures
static bool     lying; // the rpc nodes do not always tell the truth
static void     host(const wrequest* q, wanswer* a) {
  nset* s = q->type == 'r' ? &RN : q->type == 'b' ? &BNODES : NULL;
  if (!s) {
    honest_answer(q, a);
    return;
  }
  a->outcome = 1;
  for (int i = 0; i < s->n; i++) {
    if (q->exclude & (1u << i)) {
      seen_excl++;
      continue;
    }
    int b   = s->beh[i];
    a->node = i;
    if (b == 7) b = spent && C(2, "flaky") ? spent--, DOWN : GOOD;
    if (b == DOWN || b == HTTP_ERR) {
      sim_fault_count(BN[b]);
      continue;
    }
    if (b == NULL_RECEIPTS && (q->type != 'r' || !q->payload || !memmem(q->payload, q->plen, "eth_getBlockReceipts", 20))) b = GOOD;
    if (b == GOOD) {
      honest_answer(q, a);
      a->node = i;
      if (a->outcome) continue; // the node has nothing for it
      if (lying && q->type == 'r' && C(3, "lie") == 2) lie(&a->body);
      return;
    }
    sim_fault_count(BN[b]);
    a->outcome = 0;
    if (b == PARAMS) wb_f(&a->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32602,\"message\":\"invalid argument\"}}");
    else if (b == NO_RESULT) wb_f(&a->body, "{\"jsonrpc\":\"2.0\",\"id\":1}");
    else if (b == NULL_RECEIPTS) wb_f(&a->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}");
    else wb_f(&a->body, "{}");
    return;
  }
}
static bool mk(nset* s, bool rpc) {
  bool good = false;
  s->n      = 1 + C(C(3, "nodes") == 2 ? 16 : 4, "nodes");
  for (int i = 0; i < s->n; i++) {
    s->beh[i] = rpc ? C(8, "behaviour") : (int[]) {GOOD, DOWN, HTTP_ERR, 7}[C(4, "behaviour")];
    if (s->beh[i] == GOOD) good = true;
  }
  if (!good && C(4, "one-good")) s->beh[C(s->n, "good")] = GOOD, good = true;
  return good;
}
void run_failover(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  char cp[67], *cps = cp;
  set_checkpoint(cp, W->b[W->head].final_root);
  int n = 1 + C(4, "batches");
  static wreq old[8]; // requests are asked again
  int         nold = 0;
  for (int i = 0; i < n; i++) {
    bool gr = mk(&RN, true), gb = mk(&BNODES, false);
    spent = C(20, "flaky");
    lying = i + 1 < n && C(3, "lying") == 2;
    char b[200] = "";
    for (int k = 0; k < RN.n; k++) sprintf(b + strlen(b), " %s", BN[RN.beh[k]]);
    sim_log("rpc nodes:%s", b);
    int   k = 1 + C(3, "parallel");
    task  pt[3], *tp[3];
    wreq  r[3];
    for (int j = 0; j < k; j++) {
      gen_request(&r[j], 31, W->head - 20, W->head - 1);
      if (nold && C(3, "again") == 2) r[j] = old[C(nold, "which")];
      if (nold < 8) old[nold++] = r[j];
      pcfg pc = {.answer = host, .max_rounds = 400};
      if (C(2, "code")) pc.flags = 1;
      task_prover(&pt[j], &r[j], &pc);
      tp[j] = &pt[j];
    }
    tasks_run(tp, k);
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      SIM_REQUIRE(!p->stuck, "no-end", "the prover does not come to an end with %s %s after %d rounds", r[j].method, r[j].args, p->rounds);
      if (gr && gb && !lying && has_answer(&r[j]) && req_provable(&r[j], 0) && !(r[j].kind == K_LOGS && empty_logs(&r[j]))) {
        SIM_REQUIRE(p->ok, "no-failover", "no proof for %s %s although a good node is there: %s (rpc:%s)", r[j].method, r[j].args, p->error, b);
        wout v;
        run_verify(&r[j], p->proof.d, p->proof.n, cps, honest_answer, 50, &v);
        cps = NULL;
        SIM_REQUIRE(v.ok, "rejected", "the proof of %s %s was rejected: %s", r[j].method, r[j].args, v.error ? v.error : "stuck");
        const char* d = check_answer(&r[j], v.result, v.nresult);
        SIM_REQUIRE(!d, "wrong-answer", "%s %s: %s", r[j].method, r[j].args, d);
        sim_stat("proven", 1);
      }
      else if (!p->ok)
        SIM_REQUIRE(p->error && p->error[0], "no-error", "the prover failed without a reason");
    }
  }
  sim_stat("excluded node skipped", seen_excl);
}
