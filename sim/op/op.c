// OP-Stack: the blocks are proven by the signature of the sequencer. The execution layer of the simulated world serves as L2 chain.
#include "forge.h"
#include "op_chains_conf.h"
#include "ecdsa.h"
#include "prover.h"
#include "secp256k1.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <zstd.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
static const uint64_t CHAINS[] = {10, 8453, 480, 130};
static uint8_t SK[32], EVIL_SK[32], ADDR[20];
static bool    V4, any_frame;

const op_chain_config_t* __real_op_get_chain_config(uint64_t chain_id);
// the chains of the repository, but their sequencers use our key
const op_chain_config_t* __wrap_op_get_chain_config(uint64_t chain_id) {
  static op_chain_config_t c;
  const op_chain_config_t* r = __real_op_get_chain_config(chain_id);
  if (!r || r->chain_id != chain_id) return r;
  c                   = *r;
  c.sequencer_address = (void*) ADDR;
  return &c;
}
static void sign(const uint8_t sk[32], uint64_t chain_id, const wbuf* data, uint8_t sig[65]) {
  uint8_t m[96] = {0}, h[32], by;
  for (int i = 0; i < 8; i++) m[63 - i] = chain_id >> (8 * i);
  w_keccak(data->d, data->n, m + 64);
  w_keccak(m, 96, h);
  ecdsa_sign_digest(&secp256k1, sk, h, sig, &by, NULL);
  sig[64] = by;
}
static void payload(const world* w, const wexec* e, wbuf* out) {
  wbuf p = {0};
  wn_ser(w_payload_node(w, e), &p);
  wb_put(out, e->parent_beacon, 32);
  if (V4) {
    static const int OFF[] = {436, 504, 508};
    for (int i = 0; i < 3; i++) {
      uint32_t v;
      memcpy(&v, p.d + OFF[i], 4);
      v += 32;
      memcpy(p.d + OFF[i], &v, 4);
    }
    wb_put(out, p.d, 528);
    wb_put(out, e->wd_root, 32);
    wb_put(out, p.d + 528, p.n - 528);
  }
  else
    wb_put(out, p.d, p.n);
  free(p.d);
}
static void compress(const wbuf* data, wbuf* out) {
  size_t   cap = ZSTD_compressBound(data->n);
  uint8_t* b   = malloc(cap);
  ZSTD_CCtx* z = ZSTD_createCCtx();
  if (any_frame && C(3, "frame") == 2) ZSTD_CCtx_setParameter(z, ZSTD_c_contentSizeFlag, 0);
  size_t n = ZSTD_compress2(z, b, cap, data->d, data->n);
  ZSTD_freeCCtx(z);
  wb_put(out, b, n);
  free(b);
}
static bool preconf(world* w, const char* block, wbuf* out) {
  int i;
  if (!strcmp(block, "latest"))
    i = w->head;
  else if (!strcmp(block, "pre_latest"))
    i = w->head - 1;
  else if (!strncmp(block, "0x", 2) && strlen(block) == 66 && sim_is("P19")) { // not supported by the server, but an adversary can
    uint8_t h[32];
    w_unhex(block + 2, 64, h, 32);
    i = w_find_hash(w, h);
  }
  else if (!strncmp(block, "0x", 2) && strlen(block) < 20)
    i = w_find_number(w, strtoull(block + 2, NULL, 16));
  else
    return false;
  if (i < 0 || i > w->head) return false;
  wbuf    d = {0};
  uint8_t s[65];
  payload(w, w->b[i].ex, &d);
  sign(SK, w->chain_id, &d, s);
  if (w->canon && w->b[i].ex != w->canon->b[i].ex) { // the adversary does not have the key
    wbuf c = {0};
    switch (w->sign_mode) {
      case SM_BAD_CLAIM_ALL: sign(EVIL_SK, w->chain_id, &d, s); break;
      case SM_ALL_INF: sign(SK, w->chain_id == 10 ? 8453 : 10, &d, s); break; // a block the sequencer signed for another chain
      case SM_ALL_RANDOM: w_keccak(s, 65, s + 1); break;
      case SM_COPY: // the signature of the canonical block
        payload(w, w->canon->b[i].ex, &c);
        sign(SK, w->chain_id, &c, s);
        free(c.d);
        break;
      case SM_ZERO_SIG: memset(s, 0, 65); break;
      default: sign(EVIL_SK, w->chain_id, &d, s), s[64] ^= 1; break;
    }
  }
  compress(&d, out);
  wb_put(out, s, 65);
  free(d.d);
  return true;
}
// called by the simulation of the adversary as well
void op_setup(void) {
  w_preconf = preconf;
  memcpy(SK, W->user_sk[0], 32);
  memcpy(EVIL_SK, W->user_sk[1], 32);
  memcpy(ADDR, W->user_addr[0], 20);
  W->chain_id = CHAINS[C(4, "chain")];
  V4          = C(2, "isthmus");
  any_frame   = C(2, "frames");
  uint8_t none[32];
  w_sha256("", 0, none);
  for (int i = 0; i < W->nb; i++)
    if (W->b[i].ex) memcpy(W->b[i].ex->requests_hash, none, 32);
}
// changed roots need a new signature, which only the sequencer has: mutates what is inside of the payload and keeps the signature
void op_mutate_payload(st* root) {
  st* p = st_find(root, "compressed_zstd");
  if (!p || !p->n) return;
  wbuf     d = {0}, z = {0};
  uint64_t n = ZSTD_getFrameContentSize(p->d, p->n);
  if (n > 1 << 22) n = 1 << 22;
  uint8_t* b = malloc(n);
  size_t   m = ZSTD_decompress(b, n, p->d, p->n);
  if (ZSTD_isError(m)) return;
  wb_put(&d, b, m);
  free(b);
  for (int k = 1 + C(2, "mutations"); k; k--) mutate_bytes(&d);
  compress(&d, &z);
  st_set(p, z.d, z.n);
  sim_fault_count("payload_mutated");
}
static int moves;
static void tick(void) {
  if (moves && W->head < W->head_max - 2 && sim_chance(30, "new-head")) {
    moves--;
    W->head++;
    sim_fault_count("head_moved");
  }
  if (sim_chance(8, "cleanup")) {
    c4_prover_cache_cleanup(current_ms(), C(2, "size") ? 1ull << 40 : 0);
    sim_fault_count("cache_cleanup");
  }
  if (sim_chance(8, "pause")) sim_advance(1000 * (1 + C(900, "pause")));
}
static bool faulty;
static void answer(const wrequest* q, wanswer* a) {
  honest_answer(q, a);
  if (!faulty) return;
  int how = C(10, "node");
  if (how >= 5 && how < 7 && q->type == 'r' && a->body.n > 100) { // a lying node: a digit of a value differs
    lie(&a->body);
  }
  if (how == 7) a->outcome = 1, sim_fault_count("failed_response");
  if (how == 8) {
    mutate_bytes(&a->body);
    sim_fault_count("corrupt_response");
  }
  if (how == 9) {
    a->body.n = C(3, "short") ? C(a->body.n + 1, "len") : C(80, "len") % (a->body.n + 1);
    sim_fault_count("short_response");
  }
}
static void run_op_honest(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  op_setup();
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  TICK   = tick;
  int n  = 2 + C(4, "batches");
  static wreq old[8]; // requests are asked again
  int         nold = 0;
  for (int i = 0; i < n; i++) {
    task pt[4], *tp[4];
    wreq r[4];
    bool must[4];
    int  k = 1 + C(4, "parallel");
    faulty = i + 1 < n && C(3, "faulty") == 2; // faults end: what they left behind must not matter
    moves  = C(3, "moves") ? 0 : 1 + C(3, "moves");
    for (int j = 0; j < k; j++) {
      pcfg pc = {.answer = answer, .max_rounds = 80};
      int  m  = C(3, "mode");
      if (m == 1) pc.flags = 1 << 4;
      if (m == 2) pc.flags = 1 << 1;
      if (C(2, "code")) pc.flags |= 1;
      gen_request(&r[j], 31, W->head - 20, W->head - 1);
      if (j && C(4, "same") == 3) r[j] = r[0];
      if (nold && C(3, "again") == 2) r[j] = old[C(nold, "which")];
      if (nold < 8) old[nold++] = r[j];
      // the server only has blocks by number and the latest ones
      bool by_hash = strstr(r[j].method, "ByHash") && !strstr(r[j].method, "TransactionByHash");
      by_hash |= strstr(r[j].method, "ByBlockHash") || strstr(r[j].args, "\"safe\"") || strstr(r[j].args, "\"finalized\"");
      if (r[j].kind == K_ACCOUNT) {
        char* b = strrchr(r[j].args, ',');
        by_hash |= b && strlen(b) > 60;
      }
      must[j] = !faulty && !by_hash && has_answer(&r[j]) && !(r[j].kind == K_LOGS && empty_logs(&r[j]));
      task_prover(&pt[j], &r[j], &pc);
      tp[j] = &pt[j];
    }
    tasks_run(tp, k);
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      if (must[j]) SIM_REQUIRE(p->ok, "no-proof", "no proof for %s %s: %s", r[j].method, r[j].args, p->error ? p->error : "stuck");
      if (p->ok) {
        if (C(8, "restart") == 7) process_restart(), store_install(&st, 4);
        wout v;
        run_verify(&r[j], p->proof.d, p->proof.n, NULL, answer, 20, &v);
        if (must[j]) {
          SIM_REQUIRE(v.ok, "rejected", "the proof for %s %s was rejected: %s", r[j].method, r[j].args, v.error ? v.error : "stuck");
          const char* d = check_answer(&r[j], v.result, v.nresult);
          SIM_REQUIRE(!d, "wrong-answer", "%s %s: %s\nresult: %.600s", r[j].method, r[j].args, d, v.result);
          sim_stat("answered", 1);
        }
        else if (v.ok) {
          const char* d = sound_answer(&r[j], v.result, v.nresult);
          SIM_REQUIRE(!d, "wrong-answer", "%s %s: %s\nresult: %.600s", r[j].method, r[j].args, d, v.result);
        }
        sim_checked(1);
        out_free(&v);
      }
      out_free(p);
    }
  }
}
const char* sim_name = "op";
void        sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCFG; i++) world_get(i);
  process_snapshot();
}
void run_adv(void);
void sim_run(const sim_cfg_t* cfg) {
  if (sim_is("P19")) return run_adv();
  if (sim_is("P20")) return run_op_honest();
  sim_error("unknown property %s", cfg->prop);
}
