// P23: a witness signs only what it was asked for: the block the nodes reported for exactly this request, whatever was asked before or at the same time.
#include "net.h"
#include "prover.h"
#include "secp256k1.h"
#include "ecdsa.h"
#include "sha2.h"
#include "sha3.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
#define NWN 3
static bool     down[NWN], busy;
static int      moves;
static void     node(const wrequest* q, wanswer* a) {
  a->outcome = 1;
  for (int i = 0; i < NWN; i++) {
    if (q->exclude & (1u << i)) continue;
    a->node = i;
    if (down[i]) {
      sim_fault_count("node_down");
      int k = C(4, "how");
      if (k == 0) continue;
      a->outcome = 0;
      if (k == 3) busy = true; // the node answers with an error, which ends the request
      wb_f(&a->body, k == 1 ? "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32602,\"message\":\"invalid argument\"}}" : k == 2 ? "{\"jsonrpc\":\"2.0\",\"id\":1}" : "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32000,\"message\":\"busy\"}}");
      return;
    }
    honest_answer(q, a);
    a->node = i;
    return;
  }
}
static void tick(void) {
  if (moves && W->head < W->head_max - 2 && sim_chance(60, "new-head")) {
    moves--;
    W->head++;
    uint64_t t = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 1) * 1000;
    if (t > sim_now_ms) sim_now_ms = t;
    sim_log("new head %llu", (unsigned long long) W->b[W->head].ex->number);
    sim_fault_count("head_moved");
  }
  if (sim_chance(10, "cleanup")) {
    c4_prover_cache_cleanup(current_ms(), C(2, "size") ? 1ull << 40 : 0);
    sim_fault_count("cache_cleanup");
  }
}
static void u64le(uint8_t* o, uint64_t v) {
  for (int i = 0; i < 8; i++, v >>= 8) o[i] = v;
}
static void sha_pair(const uint8_t* a, uint8_t* o) { sha256_Raw(a, 64, o); }
// what has to be signed for the block
static void expected(const wexec* e, uint8_t data[144], uint8_t root[32]) {
  u64le(data, W->chain_id);
  u64le(data + 8, e->number);
  memcpy(data + 16, e->hash, 32);
  memcpy(data + 48, e->state_root, 32);
  memcpy(data + 80, e->receipts_root, 32);
  memcpy(data + 112, e->tx_root, 32);
  uint8_t l[256] = {0}, t[128], u[64]; // 6 leafs of 8
  memcpy(l, data, 8);
  memcpy(l + 32, data + 8, 8);
  memcpy(l + 64, data + 16, 128);
  for (int i = 0; i < 4; i++) sha_pair(l + 64 * i, t + 32 * i);
  for (int i = 0; i < 2; i++) sha_pair(t + 64 * i, u + 32 * i);
  sha_pair(u, root);
}
typedef struct {
  int  blk;     // -1 unknown block, -2 latest
  int  from;    // the head when it was asked
  char what[80];
} ask;
static bool signed_block(const wout* p, const wexec* e, int user) {
  uint8_t data[144], root[32], pub[65], h[32];
  expected(e, data, root);
  uint8_t* at = memmem(p->proof.d, p->proof.n, data, 144);
  if (!at) return false;
  SIM_REQUIRE(at - p->proof.d > 70, "format", "the witness of block %llu has no room for a signature", (unsigned long long) e->number);
  const uint8_t* sig = at - 1 - 65; // the selector is in between
  int ok = sig[64] < 30 && !ecdsa_recover_pub_from_sig(&secp256k1, pub, sig, root, sig[64] >= 27 ? sig[64] - 27 : sig[64]) && (keccak_256(pub + 1, 64, h), !memcmp(h + 12, W->user_addr[user], 20));
  SIM_REQUIRE(ok, "signature", "the signature of the witness of block %llu is not one of its key", (unsigned long long) e->number);
  return true;
}
static void gen(wreq* r, ask* a) {
  memset(r, 0, sizeof(*r));
  strcpy(r->method, "c4_witness");
  a->from = W->head;
  r->blk  = -1;
  int k   = C(8, "kind");
  if (k == 7) { // a block nobody has
    a->blk = -1;
    if (C(2, "by-hash")) {
      char h[70];
      for (int i = 0; i < 64; i++) h[i] = "0123456789abcdef"[(i * 7 + W->head) & 15];
      h[64] = 0;
      snprintf(a->what, sizeof(a->what), "0x%s", h);
    }
    else {
      unsigned long long x = W->b[W->head_max].ex->number + 1000 + C(4, "far");
      if (C(2, "prefix")) { // one whose digits begin like those of a block which is there
        int i = W->head;
        while (i > 0 && W->b[i].ex->number & 255) i--;
        x = W->b[i].ex->number >> 8;
      }
      snprintf(a->what, sizeof(a->what), "0x%llx", x);
    }
  }
  else if (k == 6) {
    a->blk = -2;
    strcpy(a->what, "latest");
  }
  else {
    a->blk         = W->head - 20 + C(20, "blk");
    const wexec* e = W->b[a->blk].ex;
    if (k < 4) {
      // numbers of different lengths, which differ in the last bytes
      if (C(3, "near") == 2)
        for (int i = W->head; i > 0; i--)
          if (!(W->b[i].ex->number & 255)) {
            a->blk = i;
            break;
          }
      e = W->b[a->blk].ex;
      snprintf(a->what, sizeof(a->what), "0x%llx", (unsigned long long) e->number);
    }
    else {
      strcpy(a->what, "0x");
      for (int i = 0; i < 32; i++) sprintf(a->what + 2 + 2 * i, "%02x", e->hash[i]);
    }
  }
  snprintf(r->args, sizeof(r->args), "[\"blockhash\",\"%s\"]", a->what);
}
void run_witness(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  TICK  = tick;
  int n = 2 + C(6, "batches");
  static wreq old[8];
  static ask  olda[8];
  int         nold = 0;
  for (int i = 0; i < n; i++) {
    int good = C(NWN, "good");
    for (int j = 0; j < NWN; j++) down[j] = j != good && C(2, "down");
    bool  all = false;
    if (C(6, "all-down") == 5) down[good] = all = true;
    moves = C(3, "moves");
    busy  = false;
    int   k = 1 + C(4, "parallel");
    task  pt[4], *tp[4];
    wreq  r[4];
    ask   a[4];
    int   sk[4];
    for (int j = 0; j < k; j++) {
      gen(&r[j], &a[j]);
      if (nold && C(3, "again") == 2) {
        int o = C(nold, "which");
        r[j] = old[o], a[j] = olda[o];
        a[j].from = W->head;
      }
      if (nold < 8) old[nold] = r[j], olda[nold++] = a[j];
      sk[j]   = C(2, "key");
      pcfg pc = {.answer = node, .max_rounds = 100, .witness = W->user_sk[sk[j]], .nwitness = 32};
      task_prover(&pt[j], &r[j], &pc);
      tp[j] = &pt[j];
    }
    tasks_run(tp, k);
    for (int j = 0; j < k; j++) {
      wout* p = &pt[j].out;
      SIM_REQUIRE(!p->stuck, "no-end", "the prover does not come to an end with %s %s", r[j].method, r[j].args);
      if (!p->ok) {
        SIM_REQUIRE(p->error && p->error[0], "no-error", "no witness and no reason");
        SIM_REQUIRE(a[j].blk == -1 || all || busy, "no-witness", "no witness for %s although a good node is there: %s", a[j].what, p->error);
        continue;
      }
      SIM_REQUIRE(a[j].blk != -1, "unknown-block", "a witness was signed for the block %s, which nobody has", a[j].what);
      if (a[j].blk == -2) {
        bool ok = false;
        for (int b = a[j].from; b <= W->head && !ok; b++) ok = signed_block(p, W->b[b].ex, sk[j]);
        SIM_REQUIRE(ok, "stale", "the witness for latest is none of the heads since it was asked for");
      }
      else
        SIM_REQUIRE(signed_block(p, W->b[a[j].blk].ex, sk[j]), "other-block", "the witness for %s is not one of this block", a[j].what);
      sim_stat("witnesses", 1);
    }
    if (C(6, "restart") == 5) process_restart(), store_install(&st, 4), sim_fault_count("restart");
    if (C(3, "wait") == 2) sim_advance(1000 * (1 + C(2000, "wait")));
  }
}
