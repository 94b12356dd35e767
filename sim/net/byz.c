// P07: nothing that arrives from outside (responses of nodes, proofs, requests, client states) crashes, hangs or corrupts the process
#include "forge.h"
#include "prover.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
static int      byz; // share of bad responses

static void splice(wbuf* b, uint32_t at, uint32_t del, const char* ins, uint32_t n) {
  wbuf o = {0};
  if (at > b->n) at = b->n;
  if (at + del > b->n) del = b->n - at;
  wb_put(&o, b->d, at);
  wb_put(&o, ins, n);
  wb_put(&o, b->d + at + del, b->n - at - del);
  *b = o;
}
static void put_rep(wbuf* b, const char* s, int n) {
  while (n--) wb_put(b, s, strlen(s));
}
static void value(wbuf* v) {
  static const char* V[] = {"null", "{}", "[]", "\"\"", "\"0x\"", "-1", "1e99", "18446744073709551616", "\"0xzz\"", "true", "\"0x1\"", "\"\\\"\"", "[null]", "[{}]", "{\"a\":1}", "\"\\u0000\"", "0", "\"0x00000000000000000000000000000000\"", "99999999999999999999999999", "\"123456789012345678901234567890\""};
  int                i   = C(26, "value");
  if (i < 20) wb_put(v, V[i], strlen(V[i]));
  else if (i == 20) wb_put(v, "\"0x", 3), put_rep(v, "ff", 1 + C(700, "len")), wb_put(v, "\"", 1);
  else if (i == 21) put_rep(v, "[", 1 + C(200, "len")), put_rep(v, "]", C(200, "len"));
  else if (i == 22) wb_put(v, "\"", 1), put_rep(v, "A", C(5000, "len")), wb_put(v, "\"", 1);
  else if (i == 23) wb_put(v, "\"0x", 3), put_rep(v, "0", 1 + C(130, "len")), wb_put(v, "\"", 1);
  else if (i == 24) put_rep(v, "{\"a\":", 1 + C(200, "len")), put_rep(v, "}", C(200, "len"));
  else wb_put(v, "\"%s%n%x", 8), wb_put(v, "\"", 1);
}
// finds the extent of the json value starting at p
static uint32_t extent(const wbuf* b, uint32_t p) {
  int  depth = 0;
  bool str   = false;
  for (uint32_t i = p; i < b->n; i++) {
    char c = b->d[i];
    if (str) {
      if (c == '\\') i++;
      else if (c == '"') {
        str = false;
        if (!depth) return i + 1 - p;
      }
      continue;
    }
    if (c == '"') str = true;
    else if (c == '{' || c == '[') depth++;
    else if (c == '}' || c == ']') {
      if (!depth) return i - p;
      if (!--depth) return i + 1 - p;
    }
    else if (c == ',' && !depth) return i - p;
  }
  return b->n - p;
}
static void mutate_json(wbuf* b) {
  if (!b->n) return;
  // a random place where a value starts
  uint32_t p0 = C(b->n, "where"), p = p0;
  while (p < b->n && b->d[p] != ':' && b->d[p] != '[' && b->d[p] != ',') p++;
  if (p >= b->n) {
    p = p0;
    while (p && b->d[p] != ':' && b->d[p] != '[' && b->d[p] != ',') p--;
  }
  uint32_t at = p + 1 < b->n ? p + 1 : p, len = extent(b, at);
  wbuf     v  = {0};
  switch (C(7, "json")) {
    case 0:
    case 1: value(&v); splice(b, at, len, (char*) v.d, v.n); break;
    case 2: splice(b, at, len, "", 0); break;
    case 3: b->n = C(b->n, "cut"); break;
    case 4: // the same again
      wb_put(&v, b->d + at, len);
      wb_u8(&v, ',');
      splice(b, at, 0, (char*) v.d, v.n);
      break;
    case 5: { // an array of many
      if (len > 3000) len = 3000;
      int n = 1 + C(40, "copies");
      while (n--) wb_put(&v, b->d + at, len), wb_u8(&v, ',');
      splice(b, at, 0, (char*) v.d, v.n);
      break;
    }
    default: b->d[C(b->n, "byte")] = "\"{}[],:0x\\ \t\n\0\xff"[C(15, "char")];
  }
}
static bool is_json(const wbuf* b) {
  for (uint32_t i = 0; i < b->n && i < 5; i++)
    if (b->d[i] == '{' || b->d[i] == '[') return true;
  return false;
}
static void spoil(wbuf* b) {
  for (int k = 1 + C(3, "mutations"); k; k--)
    if (is_json(b) && C(8, "json")) mutate_json(b);
    else
      mutate_bytes(b);
}
static wbuf old[8];
static int  nold;
static void byz_node(const wrequest* q, wanswer* a) {
  honest_answer(q, a);
  a->node = C(3, "node") == 2 ? (int) C(20, "node") : 0;
  if (nold < 8 && a->body.n) {
    old[nold].d = NULL, old[nold].n = old[nold].cap = 0;
    wb_put(&old[nold++], a->body.d, a->body.n);
  }
  if (!byz || C(byz, "byzantine")) return;
  int how = C(9, "how");
  switch (how) {
    case 0:
    case 1:
    case 2:
    case 3:
    case 4:
      a->outcome = 0;
      spoil(&a->body);
      sim_fault_count("corrupt_response");
      break;
    case 5:
      a->outcome = 0;
      a->body.n  = 0;
      sim_fault_count("empty_response");
      break;
    case 6:
      a->outcome = 1;
      a->body.n  = 0;
      value(&a->body);
      sim_fault_count("error_text");
      break;
    case 7:
      if (!nold) break;
      a->outcome = 0;
      a->body.n  = 0;
      {
        wbuf* o   = &old[C(nold, "old")];
        a->body.n = 0;
        wb_put(&a->body, o->d, o->n);
      }
      sim_fault_count("foreign_response");
      break;
    default: {
      a->outcome = 0;
      a->body.n  = 0;
      uint64_t s = sim_stream("noise");
      int      n = C(2000, "len");
      for (int i = 0; i < n; i++) wb_u8(&a->body, sim_rand(&s));
      sim_fault_count("noise");
    }
  }
}
static void odd_request(wreq* r) {
  static const char* M[] = {"eth_call", "eth_estimateGas", "eth_proofLogs", "c4_witness", "eth_getBlockReceipts", "colibri_simulateTransaction", "eth_subscribe", "eth_unknown", "eth_getUncleCountByBlockHash", "net_version", "web3_sha3", "eth_getBlockTransactionCountByNumber", "", "eth_getLogs", "eth_getProof", "eth_getStorageAt", "c4_sync", "eth_newFilter", "eth_getFilterChanges", "eth_feeHistory", "eth_createAccessList", "eth_getBlockByHash", "eth_verifyLogs", "eth_sendRawTransaction", "colibri_decodeTransaction", "eth_getTransactionReceipt"};
  int                m   = C(34, "method");
  if (m >= 30) { // a transaction to be decoded
    wexec* e = W->b[W->head - C(10, "block")].ex;
    if (!e->ntxs) return;
    wtx*   t = e->txs + C(e->ntxs, "tx");
    wbuf   b = {0};
    wb_put(&b, t->raw, t->nraw);
    for (int k = C(3, "mutations"); k; k--) mutate_rlp_bytes(&b);
    strcpy(r->method, "colibri_decodeTransaction");
    int n = sprintf(r->args, "[\"0x");
    for (uint32_t i = 0; i < b.n && i < 2900; i++) n += sprintf(r->args + n, "%02x", b.d[i]);
    strcpy(r->args + n, "\"]");
    sim_fault_count("mutated_transaction");
    return;
  }
  if (m < 26) {
    snprintf(r->method, sizeof(r->method), "%s", M[m]);
    if (m == 0 || m == 1 || m == 5) {
      char tx[400];
      snprintf(tx, sizeof(tx), "[{\"to\":\"0x7777777777777777777777777777777777777777\",\"data\":\"0x01020304\",\"from\":\"0x6649242231a36357f35b84740ff8f5ef33824608\",\"value\":\"0x1\"},\"latest\"]");
      strcpy(r->args, tx);
    }
    if (m == 16) sprintf(r->args, "[%u]", w_period(W, W->b[W->head].slot) - C(3, "period"));
    if (m == 3) sprintf(r->args, "[\"0x%llx\"]", (unsigned long long) W->b[W->head - 3].ex->number);
    if (m == 24) strcpy(r->args, "[\"0xf86c098504a817c800825208943535353535353535353535353535353535353535880de0b6b3a76400008025a028ef61340bd939bc2195fe537567866003e1a15d3c71ff63e1590620aa636276a067cbe9d8997f761aecb703304b3800ccf555c9f3dc64214b297fb1966a3b6d83\"]");
  }
  if (C(3, "spoil-args")) {
    wbuf b = {0};
    wb_put(&b, r->args, strlen(r->args));
    for (int k = 1 + C(3, "mutations"); k; k--) mutate_json(&b);
    for (uint32_t i = 0; i < b.n; i++)
      if (!b.d[i]) b.d[i] = ' ';
    if (b.n > sizeof(r->args) - 1) b.n = sizeof(r->args) - 1;
    memcpy(r->args, b.d, b.n);
    r->args[b.n] = 0;
  }
}
void run_byz(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore s = {.crash_at = -1};
  store_install(&s, 2 + C(6, "max-states"));
  char cp[67];
  set_checkpoint(cp, W->b[W->head].final_root);
  static const uint32_t SHARE[] = {1, 2, 4, 8};
  byz   = SHARE[C(4, "share")];
  int n = 3 + C(6, "requests");
  for (int i = 0; i < n; i++) {
    wreq r;
    bool hist = C(4, "historic") == 3;
    if (hist) {
      int lo = w_find_slot(W, (uint64_t) W->rich[C(3, "period")] * 8192);
      gen_request(&r, 31, lo, lo + 13);
    }
    else
      gen_request(&r, 31, W->head - 20, W->head - 1);
    if (C(4, "odd") == 3) odd_request(&r);
    wbuf cs = {0}, proof = {0};
    client_state_of(&cs);
    if (C(6, "bad-state") == 5) {
      sim_fault_count("bad_client_state");
      if (cs.n && C(2, "noise")) mutate_bytes(&cs);
      else {
        uint64_t st = sim_stream("cs");
        int      k  = C(60, "len");
        cs.n        = 0;
        for (int j = 0; j < k; j++) wb_u8(&cs, j ? sim_rand(&st) : C(4, "type"));
      }
    }
    pcfg pc = {.answer = C(3, "honest") ? byz_node : honest_answer, .max_rounds = 120, .client_state = cs};
    static const uint32_t FL[] = {0, 1, 1 << 3, 1 << 5, 1 << 7 | 1 << 3, 1 << 4, 1 << 1, 1 << 6, 1 << 3 | 1 << 5};
    pc.flags = FL[C(9, "flags")];
    if (hist) pc.flags |= 1 << 3;
    if (C(8, "witness") == 7) pc.witness = W->user_addr[0], pc.nwitness = 20 * (1 + C(2, "n"));
    wout p = {0}, v = {0};
    int  k = C(8, "prove");
    if (k) {
      run_prover(&r, &pc, &p);
      sim_checked(1);
      if (p.stuck && pc.answer == honest_answer) sim_violation("no-end", "the prover does not end with %s %.300s", r.method, r.args);
      if (p.stuck) sim_violation("no-end-byzantine", "the prover does not end with %s %.300s after %d rounds", r.method, r.args, p.rounds);
    }
    int variants = p.ok ? 1 + C(5, "variants") : 1;
    for (int variant = 0; variant < variants; variant++) {
      proof.n = 0;
      if (p.ok) {
        wb_put(&proof, p.proof.d, p.proof.n);
        int m = C(7, "spoil-proof");
        if (m >= 4) {
          st* t = st_parse(st_request_def(), proof.d, proof.n);
          if (t) {
            for (int q = 1 + C(3, "mutations"); q; q--) mutate_rlp(t);
            proof.n = 0;
            st_ser(t, &proof);
            sim_fault_count("mutated_rlp");
          }
        }
        else if (m == 1) {
          st* t = st_parse(st_request_def(), proof.d, proof.n);
          if (t) {
            for (int q = 1 + C(4, "mutations"); q; q--) mutate(t, NULL, NULL);
            proof.n = 0;
            st_ser(t, &proof);
            sim_fault_count("mutated_proof");
          }
        }
        else if (m >= 2) {
          for (int q = 1 + C(3, "mutations"); q; q--) mutate_bytes(&proof);
          sim_fault_count("corrupt_proof");
        }
      }
      else if (C(2, "noise-proof")) {
        uint64_t st = sim_stream("proof");
        int      l  = C(500, "len");
        for (int j = 0; j < l; j++) wb_u8(&proof, C(3, "zero") ? 0 : sim_rand(&st));
        sim_fault_count("noise_proof");
      }
      wreq r2 = r;
      if (C(6, "other-request") == 5) {
        gen_request(&r2, 31, W->head - 20, W->head - 1);
        if (C(2, "odd")) odd_request(&r2);
      }
      run_verify(&r2, proof.d, proof.n, i || variant ? NULL : cp, C(3, "honest") ? byz_node : honest_answer, 120, &v);
      SIM_REQUIRE(!v.malformed, "status-json", "the status of the verifier for %s %.200s is not valid JSON", r2.method, r2.args);
      SIM_REQUIRE(!v.stuck, "verifier-no-end", "the verifier does not end with %s %.300s after %d rounds", r2.method, r2.args, v.rounds);
      if (v.ok) {
        wj* j = wj_parse(v.result, v.nresult);
        SIM_REQUIRE(j, "result-json", "the result of %s %.200s is not valid JSON: %.300s", r2.method, r2.args, v.result);
      }
      sim_stat(v.ok ? "accepted" : "rejected", 1);
    }
    sim_stat(p.ok ? "proof" : "no proof", 1);
  }
}
