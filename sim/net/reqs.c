// generates requests and decides whether an answer is the canonical one
#include "net.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void hex(char* o, const uint8_t* d, int n) {
  o += sprintf(o, "0x");
  for (int i = 0; i < n; i++) o += sprintf(o, "%02x", d[i]);
}
// addresses may be written with their checksum
static void mixed_case(char* a) {
  int m = sim_choose(3, "case");
  for (int i = 2; m && a[i]; i++)
    if (a[i] >= 'a' && a[i] <= 'f' && (m == 1 || (i * 7) % 3)) a[i] -= 32;
}
static void block_param(wreq* r, char* out, int blk, int mode) {
  // mode: 0 number, 1 hash, 2.. tags
  char h[70];
  r->blk = blk;
  r->tag = mode >= 2;
  if (mode == 0)
    sprintf(out, "\"0x%llx\"", (unsigned long long) W->b[blk].ex->number);
  else if (mode == 1) {
    hex(h, W->b[blk].ex->hash, 32);
    sprintf(out, "\"%s\"", h);
  }
  else
    strcpy(out, mode == 2 ? "\"latest\"" : mode == 3 ? "\"safe\"" : "\"finalized\"");
}
static void pick_addr(int blk, char* out, int* ai) {
  wexec* e = W->b[blk].ex;
  int    k = sim_choose(e->naccts + 1, "account");
  *ai      = k < e->naccts ? k : -1;
  uint8_t a[20];
  memset(a, 0x77, 20);
  hex(out, k < e->naccts ? e->accts[k].addr : a, 20);
}
static void pick_key(int blk, int ai, char* out) {
  wexec*  e = W->b[blk].ex;
  uint8_t k[32] = {0};
  if (ai >= 0 && e->accts[ai].nslots && sim_choose(4, "key-kind"))
    memcpy(k, e->accts[ai].slots[sim_choose(e->accts[ai].nslots, "key")].key, 32);
  else
    k[31] = sim_choose(100, "key");
  int st = 0;
  if (0)
    while (st < 31 && !k[st]) st++;
  hex(out, k + st, 32 - st);
}
// the logs as they are in this world
bool verify_logs_args(wreq* r, const world* w) {
  wbuf         o = {0};
  const wexec* e = w->b[r->blk].ex;
  wb_f(&o, "[");
  for (int i = 0; i < r->nlg; i++) {
    if (r->lg[i][0] >= e->ntxs || r->lg[i][1] >= e->txs[r->lg[i][0]].nlogs) continue;
    if (o.n > 1) wb_f(&o, ",");
    w_json_log(e, e->txs + r->lg[i][0], r->lg[i][1], &o);
  }
  wb_f(&o, "]");
  bool ok = o.n > 2 && o.n < 5000;
  if (ok) memcpy(r->args, o.d, o.n), r->args[o.n] = 0;
  free(o.d);
  return ok;
}
void gen_request(wreq* r, int kinds, int lo, int hi) {
  memset(r, 0, sizeof(*r));
  int ks[8], n = 0;
  for (int i = 0; i < 6; i++)
    if (kinds & (1 << i)) ks[n++] = 1 << i;
  r->kind = ks[n > 1 ? sim_choose(n, "kind") : 0];
  int  blk = lo + sim_choose(hi - lo + 1, "block");
  char a[80], k[80], k2[80], b[80];
  int  ai;
  switch (r->kind) {
    case K_ACCOUNT: {
      static const char* M[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"};
      strcpy(r->method, M[sim_choose(5, "method")]);
      int tag = sim_choose(5, "tag");
      block_param(r, b, blk, tag);
      if (r->blk > hi) r->blk = hi;
      pick_addr(blk, a, &ai);
      if ((!strcmp(r->method, "eth_getStorageAt") || !strcmp(r->method, "eth_getProof")) && sim_choose(3, "contract")) ai = W->nusers + 1 + sim_choose(5, "contract"), hex(a, W->b[blk].ex->accts[ai].addr, 20);
      pick_key(blk, ai, k);
      mixed_case(a);
      if (!strcmp(r->method, "eth_getStorageAt"))
        sprintf(r->args, "[\"%s\",\"%s\",%s]", a, k, b);
      else if (!strcmp(r->method, "eth_getProof")) {
        pick_key(blk, ai, k2);
        int nk = sim_choose(3, "nkeys");
        if (nk == 0)
          sprintf(r->args, "[\"%s\",[],%s]", a, b);
        else if (nk == 1)
          sprintf(r->args, "[\"%s\",[\"%s\"],%s]", a, k, b);
        else
          sprintf(r->args, "[\"%s\",[\"%s\",\"%s\"],%s]", a, k, k2, b);
      }
      else
        sprintf(r->args, "[\"%s\",%s]", a, b);
      return;
    }
    case K_TX:
    case K_RECEIPT: {
      int i = blk;
      while (i > lo && !W->b[i].ex->ntxs) i--;
      while (i < hi && !W->b[i].ex->ntxs) i++;
      r->blk   = i;
      wexec* e = W->b[i].ex;
      int    t = e->ntxs ? sim_choose(e->ntxs, "tx") : 0;
      uint8_t z[32];
      memset(z, 0x42, 32);
      hex(k, e->ntxs ? e->txs[t].hash : z, 32);
      if (r->kind == K_RECEIPT) {
        strcpy(r->method, "eth_getTransactionReceipt");
        sprintf(r->args, "[\"%s\"]", k);
        return;
      }
      int m = sim_choose(3, "method");
      if (m == 0) {
        strcpy(r->method, "eth_getTransactionByHash");
        sprintf(r->args, "[\"%s\"]", k);
      }
      else {
        strcpy(r->method, m == 1 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex");
        block_param(r, b, i, m == 1 ? 1 : 0);
        sprintf(r->args, "[%s,\"0x%x\"]", b, t);
      }
      return;
    }
    case K_BLOCK: {
      int m = sim_choose(5, "method");
      if (m == 4) {
        strcpy(r->method, "eth_blockNumber");
        strcpy(r->args, "[]");
        r->tag = true;
        r->blk = -1;
        return;
      }
      int mode = m < 2 ? 0 : m == 2 ? 1 : 2 + sim_choose(3, "tag");
      block_param(r, b, blk, mode);
      strcpy(r->method, mode == 1 ? "eth_getBlockByHash" : "eth_getBlockByNumber");
      sprintf(r->args, "[%s,%s]", b, sim_choose(2, "full") ? "true" : "false");
      return;
    }
    case K_LOGS: {
      bool any = sim_is("P03") || sim_is("P19") || sim_is("P11") || sim_is("P20") || sim_is("P12") || sim_is("P07");
      if (any && sim_choose(5, "verify") == 4) { // the caller has the logs already
        const wexec* e = W->b[blk].ex;
        r->nlg         = 0;
        for (int n = 1 + sim_choose(3, "nlogs"), tries = 0; r->nlg < n && tries < 6 && e->ntxs; tries++) {
          int x = sim_choose(e->ntxs, "tx");
          if (!e->txs[x].nlogs) continue;
          r->lg[r->nlg][0]   = x;
          r->lg[r->nlg++][1] = sim_choose(e->txs[x].nlogs, "log");
        }
        for (int x = 1; x < r->nlg; x++) // each one once
          for (int y = 0; y < x; y++)
            if (r->lg[x][0] == r->lg[y][0] && r->lg[x][1] == r->lg[y][1]) r->nlg = x;
        if (r->nlg && verify_logs_args(r, W)) {
          strcpy(r->method, "eth_verifyLogs");
          return;
        }
      }
      strcpy(r->method, "eth_getLogs");
      int from = blk, to = blk + sim_choose(4, "range");
      if (to > hi) to = hi;
      r->blk  = from;
      char* o = r->args;
      o += sprintf(o, "[{");
      if (sim_choose(4, "by-hash") == 1) {
        hex(k, W->b[from].ex->hash, 32);
        o += sprintf(o, "\"blockHash\":\"%s\"", k);
      }
      else
        o += sprintf(o, "\"fromBlock\":\"0x%llx\",\"toBlock\":\"0x%llx\"", (unsigned long long) W->b[from].ex->number, (unsigned long long) W->b[to].ex->number);
      int na = sim_choose(3, "naddr");
      if (na) {
        hex(a, W->b[from].ex->accts[W->nusers + sim_choose(6, "addr")].addr, 20);
        if (na == 1)
          o += sprintf(o, ",\"address\":\"%s\"", a);
        else {
          hex(b, W->b[from].ex->accts[W->nusers + sim_choose(6, "addr")].addr, 20);
          o += sprintf(o, ",\"address\":[\"%s\",\"%s\"]", a, b);
        }
      }
      int nt = sim_choose(3, "ntopics");
      if (nt) {
        uint8_t  t[32];
        uint64_t v = sim_choose(3, "topic");
        w_keccak(&v, 8, t);
        hex(k, t, 32);
        o += sprintf(o, ",\"topics\":[");
        if (nt == 1)
          o += sprintf(o, "\"%s\"]", k);
        else {
          memset(t, 0, 32);
          t[31] = 16 + sim_choose(3, "topic");
          hex(k2, t, 32);
          o += sprintf(o, "%s%s%s,\"%s\"]", sim_choose(2, "any") ? "null" : "\"", "", "", k2);
        }
        if (strstr(r->args, "\"topics\":[\",")) { // repair: first topic given
          char* p = strstr(r->args, "\"topics\":[\",");
          sprintf(p, "\"topics\":[\"%s\",\"%s\"]", k, k2);
          o = r->args + strlen(r->args);
        }
      }
      sprintf(o, "}]");
      return;
    }
  }
}
// keys an answer has to contain to be a full answer
static const char* must(const wreq* r, wj* v, const char* const* keys) {
  static char t[100];
  for (int i = 0; keys[i]; i++)
    if (!wj_get(v, keys[i])) {
      snprintf(t, sizeof(t), "the result has no %s", keys[i]);
      return t;
    }
  return NULL;
}
static const char* const TXK[]  = {"blockHash", "blockNumber", "hash", "transactionIndex", "from", "gas", "gasPrice", "input", "nonce", "value", "type", "r", "s", "v", "to", NULL};
static const char* const RCK[]  = {"blockHash", "blockNumber", "transactionHash", "transactionIndex", "cumulativeGasUsed", "gasUsed", "logs", "logsBloom", "status", "type", "from", NULL};
static const char* const BLK[]  = {"number", "hash", "parentHash", "stateRoot", "receiptsRoot", "transactions", "timestamp", "gasUsed", "gasLimit", "miner", "logsBloom", "withdrawals", "baseFeePerGas", "extraData", "mixHash", NULL};
static const char* const LGK[]  = {"address", "topics", "data", "blockNumber", "blockHash", "transactionHash", "transactionIndex", NULL};
static const char* const PRK[]  = {"balance", "nonce", "codeHash", "storageHash", "accountProof", "storageProof", NULL};
static const char* shape(const wreq* r, wj* v) {
  if (r->kind == K_TX) return must(r, v, TXK);
  if (r->kind == K_RECEIPT) return must(r, v, RCK);
  if (r->kind == K_BLOCK && v->t == 'o') {
    const char* e = must(r, v, BLK);
    wj*         t = wj_get(v, "transactions");
    for (int i = 0; !e && t && i < t->n; i++)
      if (t->v[i]->t == 'o') e = must(r, t->v[i], TXK);
    return e;
  }
  if (r->kind == K_LOGS) {
    for (int i = 0; i < v->n; i++) {
      const char* e = must(r, v->v[i], LGK);
      if (e) return e;
    }
    return NULL;
  }
  if (!strcmp(r->method, "eth_getProof")) return must(r, v, PRK);
  return NULL;
}
// the proofs do not cover these (documented): an adversary may choose them
static void drop_keys(wj* v, const char* const* keys) {
  if (v->t == 'o')
    for (int i = 0; i < v->n;) {
      bool d = false;
      for (int k = 0; keys[k]; k++) d |= !strcmp(v->keys[i], keys[k]);
      if (!d) {
        drop_keys(v->v[i++], keys);
        continue;
      }
      for (int k = i; k + 1 < v->n; k++) {
        v->keys[k] = v->keys[k + 1];
        v->v[k]    = v->v[k + 1];
      }
      v->n--;
    }
  else if (v->t == 'a')
    for (int i = 0; i < v->n; i++) drop_keys(v->v[i], keys);
}
static bool relaxed; // the answer comes from an adversary: only what the proofs cover is compared
static const char* compare(const wreq* r, wj* got, wj* want) {
  static char        why[600];
  static const char* UR[] = {"gasUsed", "effectiveGasPrice", "logIndex", NULL};
  static const char* UL[] = {"logIndex", NULL};
  const char*        d    = shape(r, got);
  if (d) return d;
  if (!relaxed) return wj_diff(got, want);
  if (r->kind == K_RECEIPT) drop_keys(got, UR);
  if (r->kind != K_LOGS) return wj_diff(got, want);
  // logs: each one is part of the canonical result, at most once. Completeness is not covered by the proof
  if (got->t != 'a' || want->t != 'a') return "not a list of logs";
  drop_keys(got, UL);
  bool* used = calloc(want->n + 1, 1);
  for (int i = 0; i < got->n; i++) {
    int k;
    for (k = 0; k < want->n && (used[k] || wj_diff(got->v[i], want->v[k])); k++);
    if (k == want->n) {
      bool dup = false;
      for (k = 0; k < want->n; k++) dup |= !wj_diff(got->v[i], want->v[k]);
      free(used);
      wj* bn = wj_get(got->v[i], "blockNumber");
      snprintf(why, sizeof(why), "log %d (block %s) is %s", i, bn && bn->s ? bn->s : "?", dup ? "returned twice" : "not part of the canonical logs for the filter");
      return why;
    }
    used[k] = true;
  }
  free(used);
  return NULL;
}
const char* sound_answer(const wreq* r, const char* result, int len) {
  relaxed       = true;
  const char* d = check_answer(r, result, len);
  relaxed       = false;
  return d;
}
bool has_answer(const wreq* r) {
  wbuf o = {0};
  wj*  a = wj_parse(r->args, strlen(r->args));
  bool ok = w_rpc_result(W, r->method, a, &o);
  free(o.d);
  return ok;
}
// a log filter without any match: nothing can be proven about it
bool empty_logs(const wreq* r) {
  wbuf o  = {0};
  bool ok = w_rpc_result(W, r->method, wj_parse(r->args, strlen(r->args)), &o) && o.n == 2;
  free(o.d);
  return ok;
}
const char* check_answer(const wreq* r, const char* result, int len) {
  static char why[600];
  wj*         v = wj_parse(result, len);
  if (!v) {
    snprintf(why, sizeof(why), "the result is not valid JSON: %.200s", result);
    return why;
  }
  wj* args = wj_parse(r->args, strlen(r->args));
  if (!r->tag) {
    wbuf o = {0};
    if (!w_rpc_result(W, r->method, args, &o)) {
      if (v->t == 'z') return NULL;
      snprintf(why, sizeof(why), "there is no such object in the chain, but got %.200s", result);
      return why;
    }
    const char* d = compare(r, v, wj_parse((char*) o.d, o.n));
    free(o.d);
    if (d) snprintf(why, sizeof(why), "%s", d);
    return d ? why : NULL;
  }
  // a tag: has to be the answer of one canonical block
  int keep = W->head;
  const char* last = NULL;
  for (int h = keep; h >= 0; h--) {
    wbuf o = {0};
    wreq t = *r;
    // replace the tag by the number of the block
    char* p = NULL;
    const char* tags[] = {"\"latest\"", "\"safe\"", "\"finalized\""};
    if (strcmp(r->method, "eth_blockNumber") == 0) {
      W->head = h;
      w_rpc_result(W, r->method, args, &o);
      W->head = keep;
    }
    else {
      for (int i = 0; i < 3 && !p; i++)
        if ((p = strstr(t.args, tags[i]))) {
          char rest[200], num[32];
          strcpy(rest, p + strlen(tags[i]));
          sprintf(num, "\"0x%llx\"", (unsigned long long) W->b[h].ex->number);
          sprintf(p, "%s%s", num, rest);
        }
      if (!w_rpc_result(W, r->method, wj_parse(t.args, strlen(t.args)), &o)) {
        free(o.d);
        continue;
      }
    }
    const char* d = compare(r, v, wj_parse((char*) o.d, o.n));
    free(o.d);
    if (!d) return NULL;
    if (h == keep || !last) {
      snprintf(why, sizeof(why), "not the answer of any canonical block (head: %s)", d);
      last = why;
    }
  }
  return why;
}

static int popc(const uint8_t* b) {
  int n = 0;
  for (int i = 0; i < 512; i++) n += b[i / 8] >> (i % 8) & 1;
  return n;
}
bool provable(int blk) {
  for (int j = blk + 1; j <= W->head && j <= blk + 10; j++)
    if (popc(W->b[j].bits) >= 342) return true;
  return false;
}
bool req_provable(const wreq* r, uint64_t lowest) {
  if (r->tag) return true;
  int n = r->kind == K_LOGS ? 4 : 1;
  for (int i = 0; i < n && r->blk + i <= W->head; i++) {
    if (w_period(W, W->b[r->blk + i].slot) < lowest) return false;
    if (!provable(r->blk + i)) return false;
  }
  return true;
}
