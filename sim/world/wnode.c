// the APIs of the nodes: beacon node, execution node, checkpointz and the internal store of the server
#include "world.h"
#include "ecdsa.h"
#include "secp256k1.h"
#include "chains/eth/zk_verifier/zk_verifier_constants.h"
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void set(wresp* o, int status, const char* txt) {
  o->status = status;
  o->body.n = 0;
  wb_put(&o->body, txt, strlen(txt));
}
static void notfound(wresp* o) { set(o, 404, "{\"code\":404,\"message\":\"NOT_FOUND\"}"); }
static bool hex32(const char* s, uint8_t out[32]) { return s && s[0] == '0' && s[1] == 'x' && strspn(s + 2, "0123456789abcdefABCDEF") >= 64 && w_unhex(s + 2, 64, out, 32) == 32; }

static void header_json(const world* w, const wblock* b, wbuf* o) {
  wb_f(o, "{\"root\":");
  wb_hex(o, b->root, 32);
  wb_f(o, ",\"canonical\":true,\"header\":{\"message\":{\"slot\":\"%llu\",\"proposer_index\":\"%llu\",\"parent_root\":", (unsigned long long) b->slot, (unsigned long long) b->proposer);
  wb_hex(o, b->parent, 32);
  wb_f(o, ",\"state_root\":");
  wb_hex(o, b->state, 32);
  wb_f(o, ",\"body_root\":");
  wb_hex(o, b->body, 32);
  wb_f(o, "},\"signature\":\"0xaa\"}}");
}
// light client updates: only periods whose finalized data are known to this node
void w_updates(world* w, uint32_t start, uint32_t count, wbuf* out) {
  if (count > 128) count = 128;
  for (uint32_t p = start; p < start + count; p++) {
    wcommittee* c = w_com(w, p);
    if (!c || c->upd < 0 || c->upd + 1 > w->head) continue;
    wbuf u = {0};
    w_lc_update(w, p, &u);
    if (!u.n) continue;
    uint8_t d[4] = {0xde, 0xad, 0xbe, 0xef};
    wb_le(out, u.n + 4, 8);
    wb_put(out, d, 4);
    wb_put(out, u.d, u.n);
    free(u.d);
  }
}
static uint64_t query_num(const char* url, const char* name) {
  const char* p = strstr(url, name);
  return p ? strtoull(p + strlen(name), NULL, 10) : 0;
}
static void beacon(world* w, const char* url, bool ssz, wresp* o) {
  uint8_t     r[32];
  const char* p;
  if (url[0] == '/') url++;
  if (!strncmp(url, "eth/v2/beacon/blocks/", 21)) {
    p     = url + 21;
    int i = -1;
    if (!strcmp(p, "head"))
      i = w->head;
    else if (hex32(p, r))
      i = w_find_root(w, r);
    else if (isdigit(*p))
      i = w_find_slot(w, strtoull(p, NULL, 10));
    if (i < 0 || i > w->head) return notfound(o);
    const wbuf* b = w_block_ssz(w->b + i);
    wb_put(&o->body, b->d, b->n);
    return;
  }
  if (!strncmp(url, "eth/v1/beacon/headers?parent_root=", 34) && hex32(url + 34, r)) {
    int i = w_find_root(w, r);
    if (i < 0 || i + 1 > w->head) {
      wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":false,\"data\":[]}");
      return;
    }
    wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":false,\"data\":[");
    header_json(w, w->b + i + 1, &o->body);
    wb_f(&o->body, "]}");
    return;
  }
  if (!strncmp(url, "eth/v1/beacon/headers/", 22)) {
    p     = url + 22;
    int i = !strcmp(p, "head") ? w->head : hex32(p, r) ? w_find_root(w, r) : isdigit(*p) ? w_find_slot(w, strtoull(p, NULL, 10)) : -1;
    if (i < 0 || i > w->head) return notfound(o);
    wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":false,\"data\":");
    header_json(w, w->b + i, &o->body);
    wb_f(&o->body, "}");
    return;
  }
  if (!strncmp(url, "eth/v1/beacon/blocks/", 21) && strstr(url, "/root")) {
    p     = url + 21;
    int i = !strncmp(p, "head/", 5) ? w->head : isdigit(*p) ? w_find_slot(w, strtoull(p, NULL, 10)) : -1;
    if (i < 0 || i > w->head) return notfound(o);
    wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":true,\"data\":{\"root\":");
    wb_hex(&o->body, w->b[i].root, 32);
    wb_f(&o->body, "}}");
    return;
  }
  if (!strcmp(url, "eth/v1/beacon/states/head/finality_checkpoints")) {
    wblock*  h = w->b + w->head;
    uint64_t je;
    w_justified(w, w->head, &je, r);
    wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":false,\"data\":{\"previous_justified\":{\"epoch\":\"%llu\",\"root\":", (unsigned long long) h->final_epoch);
    wb_hex(&o->body, h->final_root, 32);
    wb_f(&o->body, "},\"current_justified\":{\"epoch\":\"%llu\",\"root\":", (unsigned long long) je);
    wb_hex(&o->body, r, 32);
    wb_f(&o->body, "},\"finalized\":{\"epoch\":\"%llu\",\"root\":", (unsigned long long) h->final_epoch);
    wb_hex(&o->body, h->final_root, 32);
    wb_f(&o->body, "}}}");
    return;
  }
  if (!strncmp(url, "eth/v1/beacon/light_client/updates?", 35)) {
    w_updates(w, query_num(url, "start_period="), query_num(url, "count="), &o->body);
    wb_str(&o->body);
    return;
  }
  if (!strncmp(url, "eth/v1/beacon/light_client/bootstrap/", 37) && hex32(url + 37, r)) {
    int i = w_find_root(w, r);
    if (i < 0 || i > w->head || !w_bootstrap(w, r, &o->body)) return notfound(o);
    return;
  }
  if ((p = strstr(url, "/historical_summaries")) && !strncmp(url, "eth/v1/lodestar/states/", 23) && hex32(url + 23, r)) {
    int i;
    for (i = w->head; i >= 0 && memcmp(w->b[i].state, r, 32); i--);
    if (i < 0) return notfound(o);
    wblock*  b = w->b + i;
    uint32_t n = w_period(w, b->slot) - w_capella_period(w);
    wb_f(&o->body, "{\"version\":\"electra\",\"data\":{\"slot\":\"%llu\",\"historical_summaries\":[", (unsigned long long) b->slot);
    for (uint32_t k = 0; k < n; k++) {
      wb_f(&o->body, "%s{\"block_summary_root\":", k ? "," : "");
      wb_hex(&o->body, w->summaries[k][0], 32);
      wb_f(&o->body, ",\"state_summary_root\":");
      wb_hex(&o->body, w->summaries[k][1], 32);
      wb_f(&o->body, "}");
    }
    wb_f(&o->body, "],\"proof\":[");
    uint8_t br[8][32];
    w_summaries_proof(w, b, br);
    for (int k = 0; k < b->state_depth; k++) {
      if (k) wb_f(&o->body, ",");
      wb_hex(&o->body, br[k], 32);
    }
    wb_f(&o->body, "]}}");
    return;
  }
  notfound(o);
}
// the zk proof for the committee of a period as created by the (trusted) zk prover. A forged chain only has the proof of the canonical one.
void w_zk_sync(const world* w, uint32_t period, wbuf* out) {
  extern void zksim_prove(const uint8_t* pub, size_t len, const uint8_t* vk, uint8_t out[32]);
  wcommittee *c = w_com(w, period), *p = w_com(w, period - 1);
  if (!c || !p || p->upd < 0 || p->upd + 2 > w->head) return;
  const world* t = w->canon ? w->canon : w;
  const wblock *b = w->b + p->upd, *tb = t->b + p->upd;
  uint8_t       pub[136], pr[260] = {0};
  memcpy(pub, t->zk_root, 32);
  memcpy(pub + 32, w_com(t, period)->keys_root, 32);
  for (int i = 0; i < 8; i++) pub[64 + i] = (uint64_t) period >> (8 * i);
  memcpy(pub + 72, tb->root, 32);
  w_domain(t, tb->slot, pub + 104);
  zksim_prove(pub, 136, VK_PROGRAM_HASH, pr);
  wb_put(out, VK_PROGRAM_HASH, 32);
  wb_put(out, pr, 260);
  wn_ser(w_header_node(b), out);
  wb_put(out, c->keys, 512 * 48);
  wb_le(out, 24988, 4);
  wb_le(out, 24988 + 1 + 276 + 80, 4);
  wb_u8(out, 2);
  wb_le(out, 276, 4);
  wn_ser(w_header_node(b + 2), out);
  wb_put(out, b[2].bits, 64); // not used
  wb_put(out, b[2].sig, 96);
  wbuf h = {0};
  wn_ser(w_header_node(b + 1), &h);
  wb_put(out, h.d, 16);
  wb_put(out, h.d + 48, 64);
  free(h.d);
}
// signature of a witness for the checkpoint of that proof
void w_witness_sig(const world* w, uint32_t period, int user, uint8_t sig[65]) {
  uint8_t m[60] = "\x19" "Ethereum Signed Message:\n32", h[32], by;
  memcpy(m + 28, w->b[w_com(w, period - 1)->upd + 2].root, 32);
  w_keccak(m, 60, h);
  ecdsa_sign_digest(&secp256k1, w->user_sk[user], h, sig, &by, NULL);
  sig[64] = by;
}
bool (*w_preconf)(world* w, const char* block, wbuf* out);
static void internal(world* w, const char* url, wresp* o) {
  if (!strncmp(url, "preconf/", 8) && w_preconf) {
    if (!w_preconf(w, url + 8, &o->body)) notfound(o);
    return;
  }
  if (!strncmp(url, "period_store/", 13) && strstr(url, "/zk_proof.ssz")) {
    w_zk_sync(w, strtoull(url + 13, NULL, 10), &o->body);
    if (!o->body.n) notfound(o);
    return;
  }
  const char* sg = strstr(url, "/sig_");
  if (!strncmp(url, "period_store/", 13) && sg) {
    uint8_t  a[20], s[65];
    uint32_t p = strtoull(url + 13, NULL, 10);
    w_unhex(sg + 5, 40, a, 20);
    wcommittee* c = w_com(w, p - 1);
    for (int i = 0; c && c->upd >= 0 && c->upd + 2 <= w->head && i < w->nusers; i++)
      if (!memcmp(w->user_addr[i], a, 20)) {
        w_witness_sig(w, p, i, s);
        wb_put(&o->body, s, 65);
        return;
      }
    return notfound(o);
  }
  if (!strncmp(url, "period_store/", 13) && strstr(url, "/blocks.ssz")) {
    wcommittee* c = w_com(w, strtoull(url + 13, NULL, 10));
    if (!c || !c->block_roots) return notfound(o);
    wb_put(&o->body, c->block_roots, 8192 * 32);
    return;
  }
  if (!strncmp(url, "lcu_updates?", 12)) {
    w_updates(w, query_num(url, "start_period="), query_num(url, "count="), &o->body);
    wb_str(&o->body);
    return;
  }
  notfound(o);
}
static int block_arg(world* w, wj* a) {
  uint8_t h[32];
  if (!a || a->t != 's') return -1;
  int i = -1;
  if (!strcmp(a->s, "latest"))
    i = w->head;
  else if (!strcmp(a->s, "finalized"))
    i = w_find_root(w, w->b[w->head].final_root);
  else if (!strcmp(a->s, "safe")) {
    uint64_t e;
    w_justified(w, w->head, &e, h);
    i = w_find_root(w, h);
  }
  else if (strlen(a->s) == 66 && hex32(a->s, h))
    i = w_find_hash(w, h);
  else if (a->s[0] == '0' && a->s[1] == 'x')
    i = w_find_number(w, strtoull(a->s + 2, NULL, 16));
  return i > w->head ? -1 : i;
}
static bool addr_arg(wj* a, uint8_t out[20]) { return a && a->t == 's' && strlen(a->s) == 42 && w_unhex(a->s + 2, 40, out, 20) == 20; }
static bool key_arg(wj* a, uint8_t out[32]) {
  uint8_t t[32];
  if (!a || a->t != 's' || strncmp(a->s, "0x", 2)) return false;
  int n = w_unhex(a->s + 2, strlen(a->s + 2), t, 32);
  if (n < 0) return false;
  memset(out, 0, 32);
  memcpy(out + 32 - n, t, n);
  return true;
}
bool w_parse_filter(world* w, wj* f, wfilter* out) {
  memset(out, 0, sizeof(*out));
  out->from = out->to = w->b[w->head].ex->number;
  wj *v = wj_get(f, "fromBlock"), *t;
  int i;
  if (v && (i = block_arg(w, v)) >= 0)
    out->from = w->b[i].ex->number;
  else if (v && v->t == 's' && v->s[0] == '0')
    out->from = strtoull(v->s + 2, NULL, 16);
  v = wj_get(f, "toBlock");
  if (v && (i = block_arg(w, v)) >= 0)
    out->to = w->b[i].ex->number;
  else if (v && v->t == 's' && v->s[0] == '0')
    out->to = strtoull(v->s + 2, NULL, 16);
  v = wj_get(f, "blockHash");
  if (v && v->t == 's') {
    out->by_hash = true;
    if (!hex32(v->s, out->hash)) return false;
  }
  v = wj_get(f, "address");
  if (v && v->t == 's') {
    if (!addr_arg(v, out->addr[out->naddr++])) return false;
  }
  else if (v && v->t == 'a')
    for (int k = 0; k < v->n && k < 3; k++)
      if (!addr_arg(v->v[k], out->addr[out->naddr++])) return false;
  t = wj_get(f, "topics");
  if (t && t->t == 'a')
    for (int k = 0; k < t->n && k < 4; k++) {
      out->ntop = k + 1;
      v         = t->v[k];
      if (v->t == 's')
        hex32(v->s, out->top[k][out->nalt[k]++]);
      else if (v->t == 'a')
        for (int x = 0; x < v->n && x < 2; x++) hex32(v->v[x]->s, out->top[k][out->nalt[k]++]);
    }
  return true;
}
// the result of a rpc-call in JSON; NULL as result -> false
bool w_rpc_result(world* w, const char* m, wj* ps, wbuf* o) {
  uint8_t h[32], ad[20];
  int     i;
  wj *    p0 = wj_at(ps, 0), *p1 = wj_at(ps, 1), *p2 = wj_at(ps, 2);
  if (!strcmp(m, "eth_blockNumber")) {
    wb_qty(o, w->b[w->head].ex->number);
    return true;
  }
  if (!strcmp(m, "eth_chainId")) {
    wb_qty(o, w->chain_id);
    return true;
  }
  if (!strcmp(m, "eth_getBlockByNumber") || !strcmp(m, "eth_getBlockByHash")) {
    if ((i = block_arg(w, p0)) < 0) return false;
    w_json_block(w->b[i].ex, p1 && p1->t == 'b' && p1->s[0] == 't', o);
    return true;
  }
  if (!strcmp(m, "eth_getBlockReceipts")) {
    if ((i = block_arg(w, p0)) < 0) return false;
    wexec* e = w->b[i].ex;
    wb_f(o, "[");
    for (int k = 0; k < e->ntxs; k++) {
      if (k) wb_f(o, ",");
      w_json_receipt(e, e->txs + k, o);
    }
    wb_f(o, "]");
    return true;
  }
  if (!strcmp(m, "eth_getTransactionByHash") || !strcmp(m, "eth_getTransactionReceipt")) {
    if (!p0 || p0->t != 's' || !hex32(p0->s, h)) return false;
    for (i = 0; i <= w->head; i++)
      for (int k = 0; k < w->b[i].ex->ntxs; k++)
        if (!memcmp(w->b[i].ex->txs[k].hash, h, 32)) {
          if (m[18] == 'B')
            w_json_tx(w->b[i].ex, w->b[i].ex->txs + k, o);
          else
            w_json_receipt(w->b[i].ex, w->b[i].ex->txs + k, o);
          return true;
        }
    return false;
  }
  if (!strcmp(m, "eth_getTransactionByBlockHashAndIndex") || !strcmp(m, "eth_getTransactionByBlockNumberAndIndex")) {
    if ((i = block_arg(w, p0)) < 0 || !p1) return false;
    uint64_t k = p1->t == 's' ? strtoull(p1->s, NULL, 16) : strtoull(p1->s, NULL, 10);
    if (k >= (uint64_t) w->b[i].ex->ntxs) return false;
    w_json_tx(w->b[i].ex, w->b[i].ex->txs + k, o);
    return true;
  }
  if (!strcmp(m, "eth_getProof")) {
    if ((i = block_arg(w, p2)) < 0 || !addr_arg(p0, ad)) return false;
    uint8_t keys[16][32];
    int     n = 0;
    for (int k = 0; p1 && k < p1->n && n < 16; k++)
      if (!key_arg(p1->v[k], keys[n++])) return false;
    w_json_proof(w->b[i].ex, ad, keys, n, o);
    return true;
  }
  if (!strcmp(m, "eth_getBalance") || !strcmp(m, "eth_getTransactionCount") || !strcmp(m, "eth_getCode")) {
    // the prover asks for the code of "lastest": like most nodes do, treat it as the latest
    i = p1 && p1->t == 's' && !strcmp(p1->s, "lastest") ? w->head : block_arg(w, p1);
    if (i < 0 || !addr_arg(p0, ad)) return false;
    wacct* a = w_acct(w->b[i].ex, ad);
    if (m[4 + 3] == 'B')
      wb_qty_be(o, a ? a->balance : (uint8_t[32]) {0}, 32);
    else if (m[4 + 3] == 'T')
      wb_qty(o, a ? a->nonce : 0);
    else
      wb_hex(o, a ? a->code : NULL, a ? a->ncode : 0);
    return true;
  }
  if (!strcmp(m, "eth_getStorageAt")) {
    if ((i = block_arg(w, p2)) < 0 || !addr_arg(p0, ad) || !key_arg(p1, h)) return false;
    wacct*  a    = w_acct(w->b[i].ex, ad);
    uint8_t v[32] = {0};
    for (int k = 0; a && k < a->nslots; k++)
      if (!memcmp(a->slots[k].key, h, 32)) memcpy(v, a->slots[k].val, 32);
    wb_hex(o, v, 32);
    return true;
  }
  if (!strcmp(m, "eth_verifyLogs")) { // the canonical logs which are the ones given, if all of them are canonical
    uint64_t used[64];
    int      nu = 0;
    wb_f(o, "[");
    for (int k = 0; ps->t == 'a' && k < ps->n && k < 64; k++) {
      wj*  l = ps->v[k], *bn = l->t == 'o' ? wj_get(l, "blockNumber") : NULL;
      bool found = false;
      i          = bn && bn->t == 's' && strlen(bn->s) < 19 ? w_find_number(w, strtoull(bn->s, NULL, 16)) : -1;
      if (i < 0 || i > w->head) return false;
      const wexec* e = w->b[i].ex;
      for (int x = 0; x < e->ntxs && !found; x++)
        for (int y = 0; y < e->txs[x].nlogs && !found; y++) {
          uint64_t id = (uint64_t) i << 32 | x << 16 | y;
          wbuf     c  = {0};
          int      z  = 0;
          while (z < nu && used[z] != id) z++;
          if (z < nu) continue;
          w_json_log(e, e->txs + x, y, &c);
          wj* cj = wj_parse((char*) c.d, c.n);
          for (int q = 0; q < cj->n; q++) // the index of the log in the block is not proven
            if (!strcmp(cj->keys[q], "logIndex")) wj_get(l, "logIndex") ? cj->v[q] = wj_get(l, "logIndex") : 0;
          if (!wj_diff(l, cj)) {
            found      = true;
            used[nu++] = id;
            if (o->n > 1) wb_f(o, ",");
            wb_put(o, c.d, c.n);
          }
          free(c.d);
        }
      if (!found) return false;
    }
    wb_f(o, "]");
    return true;
  }
  if (!strcmp(m, "eth_getLogs")) {
    wfilter f;
    if (!w_parse_filter(w, p0, &f)) return false;
    w_json_logs(w, &f, o);
    return true;
  }
  return false;
}
static void rpc(world* w, const uint8_t* payload, uint32_t plen, wresp* o) {
  wj* j = wj_parse((const char*) payload, plen);
  wj* m = j ? wj_get(j, "method") : NULL;
  if (!m || m->t != 's') return set(o, 200, "{\"jsonrpc\":\"2.0\",\"id\":null,\"error\":{\"code\":-32600,\"message\":\"invalid request\"}}");
  wj*  id = wj_get(j, "id");
  wbuf r  = {0};
  if (!w_rpc_result(w, m->s, wj_get(j, "params"), &r)) wb_f(&r, "null");
  wb_f(&o->body, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"result\":", id && id->t == 'n' ? id->s : "1");
  wb_put(&o->body, r.d, r.n);
  wb_f(&o->body, "}");
  free(r.d);
}
void w_node(world* w, char type, const char* url, const uint8_t* payload, uint32_t plen, bool want_ssz, wresp* o) {
  memset(o, 0, sizeof(*o));
  o->status = 200;
  if (type == 'b' || type == 'c')
    beacon(w, url, want_ssz, o);
  else if (type == 'i')
    internal(w, url, o);
  else if (type == 'r')
    rpc(w, payload, plen, o);
  else
    notfound(o);
}
