// execution layer: accounts, transactions, receipts, blocks
#include "ecdsa.h"
#include "secp256k1.h"
#include "world.h"
#include <stdlib.h>
#include <string.h>

static void* dupm(const void* p, size_t n) {
  void* r = malloc(n + 1);
  memcpy(r, p, n);
  return r;
}
static void sig_payload(wtx* t, bool signing, wbuf* c) {
  if (t->type == 0) {
    wr_uint(c, t->nonce);
    wr_uint(c, t->gas_price);
  }
  else {
    wr_uint(c, t->chain_id);
    wr_uint(c, t->nonce);
    if (t->type == 1)
      wr_uint(c, t->gas_price);
    else {
      wr_uint(c, t->max_prio);
      wr_uint(c, t->max_fee);
    }
  }
  wr_uint(c, t->gas);
  wr_item(c, t->to, t->create ? 0 : 20);
  wr_be(c, t->value, 32);
  wr_item(c, t->data, t->ndata);
  if (t->type > 0) {
    wbuf al = {0};
    for (int i = 0; i < t->nacc; i++) {
      wbuf e = {0}, ks = {0};
      wr_item(&e, t->acc_addr[i], 20);
      for (int k = 0; k < t->acc_nkeys[i]; k++) wr_item(&ks, t->acc_keys[i][k], 32);
      wr_list(&e, &ks);
      wr_list(&al, &e);
    }
    wr_list(c, &al);
  }
  if (t->type == 3) {
    wbuf bl = {0};
    wr_uint(c, t->max_blob_fee);
    for (int i = 0; i < t->nblob; i++) wr_item(&bl, t->blob[i], 32);
    wr_list(c, &bl);
  }
  if (t->type == 4) {
    wbuf al = {0};
    for (int i = 0; i < t->nauth; i++) {
      wbuf e = {0};
      wr_uint(&e, t->auth[i].chain_id);
      wr_item(&e, t->auth[i].addr, 20);
      wr_uint(&e, t->auth[i].nonce);
      wr_uint(&e, t->auth[i].y);
      wr_be(&e, t->auth[i].r, 32);
      wr_be(&e, t->auth[i].s, 32);
      wr_list(&al, &e);
    }
    wr_list(c, &al);
  }
  if (signing) {
    if (t->type == 0 && !t->pre155) {
      wr_uint(c, t->chain_id);
      wr_uint(c, 0);
      wr_uint(c, 0);
    }
  }
  else {
    if (t->type == 0)
      wr_uint(c, t->pre155 ? 27 + t->rec : t->chain_id * 2 + 35 + t->rec);
    else
      wr_uint(c, t->rec);
    wr_be(c, t->r, 32);
    wr_be(c, t->s, 32);
  }
}
static void encode(wtx* t, bool signing, wbuf* out) {
  wbuf c = {0};
  sig_payload(t, signing, &c);
  if (t->type) wb_u8(out, t->type);
  wr_list(out, &c);
}
static int user_of(world* w, const uint8_t a[20]) {
  for (int i = 0; i < w->nusers; i++)
    if (memcmp(w->user_addr[i], a, 20) == 0) return i;
  return 0;
}
void w_tx_make(world* w, wtx* t, uint64_t* rnd) {
  wbuf    p = {0}, raw = {0};
  uint8_t h[32], sig[64], pby;
  encode(t, true, &p);
  w_keccak(p.d, p.n, h);
  free(p.d);
  ecdsa_sign_digest(&secp256k1, w->user_sk[user_of(w, t->from)], h, sig, &pby, NULL);
  memcpy(t->r, sig, 32);
  memcpy(t->s, sig + 32, 32);
  t->rec = pby & 1;
  encode(t, false, &raw);
  t->raw  = raw.d;
  t->nraw = raw.n;
  w_keccak(t->raw, t->nraw, t->hash);
}
static void bloom_add(uint8_t* bloom, const void* d, int n) {
  uint8_t h[32];
  w_keccak(d, n, h);
  for (int i = 0; i < 6; i += 2) {
    int bit = (h[i] << 8 | h[i + 1]) & 2047;
    bloom[255 - bit / 8] |= 1 << (bit % 8);
  }
}
void w_receipt_make(wtx* t) {
  wbuf c = {0}, lg = {0}, out = {0};
  memset(t->bloom, 0, 256);
  wr_uint(&c, t->ok);
  wr_uint(&c, t->cum_gas);
  for (int i = 0; i < t->nlogs; i++) {
    wlog* l = t->logs + i;
    wbuf  e = {0}, tp = {0};
    bloom_add(t->bloom, l->addr, 20);
    wr_item(&e, l->addr, 20);
    for (int k = 0; k < l->ntopics; k++) {
      wr_item(&tp, l->topics[k], 32);
      bloom_add(t->bloom, l->topics[k], 32);
    }
    wr_list(&e, &tp);
    wr_item(&e, l->data, l->ndata);
    wr_list(&lg, &e);
  }
  wr_item(&c, t->bloom, 256);
  wr_list(&c, &lg);
  if (t->type) wb_u8(&out, t->type);
  wr_list(&out, &c);
  t->rraw  = out.d;
  t->nrraw = out.n;
}
static int idx_key(int i, uint8_t* nib) {
  wbuf b = {0};
  wr_uint(&b, i);
  int n = wm_nibbles(b.d, b.n, nib);
  free(b.d);
  return n;
}
static void acct_rlp(wacct* a, wbuf* out) {
  wbuf c = {0};
  wr_uint(&c, a->nonce);
  wr_be(&c, a->balance, 32);
  wr_item(&c, a->storage_root, 32);
  wr_item(&c, a->code_hash, 32);
  wr_list(out, &c);
}
static wm_item* storage_items(wacct* a) {
  wm_item* it = calloc(a->nslots + 1, sizeof(wm_item));
  for (int i = 0; i < a->nslots; i++) {
    uint8_t h[32];
    wbuf    v = {0};
    w_keccak(a->slots[i].key, 32, h);
    it[i].klen = wm_nibbles(h, 32, it[i].key);
    wr_be(&v, a->slots[i].val, 32);
    it[i].val  = v.d;
    it[i].vlen = v.n;
  }
  return it;
}
static void free_items(wm_item* it, int n) {
  for (int i = 0; i < n; i++) free(it[i].val);
  free(it);
}
void w_storage_proof(wacct* a, const uint8_t key[32], wm_proof* p, uint8_t value[32]) {
  uint8_t h[32], nib[64], root[32];
  memset(value, 0, 32);
  for (int i = 0; a && i < a->nslots; i++)
    if (memcmp(a->slots[i].key, key, 32) == 0) memcpy(value, a->slots[i].val, 32);
  memset(p, 0, sizeof(*p));
  if (!a) return;
  w_keccak(key, 32, h);
  wm_nibbles(h, 32, nib);
  wm_item* it = storage_items(a);
  wm_prove(it, a->nslots, nib, 64, root, p);
  free_items(it, a->nslots);
}
static wm_item* acct_items(wexec* e) {
  wm_item* it = calloc(e->naccts + 1, sizeof(wm_item));
  for (int i = 0; i < e->naccts; i++) {
    uint8_t h[32];
    wbuf    v = {0};
    w_keccak(e->accts[i].addr, 20, h);
    it[i].klen = wm_nibbles(h, 32, it[i].key);
    acct_rlp(e->accts + i, &v);
    it[i].val  = v.d;
    it[i].vlen = v.n;
  }
  return it;
}
void w_account_proof(wexec* e, const uint8_t addr[20], wm_proof* p) {
  uint8_t h[32], nib[64], root[32];
  w_keccak(addr, 20, h);
  wm_nibbles(h, 32, nib);
  wm_item* it = acct_items(e);
  wm_prove(it, e->naccts, nib, 64, root, p);
  free_items(it, e->naccts);
}
wacct* w_acct(wexec* e, const uint8_t addr[20]) {
  for (int i = 0; i < e->naccts; i++)
    if (memcmp(e->accts[i].addr, addr, 20) == 0) return e->accts + i;
  return NULL;
}
wexec* w_clone_exec(const wexec* e) {
  wexec* n = dupm(e, sizeof(*e));
  n->txs   = dupm(e->txs, sizeof(wtx) * e->ntxs);
  n->accts = dupm(e->accts, sizeof(wacct) * e->naccts);
  for (int i = 0; i < n->naccts; i++) n->accts[i].slots = dupm(e->accts[i].slots, sizeof(wslot) * e->accts[i].nslots);
  return n;
}
void w_finish_exec(world* w, wexec* e) {
  // storage roots and the state root
  for (int i = 0; i < e->naccts; i++) {
    wm_item* it = storage_items(e->accts + i);
    wm_root(it, e->accts[i].nslots, e->accts[i].storage_root);
    free_items(it, e->accts[i].nslots);
  }
  wm_item* it = acct_items(e);
  wm_root(it, e->naccts, e->state_root);
  free_items(it, e->naccts);
  // transactions, receipts
  uint64_t base = 0;
  for (int i = 24; i < 32; i++) base = base << 8 | e->base_fee[i];
  wm_item *ti = calloc(e->ntxs + 1, sizeof(*ti)), *ri = calloc(e->ntxs + 1, sizeof(*ri));
  uint64_t cum = 0;
  int      li  = 0;
  memset(e->bloom, 0, 256);
  for (int i = 0; i < e->ntxs; i++) {
    wtx* t = e->txs + i;
    cum += t->gas_used;
    t->index     = i;
    t->cum_gas   = cum;
    t->eff_price = t->type < 2 ? t->gas_price : (base + t->max_prio < t->max_fee ? base + t->max_prio : t->max_fee);
    t->log_base  = li;
    li += t->nlogs;
    w_receipt_make(t);
    for (int k = 0; k < 256; k++) e->bloom[k] |= t->bloom[k];
    ti[i].klen = ri[i].klen = idx_key(i, ti[i].key);
    memcpy(ri[i].key, ti[i].key, sizeof(ri[i].key));
    ti[i].val  = t->raw;
    ti[i].vlen = t->nraw;
    ri[i].val  = t->rraw;
    ri[i].vlen = t->nrraw;
  }
  wm_root(ti, e->ntxs, e->tx_root);
  wm_root(ri, e->ntxs, e->receipts_root);
  free(ti);
  free(ri);
  e->gas_used = cum;
  // withdrawals
  wm_item wi[4] = {0};
  for (int i = 0; i < e->nwd; i++) {
    wbuf c = {0}, o = {0};
    wr_uint(&c, e->wd[i].index);
    wr_uint(&c, e->wd[i].validator);
    wr_item(&c, e->wd[i].addr, 20);
    wr_uint(&c, e->wd[i].amount);
    wr_list(&o, &c);
    wi[i].klen = idx_key(i, wi[i].key);
    wi[i].val  = o.d;
    wi[i].vlen = o.n;
  }
  wm_root(wi, e->nwd, e->wd_root);
  for (int i = 0; i < e->nwd; i++) free(wi[i].val);
  // header
  static const uint8_t uncles[] = {0x1d, 0xcc, 0x4d, 0xe8, 0xde, 0xc7, 0x5d, 0x7a, 0xab, 0x85, 0xb5, 0x67, 0xb6, 0xcc, 0xd4, 0x1a, 0xd3, 0x12, 0x45, 0x1b, 0x94, 0x8a, 0x74, 0x13, 0xf0, 0xa1, 0x42, 0xfd, 0x40, 0xd4, 0x93, 0x47};
  wbuf                 c = {0}, o = {0};
  wr_item(&c, e->parent_hash, 32);
  wr_item(&c, uncles, 32);
  wr_item(&c, e->fee_recipient, 20);
  wr_item(&c, e->state_root, 32);
  wr_item(&c, e->tx_root, 32);
  wr_item(&c, e->receipts_root, 32);
  wr_item(&c, e->bloom, 256);
  wr_uint(&c, 0);
  wr_uint(&c, e->number);
  wr_uint(&c, e->gas_limit);
  wr_uint(&c, e->gas_used);
  wr_uint(&c, e->timestamp);
  wr_item(&c, e->extra, e->nextra);
  wr_item(&c, e->randao, 32);
  wr_item(&c, "\0\0\0\0\0\0\0\0", 8);
  wr_be(&c, e->base_fee, 32);
  wr_item(&c, e->wd_root, 32);
  wr_uint(&c, e->blob_gas);
  wr_uint(&c, e->excess_blob);
  wr_item(&c, e->parent_beacon, 32);
  uint8_t z[32] = {0};
  if (memcmp(e->requests_hash, z, 32)) wr_item(&c, e->requests_hash, 32);
  wr_list(&o, &c);
  w_keccak(o.d, o.n, e->hash);
  free(o.d);
}

// ---------- json ------------
void w_json_tx(const wexec* e, const wtx* t, wbuf* o) {
  wb_f(o, "{\"blockHash\":");
  wb_hex(o, e->hash, 32);
  wb_f(o, ",\"blockNumber\":");
  wb_qty(o, e->number);
  wb_f(o, ",\"from\":");
  wb_hex(o, t->from, 20);
  wb_f(o, ",\"gas\":");
  wb_qty(o, t->gas);
  wb_f(o, ",\"gasPrice\":");
  wb_qty(o, t->eff_price);
  if (t->type >= 2) {
    wb_f(o, ",\"maxFeePerGas\":");
    wb_qty(o, t->max_fee);
    wb_f(o, ",\"maxPriorityFeePerGas\":");
    wb_qty(o, t->max_prio);
  }
  if (t->type == 3) {
    wb_f(o, ",\"maxFeePerBlobGas\":");
    wb_qty(o, t->max_blob_fee);
    wb_f(o, ",\"blobVersionedHashes\":[");
    for (int i = 0; i < t->nblob; i++) {
      if (i) wb_f(o, ",");
      wb_hex(o, t->blob[i], 32);
    }
    wb_f(o, "]");
  }
  wb_f(o, ",\"hash\":");
  wb_hex(o, t->hash, 32);
  wb_f(o, ",\"input\":");
  wb_hex(o, t->data, t->ndata);
  wb_f(o, ",\"nonce\":");
  wb_qty(o, t->nonce);
  wb_f(o, ",\"to\":");
  if (t->create)
    wb_f(o, "null");
  else
    wb_hex(o, t->to, 20);
  wb_f(o, ",\"transactionIndex\":");
  wb_qty(o, t->index);
  wb_f(o, ",\"value\":");
  wb_qty_be(o, t->value, 32);
  wb_f(o, ",\"type\":");
  wb_qty(o, t->type);
  if (t->type) {
    wb_f(o, ",\"accessList\":[");
    for (int i = 0; i < t->nacc; i++) {
      if (i) wb_f(o, ",");
      wb_f(o, "{\"address\":");
      wb_hex(o, t->acc_addr[i], 20);
      wb_f(o, ",\"storageKeys\":[");
      for (int k = 0; k < t->acc_nkeys[i]; k++) {
        if (k) wb_f(o, ",");
        wb_hex(o, t->acc_keys[i][k], 32);
      }
      wb_f(o, "]}");
    }
    wb_f(o, "]");
  }
  if (t->type == 4) {
    wb_f(o, ",\"authorizationList\":[");
    for (int i = 0; i < t->nauth; i++) {
      if (i) wb_f(o, ",");
      wb_f(o, "{\"chainId\":");
      wb_qty(o, t->auth[i].chain_id);
      wb_f(o, ",\"address\":");
      wb_hex(o, t->auth[i].addr, 20);
      wb_f(o, ",\"nonce\":");
      wb_qty(o, t->auth[i].nonce);
      wb_f(o, ",\"yParity\":");
      wb_qty(o, t->auth[i].y);
      wb_f(o, ",\"r\":");
      wb_qty_be(o, t->auth[i].r, 32);
      wb_f(o, ",\"s\":");
      wb_qty_be(o, t->auth[i].s, 32);
      wb_f(o, "}");
    }
    wb_f(o, "]");
  }
  if (!(t->type == 0 && t->pre155)) {
    wb_f(o, ",\"chainId\":");
    wb_qty(o, t->chain_id);
  }
  wb_f(o, ",\"v\":");
  wb_qty(o, t->type ? t->rec : t->pre155 ? 27 + t->rec : t->chain_id * 2 + 35 + t->rec);
  if (t->type) {
    wb_f(o, ",\"yParity\":");
    wb_qty(o, t->rec);
  }
  wb_f(o, ",\"r\":");
  wb_qty_be(o, t->r, 32);
  wb_f(o, ",\"s\":");
  wb_qty_be(o, t->s, 32);
  wb_f(o, "}");
}
void w_json_log(const wexec* e, const wtx* t, int i, wbuf* o) {
  const wlog* l = t->logs + i;
  wb_f(o, "{\"address\":");
  wb_hex(o, l->addr, 20);
  wb_f(o, ",\"topics\":[");
  for (int k = 0; k < l->ntopics; k++) {
    if (k) wb_f(o, ",");
    wb_hex(o, l->topics[k], 32);
  }
  wb_f(o, "],\"data\":");
  wb_hex(o, l->data, l->ndata);
  wb_f(o, ",\"blockNumber\":");
  wb_qty(o, e->number);
  wb_f(o, ",\"transactionHash\":");
  wb_hex(o, t->hash, 32);
  wb_f(o, ",\"transactionIndex\":");
  wb_qty(o, t->index);
  wb_f(o, ",\"blockHash\":");
  wb_hex(o, e->hash, 32);
  wb_f(o, ",\"logIndex\":");
  wb_qty(o, t->log_base + i);
  wb_f(o, ",\"removed\":false}");
}
void w_json_receipt(const wexec* e, const wtx* t, wbuf* o) {
  wb_f(o, "{\"blockHash\":");
  wb_hex(o, e->hash, 32);
  wb_f(o, ",\"blockNumber\":");
  wb_qty(o, e->number);
  wb_f(o, ",\"contractAddress\":");
  if (t->create) {
    wbuf    c = {0}, l = {0};
    uint8_t h[32];
    wr_item(&c, t->from, 20);
    wr_uint(&c, t->nonce);
    wr_list(&l, &c);
    w_keccak(l.d, l.n, h);
    free(l.d);
    wb_hex(o, h + 12, 20);
  }
  else
    wb_f(o, "null");
  wb_f(o, ",\"cumulativeGasUsed\":");
  wb_qty(o, t->cum_gas);
  wb_f(o, ",\"effectiveGasPrice\":");
  wb_qty(o, t->eff_price);
  wb_f(o, ",\"from\":");
  wb_hex(o, t->from, 20);
  wb_f(o, ",\"gasUsed\":");
  wb_qty(o, t->gas_used);
  wb_f(o, ",\"logs\":[");
  for (int i = 0; i < t->nlogs; i++) {
    if (i) wb_f(o, ",");
    w_json_log(e, t, i, o);
  }
  wb_f(o, "],\"logsBloom\":");
  wb_hex(o, t->bloom, 256);
  wb_f(o, ",\"status\":");
  wb_qty(o, t->ok);
  wb_f(o, ",\"to\":");
  if (t->create)
    wb_f(o, "null");
  else
    wb_hex(o, t->to, 20);
  wb_f(o, ",\"transactionHash\":");
  wb_hex(o, t->hash, 32);
  wb_f(o, ",\"transactionIndex\":");
  wb_qty(o, t->index);
  wb_f(o, ",\"type\":");
  wb_qty(o, t->type);
  wb_f(o, "}");
}
void w_json_block(const wexec* e, bool full, wbuf* o) {
#define H(name, f, n) wb_f(o, ",\"" name "\":"), wb_hex(o, f, n)
#define Q(name, v)    wb_f(o, ",\"" name "\":"), wb_qty(o, v)
  static const uint8_t uncles[] = {0x1d, 0xcc, 0x4d, 0xe8, 0xde, 0xc7, 0x5d, 0x7a, 0xab, 0x85, 0xb5, 0x67, 0xb6, 0xcc, 0xd4, 0x1a, 0xd3, 0x12, 0x45, 0x1b, 0x94, 0x8a, 0x74, 0x13, 0xf0, 0xa1, 0x42, 0xfd, 0x40, 0xd4, 0x93, 0x47};
  uint8_t              z[32]    = {0};
  wb_f(o, "{\"difficulty\":\"0x0\"");
  wb_f(o, ",\"baseFeePerGas\":");
  wb_qty_be(o, e->base_fee, 32);
  Q("blobGasUsed", e->blob_gas);
  Q("excessBlobGas", e->excess_blob);
  H("extraData", e->extra, e->nextra);
  Q("gasLimit", e->gas_limit);
  Q("gasUsed", e->gas_used);
  H("hash", e->hash, 32);
  H("logsBloom", e->bloom, 256);
  H("miner", e->fee_recipient, 20);
  H("mixHash", e->randao, 32);
  H("nonce", z, 8);
  Q("number", e->number);
  H("parentBeaconBlockRoot", e->parent_beacon, 32);
  H("parentHash", e->parent_hash, 32);
  H("receiptsRoot", e->receipts_root, 32);
  if (memcmp(z, e->requests_hash, 32)) H("requestsHash", e->requests_hash, 32);
  H("sha3Uncles", uncles, 32);
  H("stateRoot", e->state_root, 32);
  Q("timestamp", e->timestamp);
  H("transactionsRoot", e->tx_root, 32);
  H("withdrawalsRoot", e->wd_root, 32);
  wb_f(o, ",\"uncles\":[],\"transactions\":[");
  for (int i = 0; i < e->ntxs; i++) {
    if (i) wb_f(o, ",");
    if (full)
      w_json_tx(e, e->txs + i, o);
    else
      wb_hex(o, e->txs[i].hash, 32);
  }
  wb_f(o, "],\"withdrawals\":[");
  for (int i = 0; i < e->nwd; i++) {
    if (i) wb_f(o, ",");
    wb_f(o, "{\"index\":");
    wb_qty(o, e->wd[i].index);
    Q("validatorIndex", e->wd[i].validator);
    H("address", e->wd[i].addr, 20);
    Q("amount", e->wd[i].amount);
    wb_f(o, "}");
  }
  wb_f(o, "]}");
}
static void json_nodes(wm_proof* p, wbuf* o) {
  wb_f(o, "[");
  for (int i = 0; i < p->len; i++) {
    if (i) wb_f(o, ",");
    wb_hex(o, p->d[i], p->n[i]);
    free(p->d[i]);
  }
  wb_f(o, "]");
}
void w_json_proof(wexec* e, const uint8_t addr[20], uint8_t (*keys)[32], int nkeys, wbuf* o) {
  wm_proof p;
  wacct*   a = w_acct(e, addr);
  uint8_t  zero[32] = {0}, empty_root[32], empty_code[32];
  w_keccak("\x80", 1, empty_root);
  w_keccak("", 0, empty_code);
  wb_f(o, "{\"address\":");
  wb_hex(o, addr, 20);
  wb_f(o, ",\"balance\":");
  wb_qty_be(o, a ? a->balance : zero, 32);
  wb_f(o, ",\"nonce\":");
  wb_qty(o, a ? a->nonce : 0);
  H("codeHash", a ? a->code_hash : empty_code, 32);
  H("storageHash", a ? a->storage_root : empty_root, 32);
  wb_f(o, ",\"accountProof\":");
  w_account_proof(e, addr, &p);
  json_nodes(&p, o);
  wb_f(o, ",\"storageProof\":[");
  for (int i = 0; i < nkeys; i++) {
    uint8_t v[32];
    w_storage_proof(a, keys[i], &p, v);
    if (i) wb_f(o, ",");
    wb_f(o, "{\"key\":");
    wb_hex(o, keys[i], 32);
    wb_f(o, ",\"value\":");
    wb_qty_be(o, v, 32);
    wb_f(o, ",\"proof\":");
    json_nodes(&p, o);
    wb_f(o, "}");
  }
  wb_f(o, "]}");
}
bool w_log_matches(const wfilter* f, const wlog* l) {
  if (f->naddr) {
    bool ok = false;
    for (int i = 0; i < f->naddr; i++) ok |= memcmp(f->addr[i], l->addr, 20) == 0;
    if (!ok) return false;
  }
  for (int i = 0; i < f->ntop; i++) {
    if (!f->nalt[i]) {
      if (i >= l->ntopics) return false;
      continue;
    }
    if (i >= l->ntopics) return false;
    bool ok = false;
    for (int k = 0; k < f->nalt[i]; k++) ok |= memcmp(f->top[i][k], l->topics[i], 32) == 0;
    if (!ok) return false;
  }
  return true;
}
void w_json_logs(world* w, const wfilter* f, wbuf* o) {
  bool first = true;
  wb_f(o, "[");
  for (int b = 0; b <= w->head; b++) {
    wexec* e = w->b[b].ex;
    if (f->by_hash ? memcmp(f->hash, e->hash, 32) != 0 : e->number < f->from || e->number > f->to) continue;
    for (int i = 0; i < e->ntxs; i++)
      for (int k = 0; k < e->txs[i].nlogs; k++)
        if (w_log_matches(f, e->txs[i].logs + k)) {
          if (!first) wb_f(o, ",");
          first = false;
          w_json_log(e, e->txs + i, k, o);
        }
  }
  wb_f(o, "]");
}
