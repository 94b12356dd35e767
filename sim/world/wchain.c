// the beacon chain: committees, blocks, states, light client data
#include "blst.h"
#include "ecdsa.h"
#include "secp256k1.h"
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define SLOTS_PER_PERIOD 8192ull
static int E(const world* w) { return 1 << w->epoch_bits; }
uint64_t   w_epoch(const world* w, uint64_t slot) { return slot >> w->epoch_bits; }
uint64_t   w_period(const world* w, uint64_t slot) { return slot / SLOTS_PER_PERIOD; }
int        w_fork(const world* w, uint64_t epoch) {
  int i = 0;
  while (w->fork_epochs[i] && epoch >= w->fork_epochs[i]) i++;
  return i;
}
static bool electra(const world* w, uint64_t slot) { return w_fork(w, w_epoch(w, slot)) >= 5; }
wcommittee* w_com(const world* w, uint64_t period) {
  if (period < w->first_period || period >= w->first_period + w->nperiods) return NULL;
  return w->com + (period - w->first_period);
}
static void fork_version(const world* w, int fork, uint8_t v[4]) {
  memset(v, 0, 4);
  if (w->chain_id == 1)
    v[0] = fork;
  else if (w->chain_id == 11155111) {
    v[0] = 0x90;
    v[3] = 0x6f + fork;
  }
  else {
    v[0] = fork;
    v[3] = w->chain_id == 10200 ? 0x6f : 100;
  }
}
void w_domain(const world* w, uint64_t sig_slot, uint8_t out[32]) {
  uint8_t v[32] = {0}, r[32];
  fork_version(w, w_fork(w, w_epoch(w, sig_slot ? sig_slot - 1 : 0)), v);
  w_sha2(v, w->gvr, r);
  out[0] = 7;
  out[1] = out[2] = out[3] = 0;
  memcpy(out + 4, r, 28);
}
void w_sign_msg(const world* w, const uint8_t root[32], uint64_t sig_slot, uint8_t out[32]) {
  uint8_t d[32];
  w_domain(w, sig_slot, d);
  w_sha2(root, d, out);
}
void w_sign(const wcommittee* c, const uint8_t msg[32], const uint8_t bits[64], uint8_t sig[96]) {
  uint64_t sum = 0;
  for (int i = 0; i < 512; i++)
    if (bits[i / 8] & (1 << (i % 8))) sum = (sum + c->sk[i]) % BLSSIM_P;
  blssim_signature(blssim_mul(sum, blssim_hash(msg, 32)), sig);
}
void w_make_committee(world* w, wcommittee* c, uint32_t period, const wcommittee* prev) {
  c->period    = period;
  uint64_t sum = 0;
  uint8_t(*t)[32] = malloc(512 * 32);
  for (int i = 0; i < 512; i++) {
    c->sk[i] = w_rnd(&w->rnd) % (BLSSIM_P - 1) + 1;
    // validators may serve in consecutive committees and more than once
    if (i % 97 == 5) c->sk[i] = c->sk[i - 3];
    if (prev && i % 61 == 7) c->sk[i] = prev->sk[i];
    blssim_pubkey(c->sk[i], c->keys[i]);
    sum = (sum + c->sk[i]) % BLSSIM_P;
    uint8_t k[64] = {0};
    memcpy(k, c->keys[i], 48);
    w_sha256(k, 64, t[i]);
  }
  w_merkleize(t, 512, 9, c->keys_root);
  free(t);
  blssim_pubkey(sum, c->agg);
  uint8_t a[64] = {0}, ar[32];
  memcpy(a, c->agg, 48);
  w_sha256(a, 64, ar);
  w_sha2(c->keys_root, ar, c->root);
  // fewer than one third of the members are controlled by the adversary
  for (int i = 0; i < 512; i++) {
    c->bad[i] = i % 3 == 1 && c->nbad < 170;
    c->nbad += c->bad[i];
  }
  c->upd = -1;
}
// everything an adversary can do without knowing the keys of the honest members
void w_attack_sign(const world* w, const wcommittee* c, const uint8_t msg[32], uint64_t slot, int mode, uint8_t bits[64], uint8_t sig[96]) {
  uint8_t bad[64] = {0};
  for (int i = 0; i < 512; i++)
    if (c->bad[i]) bad[i / 8] |= 1 << (i % 8);
  memcpy(bits, bad, 64);
  w_sign(c, msg, bad, sig);
  switch (mode) {
    case SM_ALL_KEYS:
      memset(bits, 0xff, 64);
      w_sign(c, msg, bits, sig);
      return;
    case SM_BAD_ONLY: return; // really signed, but not by enough
    case SM_BAD_CLAIM_ALL: memset(bits, 0xff, 64); return;
    case SM_BAD_CLAIM_342:
      for (int i = 0, n = c->nbad; i < 512 && n < 342; i++)
        if (!c->bad[i]) bits[i / 8] |= 1 << (i % 8), n++;
      return;
    case SM_NOBITS_INF:
    case SM_ALL_INF:
    case SM_ZERO_SIG:
      memset(bits, mode == SM_NOBITS_INF ? 0 : 0xff, 64);
      memset(sig, 0, 96);
      if (mode != SM_ZERO_SIG) sig[0] = 0xc0;
      return;
    case SM_ALL_RANDOM: {
      uint8_t other[32];
      w_sha256(msg, 32, other);
      memset(bits, 0xff, 64);
      w_sign(c, other, bad, sig);
      return;
    }
    case SM_COPY: {
      int i = w->canon ? w_find_slot(w->canon, slot) : -1;
      if (i < 0) return;
      memcpy(bits, w->canon->b[i].bits, 64);
      memcpy(sig, w->canon->b[i].sig, 96);
      return;
    }
  }
}
wn* w_committee_node(const wcommittee* c) {
  wn** k = malloc(512 * sizeof(wn*));
  for (int i = 0; i < 512; i++) k[i] = wn_fix(c->keys[i], 48);
  wn* v = wn_vec(512, k);
  memcpy(v->root, c->keys_root, 32);
  v->rooted = true;
  free(k);
  return wn_cont(2, v, wn_fix(c->agg, 48));
}
void w_header_root(uint64_t slot, uint64_t proposer, const uint8_t parent[32], const uint8_t state[32], const uint8_t body[32], uint8_t out[32]) {
  uint8_t t[5][32] = {0};
  for (int i = 0; i < 8; i++) {
    t[0][i] = slot >> (8 * i);
    t[1][i] = proposer >> (8 * i);
  }
  memcpy(t[2], parent, 32);
  memcpy(t[3], state, 32);
  memcpy(t[4], body, 32);
  w_merkleize(t, 5, 3, out);
}
wn* w_header_node(const wblock* b) {
  return wn_cont(5, wn_u64(b->slot), wn_u64(b->proposer), wn_fix(b->parent, 32), wn_fix(b->state, 32), wn_fix(b->body, 32));
}

// ---------- block body ------------
static wn* payload_node(const world* w, const wexec* e, bool header) {
  uint8_t le[32];
  for (int i = 0; i < 32; i++) le[i] = e->base_fee[31 - i];
  wn** tx = malloc((e->ntxs + 1) * sizeof(wn*));
  wn*  wd[4];
  for (int i = 0; i < e->ntxs; i++) tx[i] = wn_bytes(e->txs[i].raw, e->txs[i].nraw, 1073741824);
  for (int i = 0; i < e->nwd; i++) wd[i] = wn_cont(4, wn_u64(e->wd[i].index), wn_u64(e->wd[i].validator), wn_fix(e->wd[i].addr, 20), wn_u64(e->wd[i].amount));
  wn* txs  = wn_list(1048576, e->ntxs, tx, true);
  wn* wds  = wn_list(w->gnosis ? 8 : 16, e->nwd, wd, false);
  free(tx);
  if (header) {
    uint8_t r[32];
    wn_root(txs, r);
    txs = wn_fix(r, 32);
    wn_root(wds, r);
    wds = wn_fix(r, 32);
  }
  return wn_cont(17, wn_fix(e->parent_hash, 32), wn_fix(e->fee_recipient, 20), wn_fix(e->state_root, 32), wn_fix(e->receipts_root, 32), wn_fix(e->bloom, 256), wn_fix(e->randao, 32),
                 wn_u64(e->number), wn_u64(e->gas_limit), wn_u64(e->gas_used), wn_u64(e->timestamp), wn_bytes(e->extra, e->nextra, 32), wn_fix(le, 32), wn_fix(e->hash, 32),
                 txs, wds, wn_u64(e->blob_gas), wn_u64(e->excess_blob));
}
wn* w_payload_node(const world* w, const wexec* e) { return payload_node(w, e, false); }
static wn* rfix(uint64_t* r, int n) {
  uint8_t t[256];
  w_rfill(r, t, n);
  return wn_fix(t, n);
}
static wn* attdata(uint64_t* r) {
  return wn_cont(5, wn_u64(w_rnd(r)), wn_u64(w_rnd(r) % 64), rfix(r, 32), wn_cont(2, wn_u64(w_rnd(r)), rfix(r, 32)), wn_cont(2, wn_u64(w_rnd(r)), rfix(r, 32)));
}
static wn* hdr(uint64_t* r) { return wn_cont(2, wn_cont(5, wn_u64(w_rnd(r)), wn_u64(w_rnd(r)), rfix(r, 32), rfix(r, 32), rfix(r, 32)), rfix(r, 96)); }
// list of n uint64 packed, wrapped as bytes like node with the right root
static wn* u64list(uint64_t* r, int n, uint64_t limit) {
  uint8_t t[256];
  w_rfill(r, t, n * 8);
  wn*     v = wn_bytes(t, n * 8, limit * 8);
  uint8_t l[4][32] = {0}, root[32], len[32] = {0};
  memcpy(l, t, n * 8);
  int depth = 0;
  while ((1ull << depth) < (limit * 8 + 31) / 32) depth++;
  w_merkleize(l, (n * 8 + 31) / 32, depth, root);
  len[0] = n;
  w_sha2(root, len, v->root);
  v->rooted = true;
  return v;
}
static wn* idxatt(uint64_t* r, bool el) { return wn_cont(3, u64list(r, 3, el ? 131072 : 2048), attdata(r), rfix(r, 96)); }
// the consensus layer part of a body; the same stream gives the same lists
typedef struct {
  wn *dep, *wdr, *con;
} wrequests;
static wrequests make_requests(uint64_t* r, int sel) {
  wrequests q;
  wn*       a[2];
  int       n = sel & 1 ? 1 + (sel & 2 ? 1 : 0) : 0;
  for (int i = 0; i < n; i++) a[i] = wn_cont(5, rfix(r, 48), rfix(r, 32), wn_u64(32000000000ull), rfix(r, 96), wn_u64(w_rnd(r) % 100000));
  q.dep = wn_list(8192, n, a, false);
  n     = sel & 4 ? 1 : 0;
  for (int i = 0; i < n; i++) a[i] = wn_cont(3, rfix(r, 20), rfix(r, 48), wn_u64(w_rnd(r) % 1000000));
  q.wdr = wn_list(16, n, a, false);
  n     = sel & 8 ? 1 : 0;
  for (int i = 0; i < n; i++) a[i] = wn_cont(3, rfix(r, 20), rfix(r, 48), rfix(r, 48));
  q.con = wn_list(2, n, a, false);
  return q;
}
static void requests_hash(wrequests* q, uint8_t out[32]) {
  wbuf all = {0};
  wn*  l[] = {q->dep, q->wdr, q->con};
  for (int i = 0; i < 3; i++) {
    if (!l[i]->kn) continue;
    wbuf    b = {0};
    uint8_t h[32];
    wb_u8(&b, i);
    wn_ser(l[i], &b);
    w_sha256(b.d, b.n, h);
    wb_put(&all, h, 32);
    free(b.d);
  }
  w_sha256(all.d ? all.d : (uint8_t*) "", all.n, out);
  free(all.d);
}
static wn* body_node(const world* w, uint64_t slot, const wexec* e, const uint8_t bits[64], const uint8_t sig[96], wrequests* rq, uint64_t* r) {
  bool el = electra(w, slot);
  int  sel = w_rnd(r) & 0xffff;
  wn * ps[1], *as[1], *at[3], *de[1], *ve[2], *bc[2], *kz[3];
  int  nps = (sel & 0xf) == 1, nas = (sel & 0x30) == 0x10, nat = (sel >> 6) & 3, nde = (sel & 0xf00) == 0x100, nve = (sel >> 12) & 1, nbc = (sel >> 13) & 1, nkz = (sel >> 14) & 3;
  if (nat > 3) nat = 3;
  if (nps) ps[0] = wn_cont(2, hdr(r), hdr(r));
  if (nas) as[0] = wn_cont(2, idxatt(r, el), idxatt(r, el));
  for (int i = 0; i < nat; i++) {
    uint8_t b[32];
    w_rfill(r, b, 32);
    int bits_n = 40 + w_rnd(r) % 180;
    wn* bl     = wn_bitlist(b, bits_n, el ? 131072 : 2048);
    at[i]      = el ? wn_cont(4, bl, attdata(r), rfix(r, 96), rfix(r, 8)) : wn_cont(3, bl, attdata(r), rfix(r, 96));
  }
  if (nde) {
    wn* pr[33];
    for (int i = 0; i < 33; i++) pr[i] = rfix(r, 32);
    de[0] = wn_cont(2, wn_vec(33, pr), wn_cont(4, rfix(r, 48), rfix(r, 32), wn_u64(32000000000ull), rfix(r, 96)));
  }
  for (int i = 0; i < nve; i++) ve[i] = wn_cont(2, wn_cont(2, wn_u64(w_rnd(r) % 1000), wn_u64(w_rnd(r) % 100000)), rfix(r, 96));
  for (int i = 0; i < nbc; i++) bc[i] = wn_cont(2, wn_cont(3, wn_u64(w_rnd(r) % 100000), rfix(r, 48), rfix(r, 20)), rfix(r, 96));
  for (int i = 0; i < nkz; i++) kz[i] = rfix(r, 48);
  wn* f[13] = {rfix(r, 96), wn_cont(3, rfix(r, 32), wn_u64(w_rnd(r) % 1000000), rfix(r, 32)), rfix(r, 32),
               wn_list(16, nps, ps, false), wn_list(el ? 1 : 2, nas, as, true), wn_list(el ? 8 : 128, nat, at, true), wn_list(16, nde, de, false), wn_list(16, nve, ve, false),
               wn_cont(2, wn_fix(bits, 64), wn_fix(sig, 96)), payload_node(w, e, false), wn_list(16, nbc, bc, false), wn_list(4096, nkz, kz, false), NULL};
  if (el) {
    f[12] = wn_cont(3, rq->dep, rq->wdr, rq->con);
    return wn_cont(13, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12]);
  }
  return wn_cont(12, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11]);
}

// ---------- state ------------
static void u64leaf(uint64_t v, uint8_t l[32]) {
  memset(l, 0, 32);
  for (int i = 0; i < 8; i++) l[i] = v >> (8 * i);
}
static uint8_t (*summary_leafs(const world* w, uint32_t upto, uint32_t* n))[32] {
  // roots of the HistoricalSummary containers for all periods from capella up to (excluding) upto
  uint32_t c0     = w->capella_epoch / (SLOTS_PER_PERIOD >> w->epoch_bits);
  *n              = upto - c0;
  uint8_t(*l)[32] = malloc((*n + 1) * 32);
  for (uint32_t i = 0; i < *n; i++) w_sha2(w->summaries[i][0], w->summaries[i][1], l[i]);
  return l;
}
static void summaries_root(const world* w, uint32_t upto, uint8_t out[32]) {
  static const world* cw;
  static uint32_t     cu;
  static uint8_t      cr[32];
  if (cw != w || cu != upto) {
    uint32_t n;
    uint8_t(*l)[32] = summary_leafs(w, upto, &n);
    uint8_t len[32];
    w_merkleize(l, n, 24, cr);
    u64leaf(n, len);
    w_sha2(cr, len, cr);
    free(l);
    cw = w;
    cu = upto;
  }
  memcpy(out, cr, 32);
}
static void validator_leafs(const world* w, uint8_t l[8][32]) {
  memset(l, 0, 256);
  memset(l[0], 0x11, 32);
  memcpy(l[1], w->evil_leaf, 32);
  l[2][0] = 1;
}
static void validators_root(const world* w, uint8_t out[32]) {
  uint8_t l[8][32], len[32];
  validator_leafs(w, l);
  w_merkleize(l, 8, 3, out);
  uint8_t t[1][32];
  memcpy(t[0], out, 32);
  w_merkleize(t, 1, 40, out);
  u64leaf(1, len);
  w_sha2(out, len, out);
}
// branch from the attacker chosen leaf (withdrawal credentials of validator 0) up to the state root: 3 + 40 + 1 + depth hashes; returns count
int w_evil_branch(const world* w, const wblock* b, uint8_t (*out)[32], uint64_t* gindex) {
  uint8_t l[8][32];
  validator_leafs(w, l);
  w_branch(l, 8, 3, 1, out);
  for (int i = 0; i < 40; i++) w_zero(i, out[3 + i]);
  u64leaf(1, out[43]);
  w_branch(b->state_leafs, 1u << b->state_depth, b->state_depth, 11, out + 44);
  *gindex = (((1ull << b->state_depth) + 11) << 44) + 1;
  return 44 + b->state_depth;
}
static void build_state(const world* w, wblock* b, const uint8_t fin_root[32], uint64_t fin_epoch, uint64_t* r) {
  b->state_depth = electra(w, b->slot) ? 6 : 5;
  int nf         = b->state_depth == 6 ? 37 : 28;
  uint64_t p     = w_period(w, b->slot);
  b->state_leafs = calloc(64, 32);
  for (int i = 0; i < nf; i++) w_rfill(r, b->state_leafs[i], 32);
  validators_root(w, b->state_leafs[11]);
  uint8_t ep[32];
  u64leaf(fin_epoch, ep);
  w_sha2(ep, fin_root, b->state_leafs[20]);
  memcpy(b->final_root, fin_root, 32);
  b->final_epoch = fin_epoch;
  wcommittee* c  = w_com(w, p);
  wcommittee* n  = w_com(w, p + 1);
  if (c) memcpy(b->state_leafs[22], c->root, 32);
  if (n) memcpy(b->state_leafs[23], n->root, 32);
  summaries_root(w, p, b->state_leafs[27]);
  w_merkleize(b->state_leafs, 1u << b->state_depth, b->state_depth, b->state);
}
int w_at_slot(const world* w, uint64_t slot) {
  int best = -1;
  for (int i = 0; i < w->nb && w->b[i].slot <= slot; i++) best = i;
  return best;
}
int w_find_slot(const world* w, uint64_t slot) {
  int i = w_at_slot(w, slot);
  return i >= 0 && w->b[i].slot == slot ? i : -1;
}
int w_find_root(const world* w, const uint8_t root[32]) {
  for (int i = 0; i < w->nb; i++)
    if (memcmp(w->b[i].root, root, 32) == 0) return i;
  return -1;
}
int w_find_number(const world* w, uint64_t number) {
  for (int i = 0; i < w->nb; i++)
    if (w->b[i].ex->number == number) return i;
  return -1;
}
int w_find_hash(const world* w, const uint8_t hash[32]) {
  for (int i = 0; i < w->nb; i++)
    if (memcmp(w->b[i].ex->hash, hash, 32) == 0) return i;
  return -1;
}
uint64_t w_sig_slot(const world* w, uint64_t parent_slot, uint64_t slot) {
  // the chain is sparse: a gap of more than 4 slots stands for blocks which are not part of the simulation, the parent has been signed by its (not simulated) successor
  return slot - parent_slot > 4 ? parent_slot + 1 : slot;
}
// the execution payload has to have its parent_hash, number and accounts/transactions set; everything else is filled here
void w_build_block(world* w, wblock* out, const wblock* parent, uint64_t slot, wexec* ex, uint64_t* rnd) {
  memset(out, 0, sizeof(*out));
  out->slot     = slot;
  out->proposer = w_rnd(rnd) % 1000000;
  out->ex       = ex;
  wrequests rq  = {0};
  ex->timestamp = w->genesis_time + slot * w->slot_secs;
  w_rfill(rnd, ex->randao, 32);
  if (parent) {
    memcpy(out->parent, parent->root, 32);
    memcpy(ex->parent_hash, parent->ex->hash, 32);
  }
  else {
    w_rfill(rnd, out->parent, 32);
    w_rfill(rnd, ex->parent_hash, 32);
  }
  memcpy(ex->parent_beacon, out->parent, 32);
  memset(ex->requests_hash, 0, 32);
  if (electra(w, slot)) {
    rq = make_requests(rnd, w_rnd(rnd) % 3 ? 0 : w_rnd(rnd) & 15);
    requests_hash(&rq, ex->requests_hash);
  }
  w_finish_exec(w, ex);
  // sync aggregate
  out->sig[0] = 0xc0;
  if (parent) {
    uint64_t    ss  = w_sig_slot(w, parent->slot, slot);
    wcommittee* c   = w_com(w, w_period(w, ss));
    int         mis = w_rnd(rnd) % 4 == 0 ? (int) (w_rnd(rnd) % 171) : (int) (w_rnd(rnd) % 12);
    bool        empty = out->bits[0] == 0 && w->empty_agg;
    if (c && !empty) {
      memset(out->bits, 0xff, 64);
      for (int i = 0; i < mis; i++) {
        int k = w_rnd(rnd) % 512;
        out->bits[k / 8] &= ~(1 << (k % 8));
      }
      if (w->low_agg) // fewer than 2/3 took part
        memset(out->bits + 38, 0, 26);
      uint8_t msg[32];
      w_sign_msg(w, parent->root, ss, msg);
      if (w->sign_mode && parent->slot >= w->forged_from && !c->evil)
        w_attack_sign(w, c, msg, slot, w->sign_mode, out->bits, out->sig);
      else
        w_sign(c, msg, out->bits, out->sig);
    }
  }
  out->body_node = body_node(w, slot, ex, out->bits, out->sig, &rq, rnd);
  wn_root(out->body_node, out->body);
  // finality
  uint8_t  fr[32] = {0};
  uint64_t ep = w_epoch(w, slot), fe = ep >= 2 ? ep - 2 : 0;
  int      fi = w_at_slot(w, fe << w->epoch_bits);
  if (fi >= 0) memcpy(fr, w->b[fi].root, 32);
  build_state(w, out, fr, fe, rnd);
  w_header_root(out->slot, out->proposer, out->parent, out->state, out->body, out->root);
  uint8_t sig[96];
  w_rfill(rnd, sig, 96);
  out->block = wn_cont(2, wn_cont(5, wn_u64(out->slot), wn_u64(out->proposer), wn_fix(out->parent, 32), wn_fix(out->state, 32), out->body_node), wn_fix(sig, 96));
}
const wbuf* w_block_ssz(wblock* b) {
  if (!b->ssz.n) wn_ser(b->block, &b->ssz);
  return &b->ssz;
}

// ---------- light client data ------------
static wn* branch_node(uint8_t (*br)[32], int n) {
  wn* k[16];
  for (int i = 0; i < n; i++) k[i] = wn_fix(br[i], 32);
  return wn_vec(n, k);
}
static void body_branch(const wblock* b, int idx, uint8_t (*out)[32]) {
  uint8_t t[16][32] = {0};
  for (uint32_t i = 0; i < b->body_node->kn; i++) wn_root(b->body_node->k[i], t[i]);
  w_branch(t, 16, 4, idx, out);
}
wn* w_lc_header(const wblock* b, const world* w) {
  uint8_t br[4][32];
  body_branch(b, 9, br);
  return wn_cont(3, w_header_node(b), payload_node(w, b->ex, true), branch_node(br, 4));
}
wn* w_lc_update_node(world* w, int attested, int sig_block, const wcommittee* next) {
  wblock* a = w->b + attested;
  wblock* s = w->b + sig_block;
  int     f = w_find_root(w, a->final_root);
  uint8_t nb[8][32], fb[8][32], ep[32];
  w_branch(a->state_leafs, 1u << a->state_depth, a->state_depth, 23, nb);
  u64leaf(a->final_epoch, ep);
  memcpy(fb[0], ep, 32);
  w_branch(a->state_leafs, 1u << a->state_depth, a->state_depth, 20, fb + 1);
  return wn_cont(7, w_lc_header(a, w), w_committee_node(next), branch_node(nb, a->state_depth), w_lc_header(w->b + (f < 0 ? 0 : f), w), branch_node(fb, a->state_depth + 1),
                 wn_cont(2, wn_fix(s->bits, 64), wn_fix(s->sig, 96)), wn_u64(w_sig_slot(w, a->slot, s->slot)));
}
void w_lc_update(world* w, uint32_t period, wbuf* out) {
  wcommittee* c = w_com(w, period);
  wcommittee* n = w_com(w, period + 1);
  if (!c || !n || c->upd < 0) return;
  wn_ser(w_lc_update_node(w, c->upd, c->upd + 1, n), out);
}
bool w_bootstrap(world* w, const uint8_t root[32], wbuf* out) {
  int i = w_find_root(w, root);
  if (i < 0) return false;
  wblock*     b = w->b + i;
  wcommittee* c = w_com(w, w_period(w, b->slot));
  uint8_t     br[8][32];
  w_branch(b->state_leafs, 1u << b->state_depth, b->state_depth, 22, br);
  wn_ser(wn_cont(3, w_lc_header(b, w), w_committee_node(c), branch_node(br, b->state_depth)), out);
  return true;
}
void w_summaries_proof(const world* w, const wblock* b, uint8_t (*out)[32]) { w_branch(b->state_leafs, 1u << b->state_depth, b->state_depth, 27, out); }
uint32_t w_capella_period(const world* w) { return w->capella_epoch / (SLOTS_PER_PERIOD >> w->epoch_bits); }

// ---------- the canonical chain ------------
static void set_value(uint8_t v[32], uint64_t x) {
  memset(v, 0, 32);
  for (int i = 0; i < 8; i++) v[31 - i] = x >> (8 * i);
}
static void init_accounts(world* w, wexec* e) {
  uint64_t* r = &w->rnd;
  e->naccts   = w->nusers + 6;
  e->accts    = calloc(e->naccts, sizeof(wacct));
  for (int i = 0; i < e->naccts; i++) {
    wacct* a = e->accts + i;
    if (i < w->nusers)
      memcpy(a->addr, w->user_addr[i], 20);
    else
      w_rfill(r, a->addr, 20);
    if (i == w->nusers + 3) a->addr[0] = 0; // addresses may have leading zeros
    if (i == w->nusers + 4) memset(a->addr, 0, 9);
    set_value(a->balance, w_rnd(r));
    if (i % 4 == 3) w_rfill(r, a->balance + 16, 8);
    a->nonce = i < w->nusers ? w_rnd(r) % 300 : 1;
    if (i >= w->nusers) {
      int n    = (int[]) {0, 5, 60, 200, 24, 1}[i - w->nusers];
      a->ncode = n;
      a->code  = malloc(n + 1);
      w_rfill(r, a->code, n);
      int s     = (int[]) {0, 1, 3, 24, 70, 2}[i - w->nusers];
      a->nslots = s;
      a->slots  = calloc(s + 1, sizeof(wslot));
      for (int k = 0; k < s; k++) {
        if (k < 6)
          set_value(a->slots[k].key, k);
        else
          w_rfill(r, a->slots[k].key, 32);
        if (k % 3 == 0)
          set_value(a->slots[k].val, 1 + w_rnd(r) % 200);
        else if (k % 3 == 1)
          w_rfill(r, a->slots[k].val, 32);
        else
          w_rfill(r, a->slots[k].val + 12, 20);
        if (!memcmp(a->slots[k].val, (uint8_t[32]) {0}, 32)) a->slots[k].val[31] = 1;
      }
    }
    else
      a->slots = calloc(1, sizeof(wslot));
    w_keccak(a->code ? a->code : (uint8_t*) "", a->ncode, a->code_hash);
  }
}
void w_random_tx(world* w, wtx* t, uint64_t* r, wexec* e) {
  memset(t, 0, sizeof(*t));
  int types[] = {0, 2, 2, 1, 3, 4, 0, 2};
  t->type     = types[w_rnd(r) % 8];
  if (t->type == 4 && !w->pectra) t->type = 2;
  t->chain_id = w->chain_id;
  int u       = w_rnd(r) % w->nusers;
  memcpy(t->from, w->user_addr[u], 20);
  t->nonce     = e->accts[u].nonce++;
  t->gas       = 21000 + w_rnd(r) % 1000000;
  uint64_t base = 0;
  for (int i = 24; i < 32; i++) base = base << 8 | e->base_fee[i];
  t->gas_price = base + w_rnd(r) % 100000000000ull;
  t->max_fee   = t->gas_price + 100000000ull;
  t->max_prio  = w_rnd(r) % 2000000000ull;
  t->max_blob_fee = 1 + w_rnd(r) % 1000;
  t->pre155    = t->type == 0 && w_rnd(r) % 5 == 0;
  t->create    = t->type < 3 && w_rnd(r) % 7 == 0;
  memcpy(t->to, e->accts[w_rnd(r) % e->naccts].addr, 20);
  if (w_rnd(r) % 3) set_value(t->value, w_rnd(r) >> (w_rnd(r) % 60));
  t->ndata = (int[]) {0, 0, 4, 36, 68, 132, 1, 300}[w_rnd(r) % 8];
  if (t->create && !t->ndata) t->ndata = 20;
  t->data = malloc(t->ndata + 1);
  w_rfill(r, t->data, t->ndata);
  if (t->type) {
    t->nacc = w_rnd(r) % 3;
    for (int i = 0; i < t->nacc; i++) {
      w_rfill(r, t->acc_addr[i], 20);
      t->acc_nkeys[i] = w_rnd(r) % 4;
      w_rfill(r, t->acc_keys[i], 96);
    }
  }
  if (t->type == 3) {
    t->nblob = 1 + w_rnd(r) % 3;
    w_rfill(r, t->blob, 96);
    for (int i = 0; i < t->nblob; i++) t->blob[i][0] = 1;
  }
  if (t->type == 4) {
    t->nauth = 1 + w_rnd(r) % 2;
    for (int i = 0; i < t->nauth; i++) {
      t->auth[i].chain_id = i ? 0 : w->chain_id;
      t->auth[i].nonce    = w_rnd(r) % 100;
      w_rfill(r, t->auth[i].addr, 20);
      w_rfill(r, t->auth[i].r, 32);
      w_rfill(r, t->auth[i].s, 32);
      t->auth[i].s[0] &= 0x3f;
      t->auth[i].y = w_rnd(r) & 1;
    }
  }
  w_tx_make(w, t, r);
  t->ok       = w_rnd(r) % 6 != 0;
  t->gas_used = 21000 + w_rnd(r) % 100000;
  t->nlogs    = t->ok ? (int[]) {0, 1, 2, 0, 3, 1, 6, 0}[w_rnd(r) % 8] : 0;
  for (int i = 0; i < t->nlogs; i++) {
    wlog* l = t->logs + i;
    memcpy(l->addr, e->accts[w->nusers + w_rnd(r) % 6].addr, 20);
    l->ntopics = w_rnd(r) % 5;
    for (int k = 0; k < l->ntopics; k++) {
      uint64_t v = w_rnd(r) % 3 + k * 16;
      memset(l->topics[k], 0, 32);
      if (k == 0)
        w_keccak(&v, 8, l->topics[0]);
      else
        set_value(l->topics[k], v);
    }
    l->ndata = (int[]) {0, 32, 64, 7, 96, 32}[w_rnd(r) % 6];
    w_rfill(r, l->data, l->ndata);
  }
}
static wexec* next_exec(world* w, const wexec* prev, int ntx, uint64_t* r) {
  wexec* e = calloc(1, sizeof(wexec));
  if (prev) {
    e->naccts = prev->naccts;
    e->accts  = malloc(sizeof(wacct) * e->naccts);
    memcpy(e->accts, prev->accts, sizeof(wacct) * e->naccts);
    e->number = prev->number + 1;
    // some state changes
    for (int i = 0; i < 3; i++) {
      wacct* a = e->accts + w_rnd(r) % e->naccts;
      set_value(a->balance, w_rnd(r) >> (w_rnd(r) % 40));
      if (a->nslots) {
        wslot* s = malloc(sizeof(wslot) * (a->nslots + 1));
        memcpy(s, a->slots, sizeof(wslot) * a->nslots);
        a->slots = s;
        int k    = w_rnd(r) % a->nslots;
        set_value(s[k].val, 1 + (w_rnd(r) >> (w_rnd(r) % 56)));
      }
    }
  }
  else {
    init_accounts(w, e);
    e->number = 19000000 + w_rnd(r) % 1000000;
  }
  w_rfill(r, e->fee_recipient, 20);
  e->gas_limit   = 36000000;
  e->blob_gas    = (w_rnd(r) % 4) * 131072;
  e->excess_blob = (w_rnd(r) % 5) * 131072;
  set_value(e->base_fee, w_rnd(r) % 30000000000ull + 7);
  e->nextra = w_rnd(r) % 33;
  w_rfill(r, e->extra, e->nextra);
  e->nwd = w_rnd(r) % 5;
  for (int i = 0; i < e->nwd; i++) {
    e->wd[i].index     = e->number * 16 + i;
    e->wd[i].validator = w_rnd(r) % 1000000;
    e->wd[i].amount    = w_rnd(r) % 40000000;
    w_rfill(r, e->wd[i].addr, 20);
  }
  e->ntxs = ntx;
  e->txs  = calloc(ntx + 1, sizeof(wtx));
  for (int i = 0; i < ntx; i++) w_random_tx(w, e->txs + i, r, e);
  return e;
}
static void add_block(world* w, uint64_t slot, int ntx) {
  const wblock* p = w->nb ? w->b + w->nb - 1 : NULL;
  wblock        b;
  w->pectra = electra(w, slot);
  w_build_block(w, &b, p, slot, next_exec(w, p ? p->ex : NULL, ntx, &w->rnd), &w->rnd);
  w->b[w->nb++] = b;
}
static void finish_period(world* w, uint32_t period, bool rich) {
  // the summary of the period becomes part of the following states
  uint32_t    i = period - w_capella_period(w);
  wcommittee* c = w_com(w, period);
  w_rfill(&w->rnd, w->summaries[i], 64);
  if (!rich) return;
  c->block_roots = malloc(8192 * 32);
  int k          = -1;
  for (int s = 0; s < 8192; s++) {
    uint64_t slot = period * SLOTS_PER_PERIOD + s;
    if (k < 0) k = w_at_slot(w, slot);
    while (k + 1 < w->nb && w->b[k + 1].slot <= slot) k++;
    if (k < 0)
      memset(c->block_roots[s], 0, 32);
    else
      memcpy(c->block_roots[s], w->b[k].root, 32);
  }
  w_merkleize(c->block_roots, 8192, 13, c->block_roots_root);
  memcpy(w->summaries[i][0], c->block_roots_root, 32);
}
static void pubkey(const uint8_t* sk, uint8_t pk[65]) {
  curve_point R = {0};
  bignum256   k = {0};
  bn_read_be(sk, &k);
  scalar_multiply(&secp256k1, &k, &R);
  pk[0] = 4;
  bn_write_be(&R.x, pk + 1);
  bn_write_be(&R.y, pk + 33);
}
world* w_create(int cfg) {
  static const struct {
    const char* name;
    uint64_t    chain;
    int         eb;
    uint64_t    wsp, forks[7];
    const char *gvr, *zk;
    uint32_t    first, last;
    uint64_t    genesis;
    int         secs;
    uint32_t    rich[3];
  } C[] = {
      {"mainnet-pectra", 1, 5, 3682, {74240, 144896, 194048, 269568, 364032, 411392}, "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95", "908C6572059DA36BB66BAC9A7159B7C91E020F2574A2D655F2302985E5282483", 1407, 1425, 1606824023, 12, {1421, 1422, 1424}},
      {"gnosis-pectra", 100, 4, 1500, {512, 385536, 648704, 889856, 1337856}, "f5dcb5564e829aab27264b9becd5dfaa017085611224cb3036f573368dbb9d47", "910C4591FF6B258D8059B0B3F351A73C1394E806A768D8A6B823056FF27E3F69", 2607, 2616, 1638993340, 5, {2612, 2613, 2615}},
      {"mainnet-fulu", 1, 5, 3682, {74240, 144896, 194048, 269568, 364032, 411392}, "4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95", "908C6572059DA36BB66BAC9A7159B7C91E020F2574A2D655F2302985E5282483", 1603, 1610, 1606824023, 12, {1606, 1607, 1609}},
      {"sepolia-deneb", 11155111, 5, 3682, {50, 100, 56832, 132608, 222464, 272640}, "d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078", "CD94A32F4AFED68840D26E657D48F944B57B7435E0331BA83C4F9CAA2ED075ED", 859, 868, 1655733600, 12, {865, 866, 867}},
  };
  world* w = calloc(1, sizeof(world));
  w->name       = C[cfg].name;
  w->chain_id   = C[cfg].chain;
  w->epoch_bits = C[cfg].eb;
  w->period_bits = 13 - w->epoch_bits;
  w->wsp_epochs = C[cfg].wsp;
  memcpy(w->fork_epochs, C[cfg].forks, sizeof(C[cfg].forks));
  w_unhex(C[cfg].gvr, 64, w->gvr, 32);
  w_unhex(C[cfg].zk, 64, w->zk_root, 32);
  w->gnosis        = C[cfg].chain == 100;
  w->capella_epoch = w->fork_epochs[2];
  w->first_period  = C[cfg].first;
  w->nperiods      = C[cfg].last - C[cfg].first + 2; // the committee following the head period is known as well
  w->genesis_time  = C[cfg].genesis;
  w->slot_secs     = C[cfg].secs;
  w->rnd           = 0xc0ffee + cfg * 7919;
  w->nusers        = 5;
  memcpy(w->rich, C[cfg].rich, sizeof(w->rich));
  for (int i = 0; i < w->nusers; i++) {
    uint8_t pk[65], h[32];
    w_rfill(&w->rnd, w->user_sk[i], 32);
    w->user_sk[i][0] = 1;
    pubkey(w->user_sk[i], pk);
    w_keccak(pk + 1, 64, h);
    memcpy(w->user_addr[i], h + 12, 20);
  }
  w_rfill(&w->rnd, w->evil_leaf, 32);
  w->com = calloc(w->nperiods, sizeof(wcommittee));
  for (uint32_t i = 0; i < w->nperiods; i++) w_make_committee(w, w->com + i, w->first_period + i, i ? w->com + i - 1 : NULL);
  w->b         = calloc(400, sizeof(wblock));
  w->summaries = calloc(C[cfg].last + 2 - w_capella_period(w), 64);
  for (uint32_t p = w_capella_period(w); p < w->first_period; p++) w_rfill(&w->rnd, w->summaries[p - w_capella_period(w)], 64);
  for (uint32_t p = w->first_period; p <= C[cfg].last; p++) {
    uint64_t base = p * SLOTS_PER_PERIOD;
    int      e    = E(w);
    bool     rich = false, head = p == C[cfg].last;
    for (int i = 0; i < 3; i++) rich |= C[cfg].rich[i] == p;
    if (head) {
      // the adversary registered a validator, the withdrawal credentials are the root of a block he invented
      w->evil_of = w_find_slot(w, (uint64_t) C[cfg].rich[1] * SLOTS_PER_PERIOD + 1);
      const wblock* o = w->b + w->evil_of;
      wexec*        x = w_clone_exec(o->ex);
      for (int i = 0; i < x->naccts; i++) x->accts[i].balance[2] ^= 0x55;
      for (int i = 0; i < x->naccts; i++)
        for (int k = 0; k < x->accts[i].nslots; k++) x->accts[i].slots[k].val[1] ^= 0x55;
      for (int i = 0; i < x->ntxs; i++) x->txs[i].ok = !x->txs[i].ok;
      x->nextra = 3;
      w_build_block(w, &w->evil, w->b + w->evil_of - 1, o->slot, x, &w->rnd);
      memcpy(w->evil_leaf, w->evil.root, 32);
    }
    if (rich || head) {
      add_block(w, base, 1);
      add_block(w, base + 1, 1);
      if (rich) add_block(w, base + 2, 2);
    }
    add_block(w, base + 4 * e, 0);
    add_block(w, base + 6 * e + 1, 0);
    add_block(w, base + 6 * e + 2, 0);
    w_com(w, p)->upd = w->nb - 1;
    add_block(w, base + 6 * e + 3, 0);
    if (rich) {
      for (int i = 0; i < 8; i++)
        if (i != 3 && i != 4) {
          w->empty_agg = i == 6;
          add_block(w, base + 100 * e + i, i == 5 ? 3 : i % 2);
          w->empty_agg = false;
        }
      add_block(w, base + 8190, 1);
      add_block(w, base + 8191, 2);
    }
    if (head) {
      for (int i = 0; i < 44; i++) {
        if (i == 9 || i == 10 || i == 21 || i == 30) continue; // missed slots
        w->empty_agg = i == 6 || i == 25 || i == 26 || i == 36 || i == 37;
        w->low_agg   = i == 15 || (i >= 33 && i <= 35);
        add_block(w, base + 7 * e + i, i == 12 ? (cfg == 2 ? 270 : 132) : i == 18 ? 17 : (int) (w_rnd(&w->rnd) % 4));
        w->empty_agg = w->low_agg = false;
        if (i == 24) w->head_min = w->nb - 1;
      }
    }
    else
      finish_period(w, p, rich);
  }
  w->head_max = w->nb - 1;
  w->head     = w->head_min;
  return w;
}

void w_justified(const world* w, int head, uint64_t* epoch, uint8_t root[32]) {
  uint64_t ep = w_epoch(w, w->b[head].slot);
  *epoch      = ep ? ep - 1 : 0;
  int i       = w_at_slot(w, *epoch << w->epoch_bits);
  memcpy(root, w->b[i < 0 ? 0 : i].root, 32);
}
