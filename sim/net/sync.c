// P04: whatever provers and beacon nodes send, only canonical sync committees become trusted
#include "forge.h"
#include "eth_verify.h"
#include "beacon_types.h"
#include "sha2.h"
#include "blst.h"
#include "sync_committee.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
static world*   F;        // what the adversary invented
static bool     long_range;
static bool     check_down; // the checkpoint server does not answer
static bool     refuse;   // no updates (the client stays where it is)
static int      thr_k;    // updates are signed by this number of validators (-1: as they are)
static world*   TW;

// ---- stored state ----
static int periods_of(uint32_t* out) {
  wbuf s = {0};
  client_state_of(&s);
  int n = 0;
  if (s.n && s.d[0] == 1)
    for (uint32_t i = 1; i + 4 <= s.n; i += 4) out[n++] = s.d[i] | s.d[i + 1] << 8 | s.d[i + 2] << 16 | (uint32_t) s.d[i + 3] << 24;
  free(s.d);
  return n;
}
void keys96(const wcommittee* c, uint8_t* out) {
  for (int i = 0; i < 512; i++) {
    blst_p1_affine a;
    blst_p1_uncompress(&a, c->keys[i]);
    memcpy(out + i * sizeof(a), &a, sizeof(a));
  }
}
// the durable state of the current client; returns the reason if it is not canonical
const char* check_sync_state(bool torn_ok) {
  static char why[300];
  static uint8_t k96[512 * 96];
  wbuf           s = {0};
  client_state_of(&s);
  if (!s.n) return NULL;
  if (s.d[0] == 2 && s.n == 33) {
    int i = w_find_root(W, s.d + 1);
    if (i >= 0) return NULL;
    snprintf(why, sizeof(why), "the stored checkpoint is not a canonical block");
    return why;
  }
  uint32_t p[16];
  int      n = periods_of(p);
  for (int i = 0; i < n && i < 16; i++) {
    char key[64];
    sprintf(key, "sync_%llu_%u", (unsigned long long) W->chain_id, p[i]);
    sfile*      f = store_find(STORE, key);
    wcommittee* c = w_com(W, p[i]);
    if (!c) {
      snprintf(why, sizeof(why), "period %u is trusted, but it is not known to the chain", p[i]);
      return why;
    }
    for (int k = 0; k < i; k++)
      if (p[k] == p[i]) {
        snprintf(why, sizeof(why), "period %u is listed twice", p[i]);
        return why;
      }
    if (!f || !f->vis) {
      if (torn_ok) continue;
      snprintf(why, sizeof(why), "period %u is listed, but there are no keys", p[i]);
      return why;
    }
    uint32_t len = f->nvis % 48 == 32 ? f->nvis - 32 : f->nvis;
    if (torn_ok && len != 512 * 48 && len != 512 * 96) continue; // detectable as incomplete
    bool ok = false;
    if (len == 512 * 48) ok = !memcmp(f->vis, c->keys, len);
    else if (len == 512 * 96) {
      keys96(c, k96);
      ok = !memcmp(f->vis, k96, len);
    }
    if (!ok) {
      snprintf(why, sizeof(why), "the keys trusted for period %u (%u bytes) are not the sync committee of the chain", p[i], f->nvis);
      return why;
    }
    // the hash of the previous committee
    if (f->nvis == len + 32) {
      uint8_t z[32] = {0}, h[32];
      if (memcmp(f->vis + len, z, 32)) {
        wcommittee* q = w_com(W, p[i] - 1);
        bool        m = false;
        if (q) {
          sha256_Raw((uint8_t*) q->keys, 512 * 48, h);
          m = !memcmp(h, f->vis + len, 32);
          keys96(q, k96);
          sha256_Raw(k96, sizeof(k96), h);
          m = m || !memcmp(h, f->vis + len, 32);
        }
        if (!m) {
          snprintf(why, sizeof(why), "the hash of the previous committee stored for period %u is wrong", p[i]);
          return why;
        }
      }
    }
  }
  return NULL;
}
// ---- hostile beacon nodes ----
typedef struct {
  uint8_t* d;
  uint32_t n;
} chunk;
static int split(const wbuf* b, chunk* out, int max) {
  int n = 0;
  for (uint32_t p = 0; p + 12 < b->n && n < max;) {
    uint64_t l;
    memcpy(&l, b->d + p, 8);
    if (p + 8 + l > b->n) break;
    out[n++] = (chunk) {b->d + p, (uint32_t) l + 8};
    p += l + 8;
  }
  return n;
}
static void update_at(world* w, uint32_t period, wbuf* out) {
  wrequest q = {.type = 'b', .ssz = true};
  char     url[120];
  sprintf(url, "eth/v1/beacon/light_client/updates?start_period=%u&count=1", period);
  q.url     = url;
  wanswer a = {0};
  world*  k = AW;
  AW        = w;
  honest_answer(&q, &a);
  AW   = k;
  *out = a.body;
}
static void mutate_update(wbuf* u, const wbuf* donor) {
  if (u->n < 20) return;
  const ssz_def_t* def = eth_get_light_client_update(c4_eth_get_fork_for_lcu(W->chain_id, bytes(u->d + 12, u->n - 12)));
  st*              t   = def ? st_parse(def, u->d + 12, u->n - 12) : NULL;
  st*              o   = def && donor && donor->n > 20 ? st_parse(def, donor->d + 12, donor->n - 12) : NULL;
  if (!t) return;
  if (o && C(2, "graft")) graft(t, o);
  else
    for (int i = 1 + C(2, "mutations"); i; i--) mutate(t, o, NULL);
  wbuf x = {0}, y = {0};
  st_ser(t, &x);
  wb_le(&y, x.n + 4, 8);
  wb_put(&y, u->d + 8, 4);
  wb_put(&y, x.d, x.n);
  *u = y;
}
static uint32_t num_of(const char* url, const char* n) {
  const char* p = strstr(url, n);
  return p ? strtoul(p + strlen(n), NULL, 10) : 0;
}
static void hostile(const wrequest* q, wanswer* a) {
  if (q->type == 'c') {
    if (check_down) {
      a->outcome = 1;
      sim_fault_count("checkpoint_server_down");
      return;
    }
    return honest_answer(q, a);
  }
  bool upd = q->type == 'b' && strstr(q->url, "light_client/updates"), boot = q->type == 'b' && strstr(q->url, "light_client/bootstrap");
  if (upd && refuse) {
    a->outcome = 1;
    return;
  }
  if (upd && thr_k >= 0) {
    world* k = AW;
    AW       = TW;
    honest_answer(q, a);
    AW = k;
    return;
  }
  if ((!upd && !boot) || !F) return honest_answer(q, a);
  int how = C(8, "node");
  if (how == 0) return honest_answer(q, a);
  if (how == 7) {
    a->outcome = 1;
    sim_fault_count("failed_response");
    return;
  }
  if (boot) {
    sim_fault_count("forged_bootstrap");
    if (how < 4) { // the bootstrap of another block
      world*   w = how == 1 ? W : F;
      int      b = w->head - C(12, "boot");
      uint32_t p = w_period(W, W->b[w->head].slot) - C(3, "boot-period");
      if (how == 3 && w_com(F, p) && w_com(F, p)->upd >= 0) b = w_com(F, p)->upd;
      w_bootstrap(w, w->b[b].root, &a->body);
      return;
    }
    honest_answer(q, a);
    if (a->outcome) return;
    if (how == 4) {
      mutate_bytes(&a->body);
      return;
    }
    fork_id_t       fork = c4_eth_get_fork_for_lcu(W->chain_id, bytes(a->body.d, a->body.n));
    const ssz_def_t def  = {.name = "LightClientBootstrap", .type = SSZ_TYPE_CONTAINER, .def.container = {.elements = (fork <= C4_FORK_DENEB) ? DENEP_LIGHT_CLIENT_BOOTSTRAP : ELECTRA_LIGHT_CLIENT_BOOTSTRAP, .len = 3}};
    wbuf            o    = {0};
    w_bootstrap(F, F->b[F->head - C(8, "donor")].root, &o);
    st *t = st_parse(&def, a->body.d, a->body.n), *d = st_parse(&def, o.d, o.n);
    if (!t) return;
    if (d && C(2, "graft")) graft(t, d);
    else
      mutate(t, d, NULL);
    a->body.n = 0;
    st_ser(t, &a->body);
    return;
  }
  uint32_t start = num_of(q->url, "start_period="), count = num_of(q->url, "count=");
  if (how == 1) {
    world* k = AW;
    AW       = F;
    honest_answer(q, a);
    AW = k;
    sim_fault_count("forged_updates");
    return;
  }
  if (long_range) return honest_answer(q, a); // an adversary with all old keys is only modelled for complete answers
  sim_fault_count("manipulated_updates");
  if (how == 2) {
    honest_answer(q, a);
    mutate_bytes(&a->body);
    return;
  }
  // any combination, limited to the number of updates asked for
  wbuf out = {0};
  int  base = (int) start + (how == 3 ? (int) C(5, "shift") - 2 : 0);
  for (uint32_t i = 0, n = 0; i < count && n < 20; i++) {
    int  w = C(6, "update");
    int  p = base + i;
    if (w == 5) { // order and duplicates
      p = base + (int) C(count, "other");
      w = C(2, "update");
    }
    wbuf u = {0}, v = {0};
    update_at(w == 1 ? F : W, p, &u);
    if (w == 2 || w == 3) {
      update_at(w == 2 ? F : W, p, &v);
      mutate_update(&u, &v);
    }
    if (w == 4) continue;
    wb_put(&out, u.d, u.n);
    n++;
  }
  a->body = out;
}
// ---- signatures with a chosen number of participants ----
static void subset(int k, uint8_t bits[64]) {
  uint64_t s = sim_stream("subset");
  int      ix[512];
  for (int i = 0; i < 512; i++) ix[i] = i;
  memset(bits, 0, 64);
  for (int i = 0; i < k; i++) {
    int j = i + sim_rand(&s) % (512 - i), x = ix[j];
    ix[j]  = ix[i];
    bits[x / 8] |= 1 << (x % 8);
  }
}
static int pick_k(void) {
  static const int K[] = {0, 1, 2, 170, 256, 300, 340, 341, 342, 343, 400, 511, 512};
  return K[C(13, "signers")];
}
static void verify(const wreq* r, const wbuf* p, answer_fn ans, const char* cp, const char* how, wout* v) {
  run_verify(r, p->d, p->n, cp, ans, 60, v);
  const char* d;
  if (v->ok && (d = sound_answer(r, v->result, v->nresult))) sim_violation("forged-answer", "%s: the verifier accepted a wrong answer for %s %s: %s", how, r->method, r->args, d);
  if ((d = check_sync_state(false))) sim_violation("forged-committee", "%s (%s %s): %s", how, r->method, r->args, d);
  sim_checked(2);
  sim_stat(v->ok ? "accepted" : "rejected", 1);
}
static bool prove(const wreq* r, wbuf* out, uint32_t flags, const wbuf* cs, bool witness) {
  pcfg c = {.answer = honest_answer, .max_rounds = 60, .flags = flags};
  if (cs) c.client_state = *cs;
  if (witness) c.witness = W->user_addr[0], c.nwitness = 20;
  wout p;
  run_prover(r, &c, &p);
  *out = p.proof;
  return p.ok;
}
// the block whose signature the proof contains
static int signed_block(st* t, st** bits, st** sig) {
  st* hp = NULL;
  st* all[4000];
  int n = st_all(t, all, 4000);
  for (int i = 0; i < n; i++)
    if (!strcmp(all[i]->def->name, "header_proof") && all[i]->def->type == SSZ_TYPE_UNION) hp = all[i];
  if (!hp || !hp->nk) return -1;
  *bits = st_find(hp, "sync_committee_bits");
  *sig  = st_find(hp, "sync_committee_signature");
  st* h = hp->sel == 0 ? st_find(t, "header") : st_find(hp, "header");
  st* s = h ? st_find(h, "slot") : NULL;
  if (!s || !*bits || !*sig) return -1;
  uint64_t slot;
  memcpy(&slot, s->d, 8);
  return w_find_slot(W, slot);
}
static bool has_period(uint32_t p) {
  uint32_t ps[16];
  int      n = periods_of(ps);
  for (int i = 0; i < n; i++)
    if (ps[i] == p) return true;
  return false;
}
static void threshold_block(const char* cp) {
  wreq r;
  wbuf p, o = {0};
  gen_request(&r, K_ACCOUNT | K_TX | K_BLOCK, W->head - 12, W->head - 2);
  if (!prove(&r, &p, 0, NULL, false)) return;
  st *t = st_parse(st_request_def(), p.d, p.n), *bits, *sig;
  int b = t ? signed_block(t, &bits, &sig) : -1;
  if (b < 0) return;
  int         k = pick_k();
  uint8_t     bt[64], sg[96], m[32];
  wcommittee* c = w_com(W, w_period(W, W->b[b].slot + 1));
  subset(k, bt);
  w_sign_msg(W, W->b[b].root, W->b[b].slot + 1, m);
  w_sign(c, m, bt, sg);
  st_set(bits, bt, 64);
  st_set(sig, sg, 96);
  st_ser(t, &o);
  wout v;
  sim_fault_count("partial_signature");
  sim_log("block proof signed by %d", k);
  verify(&r, &o, honest_answer, cp, "threshold", &v);
  if (k < 342) SIM_REQUIRE(!v.ok, "threshold", "a block signed by %d of 512 validators was accepted for %s %s", k, r.method, r.args);
  else
    SIM_REQUIRE(v.ok, "threshold-liveness", "a block signed by %d of 512 validators was rejected for %s %s: %s", k, r.method, r.args, v.error ? v.error : "stuck");
  if (k < 342) sim_stat("below threshold", 1);
}
static void threshold_update(uint32_t from) {
  // all updates of the way to the head are signed by k validators
  wreq r;
  wbuf p;
  gen_request(&r, K_TX | K_BLOCK, W->head - 12, W->head - 2);
  if (!prove(&r, &p, 0, NULL, false)) return;
  thr_k = pick_k();
  TW    = malloc(sizeof(*TW));
  memcpy(TW, W, sizeof(*TW));
  TW->b = malloc(W->nb * sizeof(wblock));
  memcpy(TW->b, W->b, W->nb * sizeof(wblock));
  uint32_t to = w_period(W, W->b[W->head].slot);
  for (uint32_t q = from; q < to; q++) {
    wcommittee* c = w_com(W, q);
    wblock*     s = TW->b + c->upd + 1;
    uint8_t     m[32];
    subset(thr_k, s->bits);
    w_sign_msg(W, W->b[c->upd].root, W->b[c->upd].slot + 1, m);
    w_sign(c, m, s->bits, s->sig);
  }
  wout v;
  sim_fault_count("partial_signature");
  sim_log("updates signed by %d", thr_k);
  verify(&r, &p, hostile, NULL, "threshold", &v);
  bool got = has_period(to);
  if (thr_k < 342) SIM_REQUIRE(!got && !v.ok, "threshold", "a light client update signed by %d of 512 validators was accepted", thr_k);
  else if (!check_down)
    SIM_REQUIRE(got && v.ok, "threshold-liveness", "light client updates signed by %d of 512 validators were rejected: %s", thr_k, v.error ? v.error : "stuck");
  if (thr_k < 342) sim_stat("below threshold", 1);
  thr_k = -1;
}
void run_sync(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  thr_k      = -1;
  static sstore s = {.crash_at = -1};
  store_install(&s, 2 + C(6, "max-states"));
  uint32_t hp = w_period(W, W->b[W->head].slot), wsp = W->wsp_epochs / (8192 >> W->epoch_bits);
  // where the client starts
  char     cp[67], *cps = cp;
  int      start = C(5, "start");
  if (start > 2) start = 2;
  uint32_t p0    = hp;
  if (start == 0) set_checkpoint(cp, W->b[W->head].final_root);
  else if (start == 1) cps = NULL; // asks the checkpoint server
  else {
    uint32_t far = hp - W->first_period, d = 1 + C(5, "behind");
    if (d == 4) d = 1 + C(far, "behind");
    if (d == 5) d = far > wsp ? wsp + 1 + C(far - wsp, "behind") : 3;
    p0    = hp - d;
    int b = w_find_slot(W, (uint64_t) p0 * 8192 + 4 * (1 << W->epoch_bits));
    set_checkpoint(cp, W->b[b].root);
  }
  check_down = C(8, "checkpoint-down") == 7;
  long_range = hp - p0 > wsp && C(3, "long-range");
  // the client may already have the committee of its start period
  if (start == 2 && C(3, "known")) {
    wreq r;
    wbuf p;
    wout v;
    gen_request(&r, K_TX | K_BLOCK, W->head - 12, W->head - 2);
    refuse = true;
    if (prove(&r, &p, 0, NULL, false)) verify(&r, &p, hostile, cps, "start", &v);
    refuse = false;
    cps    = NULL;
    if (!long_range && C(4, "threshold") == 3 && has_period(p0)) return threshold_update(p0);
  }
  // the forged chain
  static const int MODES[] = {SM_BAD_CLAIM_ALL, SM_ALL_INF, SM_ALL_RANDOM, SM_COPY, SM_ZERO_SIG, SM_BAD_CLAIM_342, SM_BAD_ONLY, SM_NOBITS_INF};
  uint32_t         fork    = long_range ? p0 + 1 : p0 < hp && C(3, "fork") ? p0 + 1 + C(hp - p0, "fork-period") : hp - C(2, "fork-period");
  if (fork <= W->first_period) fork = W->first_period + 1;
  int from = w_com(W, fork - 1)->upd;
  if (long_range || C(2, "early")) from = w_find_slot(W, (uint64_t) (fork - 1) * 8192 + 4 * (1 << W->epoch_bits));
  if (from < 1) from = 1;
  F = forge_committees(W, fork, from, long_range ? SM_ALL_KEYS : MODES[C(8, "sign-mode")], 1 + C(255, "what"));
  sim_log("client starts at %u, head %u, forged committees from %u%s", p0, hp, fork, long_range ? " (all old keys leaked)" : "");
  if (long_range) sim_stat("long range", 1);
  int n = 2 + C(5, "attacks");
  for (int i = 0; i < n; i++) {
    wreq r, rf;
    wbuf p = {0}, pf = {0}, cs = {0}, out = {0};
    int  how = C(8, "attack");
    if (how == 7 && !long_range) {
      threshold_block(cps);
      continue;
    }
    gen_request(&r, 31, W->head - 18, W->head - 1);
    uint32_t flags = C(2, "sync-data") ? 1 << 5 : 0;
    bool     wit   = C(3, "witness") == 2;
    if (C(4, "zk") == 3) flags |= 1 << 7 | 1 << 3;
    client_state_of(&cs);
    bool okp = prove(&r, &p, flags, &cs, wit && C(3, "unsigned"));
    rf       = r;
    translate(&rf, W, F);
    AW       = F;
    bool okf = prove(&rf, &pf, flags, &cs, wit && C(3, "unsigned"));
    AW       = NULL;
    st *t = okp ? st_parse(st_request_def(), p.d, p.n) : NULL, *tf = okf ? st_parse(st_request_def(), pf.d, pf.n) : NULL;
    static const char* N[] = {"forged chain", "honest proof", "honest proof with forged sync data", "forged proof with honest sync data", "manipulated sync data", "mixed proofs"};
    how = long_range ? C(2, "lr") : how > 5 ? 0 : how;
    if (!tf && how != 1) how = 1;
    if (!t) {
      if (!tf) continue;
      how = 0;
    }
    st* sd;
    switch (how) {
      case 0: st_ser(tf, &out); break;
      case 1: st_ser(t, &out); break;
      case 2:
        st_become(t->k[3], tf->k[3]);
        st_ser(t, &out);
        break;
      case 3:
        st_become(tf->k[3], t->k[3]);
        st_ser(tf, &out);
        break;
      case 4:
        sd = t->k[3];
        if (C(2, "mix")) graft(sd, tf->k[3]);
        if (C(2, "mutate")) mutate(sd, tf->k[3], NULL);
        if (C(3, "forged-proof") == 2) st_become(t->k[2], tf->k[2]);
        st_ser(t, &out);
        break;
      case 5:
        graft(t, tf);
        st_ser(t, &out);
        break;
    }
    sim_fault_count(N[how]);
    wout     v;
    uint32_t before[16];
    int      nb = periods_of(before);
    WITNESS     = wit ? W->user_addr[0] : NULL;
    verify(&r, &out, hostile, cps, N[how], &v);
    // a witness has to sign what comes with a zk proof
    st* t2 = out.n ? st_parse(st_request_def(), out.d, out.n) : NULL;
    if (wit && t2 && t2->k[3]->sel == 2) {
      st *     sg = st_find(t2->k[3], "signatures"), *hd = st_find(t2->k[3], "header"), *sl = hd ? st_find(hd, "slot") : NULL;
      uint64_t slot = 0;
      if (sl) memcpy(&slot, sl->d, 8);
      if (sg && sg->nk == 0 && sl && !v.requests) {
        uint32_t now[16];
        int      nn = periods_of(now);
        SIM_REQUIRE(nn <= nb, "witness", "a zk proof without the signature of the required witness made the client trust a committee");
      }
      sim_stat("zk with witness", 1);
    }
    WITNESS = NULL;
    if (v.ok || nb) cps = NULL;
  }
}
