// P01-P03: no adversary makes the verifier return anything but the canonical answer.
#include "forge.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
static const char* cp_once;
static char        cp[67];
static world*      F; // the forged chain

// the nodes asked by the verifier may be controlled by the adversary as well
static void hostile_answer(const wrequest* q, wanswer* a) {
  int how = C(6, "node");
  if (q->type == 'c') how = 0; // trusted
  if (how == 3 && F) {
    world* k = AW;
    AW       = F;
    honest_answer(q, a);
    AW = k;
    sim_fault_count("forged_response");
    return;
  }
  if (how == 4) {
    a->outcome = 1;
    sim_fault_count("failed_response");
    return;
  }
  honest_answer(q, a);
  if (how == 5) {
    mutate_bytes(&a->body);
    sim_fault_count("corrupt_response");
  }
}
#ifdef CHAIN_OP
void op_setup(void);
void op_mutate_payload(st* root);
#endif
static void setup(void) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
#ifdef CHAIN_OP
  op_setup();
#else
  set_checkpoint(cp, W->b[W->head].final_root);
  cp_once = cp;
#endif
}
// storage keys may be given without their leading zeros
static void short_keys(wreq* r) {
  char o[sizeof(r->args)], *d = o;
  for (const char* s = r->args; *s;) {
    int z = 0;
    if (!strncmp(s, "\"0x", 3))
      while (z < 62 && s[3 + z] == '0') z++;
    if (z >= 40 && strlen(s) > 68 && s[67] == '"') {
      z &= ~1;
      d += sprintf(d, "\"0x%.*s\"", 64 - z, s + 3 + z);
      s += 68;
    }
    else
      *d++ = *s++;
  }
  *d = 0;
  strcpy(r->args, o);
}
static void verify(const wreq* rq, const wbuf* p, answer_fn ans, const char* how) {
  wout v;
  wreq q = *rq, *r = &q;
  if (r->kind == K_ACCOUNT && strstr(r->args, "0x000000000000") && C(4, "short-keys") == 3) short_keys(r);
  run_verify(r, p->d, p->n, cp_once, ans, 40, &v);
  cp_once = NULL;
  sim_stat("attacks", 1);
  if (v.ok) {
    sim_stat("accepted", 1);
    const char* d = sound_answer(r, v.result, v.nresult);
    SIM_REQUIRE(!d, "forged-answer", "%s: the verifier accepted a wrong answer for %s %s: %s\nresult: %.400s", how, r->method, r->args, d, v.result);
  }
  else
    sim_checked(1);
  out_free(&v);
}
static wbuf CS;
static bool prove(const wreq* r, wbuf* out, uint32_t flags) {
  pcfg c = {.answer = honest_answer, .max_rounds = 60, .flags = flags};
  if (flags & 8) c.client_state = CS;
  wout p;
  run_prover(r, &c, &p);
  *out = p.proof;
  return p.ok;
}
static st* tree(const wbuf* p) { return st_parse(st_request_def(), p->d, p->n); }
static void from_tree(st* t, wbuf* out) {
  out->d = NULL;
  out->n = out->cap = 0;
  st_ser(t, out);
}
static void evil_bits(st* t) {
  // claims about who signed
  uint8_t b[64];
  int     m = C(4, "bits");
  if (m == 0) return;
  wcommittee* c = w_com(W, w_period(W, W->b[W->head].slot));
  memset(b, m == 1 ? 0xff : 0, 64);
  if (m == 2)
    for (int i = 0; i < 512; i++)
      if (c->bad[i]) b[i / 8] |= 1 << (i % 8);
  set_all(t, "sync_committee_bits", b, 64);
  if (m == 3 && C(2, "inf")) {
    uint8_t s[96] = {0xc0};
    set_all(t, "sync_committee_signature", s, 96);
  }
}

// methods answered without a proof must not become different by sending one
static void local_attack(const wbuf* p) {
  static const char* M[] = {"eth_chainId", "net_version", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3"};
  wreq               r   = {0};
  int                m   = C(6, "local");
  wout               a, b;
  strcpy(r.method, M[m]);
  strcpy(r.args, m == 5 ? "[\"0x68656c6c6f20776f726c64\"]" : "[]");
  run_verify(&r, NULL, 0, NULL, honest_answer, 10, &a);
  SIM_REQUIRE(a.ok, "local", "%s without a proof failed: %s", r.method, a.error);
  char want[80];
  if (m == 0) {
    sprintf(want, "\"0x%llx\"", (unsigned long long) W->chain_id);
    SIM_REQUIRE(!strcmp(a.result, want), "local", "eth_chainId is %s", a.result);
  }
  if (m == 1) {
    sprintf(want, "\"%llu\"", (unsigned long long) W->chain_id);
    SIM_REQUIRE(!strcmp(a.result, want), "local", "net_version is %s", a.result);
  }
  if (m == 5) SIM_REQUIRE(!strcmp(a.result, "\"0x47173285a8d7341e5e972fc677286384f802f8ef42a5ec5f03bbfa254cb01fad\""), "local", "web3_sha3 is %s", a.result);
  run_verify(&r, p->d, p->n, NULL, honest_answer, 40, &b);
  if (b.ok) SIM_REQUIRE(!strcmp(a.result, b.result), "local", "the result of %s became %.200s with a proof attached instead of %s", r.method, b.result, a.result);
  sim_checked(1);
}
// the request differs from the proven one only in a detail: one digit of an address, hash, key or number, or the number exceeds what fits
static bool near_miss(wreq* r) {
  char* v[16];
  int   n = 0;
  for (char* p = r->args; n < 16 && (p = strstr(p, "\"0x")); p += 3)
    if (p[3] != '"') v[n++] = p + 3;
  if (!n) return false;
  char* p   = v[C(n, "which")];
  int   len = strcspn(p, "\""), m = C(4, "near"), at;
  if (len < 20 && m >= 2) { // a number: far away with the same low bytes
    static const char* HI[] = {"1", "100", "ff"};
    const char*        hi   = HI[C(3, "high")];
    int                width = (int[]) {2, 4, 8, 16, 18}[C(5, "width")];
    if (len > width) { // add to the digit in front of the low bytes
      char* d = p + len - width - 1;
      *d      = *d == 'f' ? '1' : *d == '9' ? 'a' : *d + 1;
      return true;
    }
    char t[sizeof(r->args)];
    sprintf(t, "%s%0*d%s", hi, width - len, 0, p);
    if (width == len) sprintf(t, "%s%s", hi, p);
    strcpy(p, t);
    return true;
  }
  at = m == 0 ? len - 1 : m == 1 ? 0 : (int) C(len, "digit");
  if (len < 20 && !at && len > 1) at = 1;
  static const char X[] = "0123456789abcdef";
  int               c   = p[at] >= 'a' ? p[at] - 'a' + 10 : p[at] >= 'A' ? p[at] - 'A' + 10 : p[at] - '0';
  p[at]                 = X[(c + 1 + C(15, "value")) % 16];
  return true;
}
static void evil_historic(st* t) {
  // the forged block is proven by a branch to the place where the adversary put its root
  st* h = st_find(t, "historic_proof");
  st *pr = h ? st_find(h, "proof") : NULL, *hd = h ? st_find(h, "header") : NULL, *gi = h ? st_find(h, "gindex") : NULL, *sl = hd ? st_find(hd, "slot") : NULL;
  if (!sl || !gi || !pr) return;
  uint64_t slot = 0, g;
  memcpy(&slot, sl->d, 8);
  int     b = w_find_slot(W, slot);
  uint8_t br[64][32];
  if (b < 0) return;
  int n = w_evil_branch(W, W->b + b, br, &g);
  int m = C(4, "gindex");
  if (m != 1) st_set(pr, br, n * 32);
  if (m != 2) st_set(gi, &g, 8);
  sim_stat("evil leaf", 1);
}
// the forged block is said to be an ancestor of a block which really was signed
static bool evil_ancestor(st* f, st* t) {
  st *uf = st_find(f, "header_proof"), *ut = st_find(t, "header_proof");
  if (!uf || !ut || uf->def->type != SSZ_TYPE_UNION || ut->def->type != SSZ_TYPE_UNION || !ut->nk) return false;
  st *h = ut->sel ? st_find(ut->k[0], "header") : st_find(t, "header"), *bits = st_find(ut, "sync_committee_bits"), *sig = st_find(ut, "sync_committee_signature"), *fh = st_find(f, "header");
  if (!h || !bits || !sig || !fh) return false;
  wbuf hb = {0}, fb = {0}, b = {0}, x = {0};
  st_ser(h, &hb);
  st_ser(fh, &fb);
  if (hb.n != 112 || fb.n != 112 || bits->n != 64 || sig->n != 96) return false;
  int sel = C(3, "how") ? 2 : 1;
  if (sel == 2)
    for (int k = C(3, "headers"); k; k--) {
      const uint8_t* o = C(2, "from") ? fb.d : hb.d;
      wb_put(&x, o, 16);
      wb_put(&x, o + 48, 64);
    }
  else
    for (int k = C(4, "branch"); k; k--) wb_put(&x, C(2, "node") ? fb.d + 48 : hb.d + 48 + 32 * C(2, "which"), 32);
  uint32_t off = sel == 2 ? 276 : 284;
  wb_put(&b, &off, 4);
  wb_put(&b, hb.d, 112);
  if (sel == 1) {
    uint64_t g = C(2, "gindex") ? C(4, "small") : (uint64_t) 1 << C(63, "bit") | C(4, "small");
    wb_put(&b, &g, 8);
  }
  wb_put(&b, bits->d, 64);
  wb_put(&b, sig->d, 96);
  wb_put(&b, x.d, x.n);
  st* k = st_parse(uf->def->def.container.elements + sel, b.d, b.n);
  if (!k) return false;
  if (!uf->nk) return false;
  uf->sel  = sel;
  uf->k[0] = k;
  return true;
}
void run_adv(void) {
  setup();
  int kinds = sim_is("P01") ? K_ACCOUNT : sim_is("P02") ? K_TX | K_RECEIPT : sim_is("P19") ? 31 : K_BLOCK | K_LOGS;
  int lo    = W->head - 18, hi = W->head - 1;
  int hist  = !sim_is("P19") && C(4, "historic") == 3;
  // an honest history first (or the client meets the adversary at once)
  int  honest = hist + C(3, "warm-up");
  wbuf cs     = {0};
  for (int i = 0; i < honest; i++) {
    wreq r;
    wbuf p;
    gen_request(&r, 31, lo, W->head - 1);
    if (prove(&r, &p, 0)) verify(&r, &p, honest_answer, "honest");
  }
  if (hist) {
    client_state_of(&cs);
    CS = cs;
    int k = C(3, "period");
    lo    = w_find_slot(W, (uint64_t) W->rich[k] * 8192);
    hi    = lo + 13;
  }
  int from = hist ? lo + 1 + C(8, "forged-from") : lo + 1 + C(16, "forged-from");
  int upto = from + 4 > hi + 1 ? hi + 1 : from + 4;
  static const int MODES[] = {SM_BAD_CLAIM_ALL, SM_ALL_INF, SM_ALL_RANDOM, SM_COPY, SM_ZERO_SIG, SM_BAD_CLAIM_342};
  F = forge_chain(W, from, upto, MODES[C(6, "sign-mode")], 1 + C(1023, "what"));
  world* X = hist ? forge_evil(W) : NULL;
  int n = 4 + C(5, "attacks");
  for (int i = 0; i < n; i++) {
    wreq r, r2, rf;
    wbuf p = {0}, p2 = {0}, pf = {0}, out = {0}, dat = {0};
    uint32_t flags = (C(2, "code") ? 1 : 0) | (hist ? 1 << 3 : 0);
    int      how   = C(sim_is("P19") ? 12 : 13, "attack");
    if (how == 10 && !sim_is("P03")) how = 11;
    if (how == 9 && sim_is("P19")) how = 2;
    st *     t, *t2, *tf;
    if (how == 9) {
      if (!hist) how = 0;
      else
        gen_request(&r, kinds, W->evil_of, W->evil_of);
    }
    if (how != 9) gen_request(&r, kinds, from, upto - 1 < from ? from : upto - 1);
    // the pieces the adversary works with
    bool okp = prove(&r, &p, flags);
    bool okf = false, ok2 = false;
    if (how != 1) {
      rf = r;
      AW = how == 9 ? X : F;
      translate(&rf, W, AW);
      okf = prove(&rf, &pf, flags);
      AW  = NULL;
    }
    if (how == 1 || how == 3 || how == 5 || how == 8 || how == 10) {
      gen_request(&r2, C(3, "same-kind") ? kinds : 31, lo, hi);
      if (C(2, "same-method") == 0) { // only one parameter differs
        for (int k = 0; k < 6 && strcmp(r2.method, r.method); k++) gen_request(&r2, r.kind, lo, hi);
      }
      ok2 = prove(&r2, &p2, flags);
    }
    t  = okp ? tree(&p) : NULL;
    tf = okf ? tree(&pf) : NULL;
    t2 = ok2 ? tree(&p2) : NULL;
    static const char* N[] = {"forged chain", "proof of another request", "mutated proof", "mutated proof with parts of another", "corrupt bytes", "parts of another proof", "forged chain with canonical parts", "canonical proof with forged parts", "proof with foreign data", "root planted in the state", "local method with a proof", "proof of a slightly different request", "forged ancestor of a signed block"};
    st *t0 = t, *tf0 = tf, *t20 = t2;
    int variants = how == 2 || how == 3 || (how >= 5 && how <= 7) ? 1 + C(6, "variants") : how == 4 || how == 8 || how == 11 || how == 12 ? 1 + C(3, "variants") : 1;
    for (int vi = 0; vi < variants; vi++) {
    if (vi) {
      t  = t0 ? st_clone(t0) : NULL;
      tf = tf0 ? st_clone(tf0) : NULL;
      t2 = t20 ? st_clone(t20) : NULL;
      out.d = NULL;
      out.n = out.cap = 0;
    }
    else if (variants > 1) {
      t0  = t0 ? st_clone(t0) : NULL;
      tf0 = tf0 ? st_clone(tf0) : NULL;
      t20 = t20 ? st_clone(t20) : NULL;
    }
    switch (how) {
      case 0: // a self consistent proof of a chain nobody signed
        if (!tf) continue;
        evil_bits(tf);
        from_tree(tf, &out);
        break;
      case 1: // a valid proof for something else
        if (!ok2) continue;
        out = p2;
        break;
      case 2:
      case 3:
        if (!t) continue;
        for (int k = 1 + C(3, "mutations"); k; k--) mutate(t, tf, t2);
#ifdef CHAIN_OP
        if (C(3, "payload") == 2) op_mutate_payload(t);
#endif
        from_tree(t, &out);
        break;
      case 4:
        if (!okp) continue;
        wb_put(&out, p.d, p.n);
        for (int k = 1 + C(2, "mutations"); k; k--) mutate_bytes(&out);
        break;
      case 5:
        if (!t || !t2) continue;
        graft(t, t2);
        from_tree(t, &out);
        break;
      case 6:
        if (!t || !tf) continue;
        graft(tf, t);
        if (C(3, "mutate") == 2) mutate(tf, t, NULL);
        from_tree(tf, &out);
        break;
      case 7:
        if (!t || !tf) continue;
        graft(t, tf);
        if (C(3, "mutate") == 2) mutate(t, tf, NULL);
        from_tree(t, &out);
        break;
      case 8: // the result of another request as claimed result
        if (!t || !ok2) continue;
        CAPTURE = &dat;
        verify(&r2, &p2, honest_answer, "honest");
        CAPTURE = NULL;
        if (dat.n) {
          st* d = st_parse(t->k[1]->def, dat.d, dat.n);
          if (!d) continue;
          if (C(3, "mutate") == 2) mutate(d, NULL, NULL);
          t->k[1] = d;
        }
        if (C(4, "drop-proof") == 3) {
          t->k[2]->sel  = 0;
          t->k[2]->none = true;
          t->k[2]->nk   = 0;
        }
        from_tree(t, &out);
        break;
      case 9:
        if (!tf) continue;
        evil_historic(tf);
        from_tree(tf, &out);
        break;
      case 12:
        if (!t || !tf || !evil_ancestor(tf, t)) continue;
        from_tree(tf, &out);
        break;
      case 10:
        if (!ok2) continue;
        sim_fault_count(N[how]);
        local_attack(&p2);
        continue;
    }
    wreq rq = r;
    if (how == 11) {
      if (!okp || !near_miss(&rq)) continue;
      wb_put(&out, p.d, p.n);
    }
    if (!strcmp(rq.method, "eth_verifyLogs") && okf && how != 11 && C(2, "forged-logs")) rq = rf; // the logs themselves come from the adversary
    sim_fault_count(N[how]);
    verify(&rq, &out, C(2, "hostile") ? hostile_answer : honest_answer, N[how]);
    }
  }
}
