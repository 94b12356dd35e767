// what an adversary can fabricate: forged chains, wrong signatures, mutated proofs
#include "forge.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t R(void) {
  static uint64_t s;
  if (!s) s = sim_stream("forge");
  return sim_rand(&s);
}
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }

// ---- forged chains ----
static void mutate_exec(world* f, wexec* e, int what, uint64_t* rnd) {
  for (int i = 0; i < e->naccts; i++) {
    wacct* a = e->accts + i;
    if (what & 1) a->balance[20 + i % 10] ^= 1 << (i % 7);
    if (what & 2) a->nonce += 1 + i;
    if (what & 4)
      for (int k = 0; k < a->nslots; k++) a->slots[k].val[30 - k % 9] ^= 0x11;
    if (what & 8 && a->ncode) {
      uint8_t* c = malloc(a->ncode);
      memcpy(c, a->code, a->ncode);
      c[a->ncode / 2] ^= 0x5a;
      a->code = c;
      w_keccak(c, a->ncode, a->code_hash);
    }
  }
  for (int i = 0; i < e->ntxs; i++) {
    wtx* t = e->txs + i;
    if (what & 16) {
      t->value[31] ^= 0x33;
      t->nonce++;
      w_tx_make(f, t, rnd);
    }
    if (what & 32) t->ok = !t->ok;
    if (what & 64)
      for (int k = 0; k < t->nlogs; k++) {
        t->logs[k].data[0] ^= 0x77;
        if (!t->logs[k].ndata) t->logs[k].ndata = 32;
      }
    if (what & 128) t->gas_used += 1000;
  }
  if (what & 256) {
    e->fee_recipient[7] ^= 0x99;
    e->gas_limit += 4711;
  }
  if (what & 512 && e->nwd) e->wd[0].amount ^= 0x1234;
}
world* forge_chain(const world* w, int from, int upto, int mode, int what) {
  world* f = malloc(sizeof(*f));
  memcpy(f, w, sizeof(*f));
  f->canon       = w;
  f->sign_mode   = mode;
  f->forged_from = w->b[from].slot;
  f->b           = calloc(w->nb, sizeof(wblock));
  memcpy(f->b, w->b, w->nb * sizeof(wblock));
  f->head      = upto;
  uint64_t rnd = sim_stream("forged");
  for (int i = from; i <= upto; i++) {
    wexec* e = w_clone_exec(w->b[i].ex);
    mutate_exec(f, e, what, &rnd);
    w_build_block(f, f->b + i, f->b + i - 1, w->b[i].slot, e, &rnd);
  }
  uint64_t p = w_period(w, w->b[from].slot);
  if (p < w_period(w, w->b[w->head].slot)) {
    // a forged past below the canonical head
    f->head        = w->head;
    f->com         = malloc(w->nperiods * sizeof(wcommittee));
    memcpy(f->com, w->com, w->nperiods * sizeof(wcommittee));
    wcommittee* c = w_com(f, p);
    if (c->block_roots) {
      uint8_t(*old)[32] = c->block_roots;
      c->block_roots    = malloc(8192 * 32);
      memcpy(c->block_roots, old, 8192 * 32);
      for (int i = from; i <= upto; i++) memcpy(c->block_roots[f->b[i].slot % 8192], f->b[i].root, 32);
      w_merkleize(c->block_roots, 8192, 13, c->block_roots_root);
    }
  }
  return f;
}
// the canonical chain with one past block replaced by the one whose root the adversary placed in the state
world* forge_evil(const world* w) {
  world* f = malloc(sizeof(*f));
  memcpy(f, w, sizeof(*f));
  f->b = calloc(w->nb, sizeof(wblock));
  memcpy(f->b, w->b, w->nb * sizeof(wblock));
  f->b[w->evil_of] = w->evil;
  return f;
}
// committees invented by the adversary for the periods >= period; all blocks from `from` on are rebuilt
world* forge_committees(const world* w, uint32_t period, int from, int mode, int what) {
  world* f = malloc(sizeof(*f));
  memcpy(f, w, sizeof(*f));
  f->canon       = w;
  f->sign_mode   = mode;
  f->forged_from = w->b[from].slot;
  f->rnd         = sim_stream("evil-committee");
  f->com         = malloc(w->nperiods * sizeof(wcommittee));
  memcpy(f->com, w->com, w->nperiods * sizeof(wcommittee));
  for (uint32_t p = period; p < w->first_period + w->nperiods; p++) {
    wcommittee* c = f->com + (p - w->first_period);
    int         u = c->upd;
    memset(c, 0, sizeof(*c));
    w_make_committee(f, c, p, NULL);
    c->upd  = u;
    c->evil = true;
    memset(c->bad, 1, sizeof(c->bad));
    c->nbad = 512;
  }
  f->b = calloc(w->nb, sizeof(wblock));
  memcpy(f->b, w->b, w->nb * sizeof(wblock));
  uint64_t rnd = sim_stream("forged");
  for (int i = from; i <= w->head; i++) {
    wexec* e = w_clone_exec(w->b[i].ex);
    mutate_exec(f, e, what, &rnd);
    w_build_block(f, f->b + i, f->b + i - 1, w->b[i].slot, e, &rnd);
  }
  return f;
}
static void hex32(const uint8_t* h, char* o) {
  for (int i = 0; i < 32; i++) sprintf(o + 2 * i, "%02x", h[i]);
}
static void replace(char* s, const uint8_t* a, const uint8_t* b) {
  char x[65], y[65], *p;
  hex32(a, x);
  hex32(b, y);
  if (memcmp(a, b, 32))
    while ((p = strstr(s, x))) memcpy(p, y, 64);
}
// the same request with the hashes of the other chain
void translate(wreq* r, const world* from, const world* to) {
  if (!strcmp(r->method, "eth_verifyLogs") && verify_logs_args(r, to)) return;
  for (int i = 0; i <= to->head && i <= from->head; i++) {
    if (from->b[i].ex == to->b[i].ex) continue;
    replace(r->args, from->b[i].ex->hash, to->b[i].ex->hash);
    for (int k = 0; k < from->b[i].ex->ntxs; k++) replace(r->args, from->b[i].ex->txs[k].hash, to->b[i].ex->txs[k].hash);
  }
}
// ---- mutations of ssz trees ----
static int st_named(st** all, int n, const char* name, st** out) {
  int m = 0;
  for (int i = 0; i < n; i++)
    if (!strcmp(all[i]->def->name, name)) out[m++] = all[i];
  return m;
}
#define MAXN 60000
static st* pick(st* root, bool donor_ok, const char* name) {
  static st*  all[MAXN];
  static st*  sel[MAXN];
  const char* names[400];
  int         n = st_all(root, all, MAXN), k = 0;
  if (!name) {
    for (int i = 0; i < n && k < 400; i++) {
      int j;
      for (j = 0; j < k && strcmp(names[j], all[i]->def->name); j++);
      if (j == k) names[k++] = all[i]->def->name;
    }
    name = names[C(k, "field")];
  }
  int m = st_named(all, n, name, sel);
  return m ? sel[C(m > 64 ? 64 : m, "which")] : NULL;
}
static bool is_list(const st* v) { return v->k && (v->def->type == SSZ_TYPE_LIST || v->def->type == SSZ_TYPE_VECTOR); }
static void list_op(st* v, st* donor) {
  int op = C(5, "list-op");
  if (v->nk == 0 && op != 4) op = 4;
  int i = v->nk ? (int) C(v->nk, "item") : 0, j = v->nk ? (int) C(v->nk, "item") : 0;
  st* x;
  switch (op) {
    case 0: // drop one
      memmove(v->k + i, v->k + i + 1, (v->nk - i - 1) * sizeof(st*));
      v->nk--;
      break;
    case 1: // duplicate
    case 4: // add one of the donor
      x = op == 4 ? (donor && donor->nk ? donor->k[C(donor->nk, "item")] : NULL) : v->k[j];
      if (!x) return;
      v->k = realloc(v->k, sizeof(st*) * (v->nk + 2));
      memmove(v->k + i + 1, v->k + i, (v->nk - i) * sizeof(st*));
      v->k[i] = st_clone(x);
      v->nk++;
      break;
    case 2: // swap
      x       = v->k[i];
      v->k[i] = v->k[j];
      v->k[j] = x;
      break;
    case 3: v->nk = i; break; // truncate
  }
}
void st_become(st* v, const st* o) {
  st* c      = st_clone(o);
  v->d       = c->d;
  v->n       = c->n;
  v->k       = c->k;
  v->nk      = c->nk;
  v->sel     = c->sel;
  v->none    = c->none;
}
// the nodes of a merkle proof of a trie: a list of byte lists
static bool is_nodes(const st* v) { return is_list(v) && v->nk && v->k[0]->def->type == SSZ_TYPE_LIST && v->k[0]->d && strcmp(v->def->name, "transactions"); }
static bool mutate_nodes(st* root, st* donor) {
  static st* all[MAXN];
  static st* sel[MAXN];
  int        n = st_all(root, all, MAXN), m = 0;
  for (int i = 0; i < n; i++)
    if (is_nodes(all[i])) sel[m++] = all[i];
  if (!m) return false;
  st* v  = sel[C(m > 64 ? 64 : m, "nodes")];
  int op = C(5, "nodes-op");
  sim_log("mutate nodes of %s %d", v->def->name, op);
  if (op == 0) v->nk = C(v->nk, "truncate"); // the path ends early
  if (op == 1) {                             // one node is damaged (most often the last one)
    st* k = v->k[C(2, "last") ? v->nk - 1 : (int) C(v->nk, "item")];
    if (k->n) k->d[R() % k->n] ^= 1 << (R() % 8);
  }
  if (op == 2) v->k[v->nk - 1]->n = 0; // the last node is missing
  if (op == 3) list_op(v, NULL);
  if (op == 4) st_become(v, sel[C(m > 64 ? 64 : m, "nodes")]); // the path of another one
  return true;
}
// one mutation; donors may be NULL
void mutate(st* root, st* d1, st* d2) {
  if (C(5, "trie") == 4 && mutate_nodes(root, d1)) return;
  st* v = pick(root, true, NULL);
  st* d = d2 && C(2, "donor") ? d2 : d1;
  st* o = d ? pick(d, true, v->def->name) : NULL;
  if (o && (o->def != v->def || o == v)) o = o->def->type == v->def->type && o->n == v->n && !v->k ? o : NULL;
  int m = C(3, "mutation");
  sim_log("mutate %s %d%s (sel %d type %d)", v->def->name, m, o ? " donor" : "", v->sel, v->def->type);
  if (m == 0 && o) return st_become(v, o);
  if (is_list(v)) return list_op(v, o);
  if (v->def->type == SSZ_TYPE_UNION) {
    uint32_t n = v->def->def.container.len, s = C(n, "selector");
    // content of another variant taken from the donor if there is one
    if (o && o->sel == (int) s) return st_become(v, o);
    if (v->def->def.container.elements[s].type == SSZ_TYPE_NONE) {
      v->sel  = s;
      v->none = true;
      v->nk   = 0;
    }
    else if (m == 1)
      v->sel = s; // wrong content
    return;
  }
  if (v->d) {
    int op = C(6, "leaf-op");
    if (op == 5 && (v->def->type == SSZ_TYPE_LIST || v->def->type == SSZ_TYPE_BIT_LIST)) {
      uint32_t n = v->n;
      uint8_t* x = malloc(n + 64);
      memset(x, 0xab, n + 64);
      memcpy(x, v->d, n);
      static const int D[] = {-1, 1, -32, 32, 0};
      int              k   = C(5, "resize");
      uint32_t         nn  = D[k] == 0 ? 0 : (int) n + D[k] < 0 ? 0 : n + D[k];
      v->d                 = x;
      v->n                 = nn;
      return;
    }
    if (!v->n) return;
    if (v->def->type == SSZ_TYPE_UINT && op < 3) {
      // little endian arithmetic
      uint64_t x = 0;
      for (uint32_t i = 0; i < v->n && i < 8; i++) x |= (uint64_t) v->d[i] << (8 * i);
      static const int64_t D[] = {1, -1, 8192, -8192, 1 << 20, 32, -32};
      x += D[C(7, "delta")];
      for (uint32_t i = 0; i < v->n && i < 8; i++) v->d[i] = x >> (8 * i);
      return;
    }
    if (op == 3) {
      memset(v->d, 0, v->n);
      return;
    }
    if (op == 4) {
      memset(v->d, 0xff, v->n);
      return;
    }
    uint32_t at = R() % v->n;
    v->d[at] ^= 1 << (R() % 8);
    return;
  }
  // container: mutate one of its leafs
  if (v->nk) {
    st* k = v->k[C(v->nk, "kid")];
    if (k->d && k->n) k->d[R() % k->n] ^= 1 << (R() % 8);
    else if (o) st_become(v, o);
  }
}
// replaces up to n subtrees by the ones of the donor at the same place
static int grafts(st* a, st* b, st** va, st** vb, int n, int max) {
  if (n >= max || a->def != b->def) return n;
  va[n]   = a;
  vb[n++] = b;
  if (a->k && b->k && (a->def->type == SSZ_TYPE_CONTAINER || (a->def->type == SSZ_TYPE_UNION && a->sel == b->sel) || is_list(a)))
    for (int i = 0; i < a->nk && i < b->nk && i < 40; i++) n = grafts(a->k[i], b->k[i], va, vb, n, max);
  return n;
}
void graft(st* a, st* b) {
  static st *va[4000], *vb[4000];
  int        n = grafts(a, b, va, vb, 0, 4000), cnt = 1 + C(4, "grafts");
  if (n < 2) return;
  // only the places where they differ are of interest
  int m = 0;
  for (int i = 1; i < n; i++) {
    wbuf x = {0}, y = {0};
    st_ser(va[i], &x);
    st_ser(vb[i], &y);
    if (x.n != y.n || memcmp(x.d, y.d, x.n)) {
      va[m]   = va[i];
      vb[m++] = vb[i];
    }
    free(x.d);
    free(y.d);
  }
  for (int i = 0; i < cnt && m; i++) {
    int k = C(m, "graft");
    sim_log("graft %s", va[k]->def->name);
    st_become(va[k], vb[k]);
  }
}
st* st_find(st* root, const char* name) {
  static st* all[MAXN];
  int        k = st_all(root, all, MAXN);
  for (int i = 0; i < k; i++)
    if (!strcmp(all[i]->def->name, name)) return all[i];
  return NULL;
}
void set_all(st* root, const char* name, const void* d, uint32_t n) {
  static st* all[MAXN];
  int        k = st_all(root, all, MAXN);
  for (int i = 0; i < k; i++)
    if (!strcmp(all[i]->def->name, name) && all[i]->d && all[i]->n == n) st_set(all[i], d, n);
}
void mutate_bytes(wbuf* p) {
  int op = C(6, "bytes-op");
  if (!p->n) return;
  uint32_t at = R() % p->n;
  switch (op) {
    case 0: p->d[at] ^= 1 << (R() % 8); break;
    case 1: p->n = at; break;
    case 2: {
      uint8_t  tmp[64];
      uint32_t l = (p->n - at) > 64 ? 64 : p->n - at;
      memcpy(tmp, p->d + at, l);
      wb_put(p, tmp, l);
      break;
    }
    case 3: p->d[at] = R(); break;
    case 4:
      if (at + 4 <= p->n) { // an offset or length
        static const uint32_t V[] = {0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 4, 0x10000};
        uint32_t              v   = C(8, "value");
        v                         = v < 7 ? V[v] : p->n - 1;
        at                        = C(2, "head") ? (at % 200) & ~3u : at;
        if (at + 4 <= p->n) memcpy(p->d + at, &v, 4);
      }
      break;
    case 5: {
      uint32_t n = R() % 200;
      if (at + n <= p->n) memmove(p->d + at, p->d + at + n, p->n - at - n), p->n -= n;
      break;
    }
  }
}
