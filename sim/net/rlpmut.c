// mutations of RLP structures inside of proofs, after which the hashes of the trie fit again
#include "forge.h"
#include <stdlib.h>
#include <string.h>
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }

typedef struct rl {
  bool       list;
  uint8_t*   d;
  uint32_t   n;
  struct rl* k;
  int        nk;
} rl;
// parses one item; returns the bytes consumed or 0
static uint32_t rl_parse(const uint8_t* d, uint32_t n, rl* o) {
  memset(o, 0, sizeof(*o));
  if (!n) return 0;
  uint8_t  c = d[0];
  uint64_t h = 1, l = 0;
  if (c < 0x80) h = 0, l = 1;
  else if (c < 0xb8) l = c - 0x80;
  else if (c < 0xc0 || c >= 0xf8) {
    int k = c < 0xc0 ? c - 0xb7 : c - 0xf7;
    if (k > 4 || (uint32_t) k + 1 > n) return 0;
    for (int i = 0; i < k; i++) l = l << 8 | d[1 + i];
    h = 1 + k;
  }
  else
    l = c - 0xc0;
  if (h + l > n) return 0;
  o->list = c >= 0xc0;
  o->d    = (uint8_t*) d + h;
  o->n    = l;
  if (o->list)
    for (uint32_t p = 0; p < l;) {
      rl       x;
      uint32_t k = rl_parse(o->d + p, l - p, &x);
      if (!k) return 0;
      o->k          = realloc(o->k, sizeof(rl) * (o->nk + 1));
      o->k[o->nk++] = x;
      p += k;
    }
  return h + l;
}
static void rl_head(wbuf* b, uint8_t base, uint32_t n) {
  if (n < 56) wb_u8(b, base + n);
  else {
    int k = n < 256 ? 1 : n < 65536 ? 2 : 3;
    wb_u8(b, base + 55 + k);
    while (k--) wb_u8(b, n >> (8 * k));
  }
}
static void rl_ser(const rl* v, wbuf* b) {
  if (!v->list) {
    if (!(v->n == 1 && v->d[0] < 0x80)) rl_head(b, 0x80, v->n);
    wb_put(b, v->d, v->n);
    return;
  }
  wbuf c = {0};
  for (int i = 0; i < v->nk; i++) rl_ser(v->k + i, &c);
  rl_head(b, 0xc0, c.n);
  wb_put(b, c.d, c.n);
}
static void rl_change(rl* v, int depth);
static void rl_item(rl* v, int depth) {
  rl in;
  if (v->n > 2 && depth < 4 && C(4, "nested")) { // the content may be RLP again, perhaps with a type in front
    int skip = v->d[0] < 0x10 ? 1 : 0;
    if (rl_parse(v->d + skip, v->n - skip, &in) == v->n - skip && in.list) {
      wbuf o = {0};
      rl_change(&in, depth + 1);
      wb_put(&o, v->d, skip);
      rl_ser(&in, &o);
      v->d = o.d, v->n = o.n;
      return;
    }
  }
  static const uint16_t L[] = {0, 1, 2, 19, 20, 21, 31, 32, 33, 34, 40, 64, 65, 66, 100, 255, 256, 1000, 5000};
  wbuf                  o   = {0};
  int                   m   = C(6, "item");
  if (m == 0 || m == 1) { // another length
    uint32_t n = L[C(19, "length")];
    for (uint32_t i = 0; i < n; i++) wb_u8(&o, i < v->n ? v->d[i] : m ? 0xa5 : 0);
  }
  else if (m == 2 || m == 3) { // a bit longer or shorter
    wb_put(&o, v->d, v->n);
    int k = 1 + C(3, "by");
    if (m == 3) o.n = o.n > (uint32_t) k ? o.n - k : 0;
    else
      while (k--) wb_u8(&o, 0x11);
  }
  else if (m == 4) { // becomes a list
    v->list = true, v->nk = 0, v->k = NULL;
    for (int i = C(4, "empty-items"); i; i--) {
      v->k          = realloc(v->k, sizeof(rl) * (v->nk + 1));
      v->k[v->nk++] = (rl) {.d = v->d, .n = v->n > 3 ? 3 : v->n};
    }
    return;
  }
  else {
    wb_put(&o, v->d, v->n);
    if (o.n) o.d[C(o.n, "byte")] ^= 1 << C(8, "bit");
  }
  v->d = o.d, v->n = o.n;
}
static void rl_change(rl* v, int depth) {
  if (!v->list) return rl_item(v, depth);
  int m = C(8, "list");
  if (!v->nk) m = 7;
  int i = v->nk ? C(v->nk, "which") : 0;
  if (m < 5) return rl_change(v->k + i, depth + 1);
  if (m == 5) {
    memmove(v->k + i, v->k + i + 1, sizeof(rl) * (v->nk - i - 1));
    v->nk--;
  }
  else if (m == 6) {
    v->k = realloc(v->k, sizeof(rl) * (v->nk + 1));
    memmove(v->k + i + 1, v->k + i, sizeof(rl) * (v->nk - i));
    v->nk++;
  }
  else { // becomes an item
    wbuf o = {0};
    rl_ser(v, &o);
    v->list = false, v->d = o.d, v->n = C(2, "empty") ? o.n : 0;
  }
}
// changes one RLP structure, perhaps with a type in front
void mutate_rlp_bytes(wbuf* b) {
  uint32_t skip = b->n && b->d[0] < 0x10 ? 1 : 0;
  rl       x;
  if (rl_parse(b->d + skip, b->n - skip, &x) != b->n - skip) return;
  wbuf o = {0};
  wb_put(&o, b->d, skip);
  rl_change(&x, 0);
  rl_ser(&x, &o);
  *b = o;
}
static bool swap_hash(st* v, const uint8_t* a, const uint8_t* b) {
  bool f = false;
  for (uint32_t i = 0; v->d && i + 32 <= v->n; i++)
    if (!memcmp(v->d + i, a, 32)) memcpy(v->d + i, b, 32), f = true;
  return f;
}
// changes one RLP structure of the proof and adjusts the hashes of the nodes leading to it
bool mutate_rlp(st* root) {
  static st* all[60000];
  static st* leaf[4000];
  int        n = st_all(root, all, 60000), m = 0;
  for (int i = 0; i < n && m < 4000; i++) {
    st* v = all[i];
    if (!v->d || v->n < 4 || v->def->type != SSZ_TYPE_LIST) continue;
    rl       x;
    uint32_t skip = v->d[0] < 0x10 ? 1 : 0;
    if (v->d[skip] >= 0xc0 && rl_parse(v->d + skip, v->n - skip, &x) == v->n - skip) leaf[m++] = v;
  }
  if (!m) return false;
  // the last ones of a proof are the leafs, these are of most interest
  static st* ends[4000];
  int        e = 0;
  for (int i = 0; i < m; i++) {
    uint8_t h[32];
    bool    parent = false;
    if (i + 1 < m) {
      w_keccak(leaf[i + 1]->d, leaf[i + 1]->n, h);
      for (uint32_t k = 0; k + 32 <= leaf[i]->n && !parent; k++) parent = !memcmp(leaf[i]->d + k, h, 32);
    }
    if (!parent) ends[e++] = leaf[i];
  }
  st*      v    = C(4, "any") == 3 ? leaf[C(m, "node")] : ends[C(e, "end")];
  uint32_t skip = v->d[0] < 0x10 ? 1 : 0;
  rl       x;
  rl_parse(v->d + skip, v->n - skip, &x);
  uint8_t a[32], b[32];
  w_keccak(v->d, v->n, a);
  wbuf o = {0};
  wb_put(&o, v->d, skip);
  rl_change(&x, 0);
  rl_ser(&x, &o);
  st_set(v, o.d, o.n);
  w_keccak(v->d, v->n, b);
  if (!C(5, "unlinked")) return true;
  for (int depth = 0; depth < 20; depth++) {
    bool f = false;
    for (int i = 0; i < n && !f; i++)
      if (all[i]->d && all[i]->n >= 32 && all[i]->n < 20000) {
        uint8_t before[32];
        w_keccak(all[i]->d, all[i]->n, before);
        if (swap_hash(all[i], a, b)) {
          memcpy(a, before, 32);
          w_keccak(all[i]->d, all[i]->n, b);
          f = true;
        }
      }
    if (!f) break;
  }
  return true;
}
