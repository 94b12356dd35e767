#include "world.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void wb_put(wbuf* b, const void* p, uint32_t n) {
  if (b->n + n + 1 > b->cap) {
    b->cap = (b->n + n + 1) * 2 + 64;
    b->d   = realloc(b->d, b->cap);
  }
  if (n) memcpy(b->d + b->n, p, n);
  b->n += n;
  b->d[b->n] = 0;
}
void wb_u8(wbuf* b, uint8_t v) { wb_put(b, &v, 1); }
void wb_le(wbuf* b, uint64_t v, int n) {
  for (int i = 0; i < n; i++) wb_u8(b, i < 8 ? (uint8_t) (v >> (8 * i)) : 0);
}
void wb_f(wbuf* b, const char* fmt, ...) {
  char    tmp[1024];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(tmp, sizeof(tmp), fmt, a);
  va_end(a);
  wb_put(b, tmp, n < (int) sizeof(tmp) ? n : (int) sizeof(tmp) - 1);
}
void wb_hex(wbuf* b, const void* p, uint32_t n) {
  static const char* H = "0123456789abcdef";
  wb_put(b, "\"0x", 3);
  for (uint32_t i = 0; i < n; i++) {
    char c[2] = {H[((uint8_t*) p)[i] >> 4], H[((uint8_t*) p)[i] & 15]};
    wb_put(b, c, 2);
  }
  wb_put(b, "\"", 1);
}
void wb_qty(wbuf* b, uint64_t v) { wb_f(b, "\"0x%llx\"", (unsigned long long) v); }
void wb_qty_be(wbuf* b, const uint8_t* p, int n) {
  wbuf t = {0};
  wb_hex(&t, p, n);
  char* s = (char*) t.d + 3;
  while (*s == '0') s++;
  if (*s == '"') s--;
  wb_f(b, "\"0x%s", s);
  free(t.d);
}
char* wb_str(wbuf* b) {
  if (!b->d) wb_put(b, "", 0);
  return (char*) b->d;
}
static int hv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
int        w_unhex(const char* s, int len, uint8_t* out, int max) {
  int n = 0, i = 0;
  if (len & 1) {
    if (hv(s[0]) < 0 || max < 1) return -1;
    out[n++] = hv(s[i++]);
  }
  for (; i + 1 < len; i += 2) {
    if (hv(s[i]) < 0 || hv(s[i + 1]) < 0 || n >= max) return -1;
    out[n++] = hv(s[i]) << 4 | hv(s[i + 1]);
  }
  return n;
}
uint64_t w_rnd(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void w_rfill(uint64_t* s, void* out, size_t n) {
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = w_rnd(s);
    memcpy((uint8_t*) out + i, &v, n - i < 8 ? n - i : 8);
  }
}

// ---------------- ssz -----------------
static wn* node(uint8_t kind) {
  wn* v   = calloc(1, sizeof(wn));
  v->kind = kind;
  return v;
}
static uint8_t* dup(const void* d, uint32_t n) {
  uint8_t* p = calloc(1, n + 1);
  if (n && d) memcpy(p, d, n);
  return p;
}
wn* wn_fix(const void* d, uint32_t n) {
  wn* v = node(W_FIX);
  v->d  = dup(d, n);
  v->n  = n;
  return v;
}
wn* wn_u64(uint64_t x) {
  uint8_t t[8];
  for (int i = 0; i < 8; i++) t[i] = x >> (8 * i);
  return wn_fix(t, 8);
}
wn* wn_bytes(const void* d, uint32_t n, uint64_t limit) {
  wn* v    = node(W_BYTES);
  v->d     = dup(d, n);
  v->n     = n;
  v->limit = limit;
  v->var   = true;
  return v;
}
wn* wn_bitlist(const void* d, uint32_t bits, uint64_t limit) {
  wn* v    = node(W_BITLIST);
  v->d     = dup(d, bits / 8 + 1);
  v->n     = bits;
  v->limit = limit;
  v->var   = true;
  // clear bits beyond the length
  v->d[bits / 8] &= (1 << (bits % 8)) - 1;
  return v;
}
wn* wn_cont(int n, ...) {
  wn* v = node(W_CONT);
  v->k  = calloc(n + 1, sizeof(wn*));
  v->kn = n;
  va_list a;
  va_start(a, n);
  for (int i = 0; i < n; i++) {
    v->k[i] = va_arg(a, wn*);
    if (v->k[i]->var) v->var = true;
  }
  va_end(a);
  return v;
}
wn* wn_list(uint64_t limit, uint32_t n, wn** kids, bool elem_var) {
  wn* v    = node(W_LIST);
  v->k     = calloc(n + 1, sizeof(wn*));
  v->kn    = n;
  v->limit = limit;
  v->var   = true;
  if (n) memcpy(v->k, kids, n * sizeof(wn*));
  v->n = elem_var;
  return v;
}
wn* wn_vec(uint32_t n, wn** kids) {
  wn* v = node(W_VEC);
  v->k  = calloc(n + 1, sizeof(wn*));
  v->kn = n;
  memcpy(v->k, kids, n * sizeof(wn*));
  v->var = n && kids[0]->var;
  return v;
}
void wn_ser(wn* v, wbuf* out) {
  switch (v->kind) {
    case W_FIX:
    case W_BYTES: wb_put(out, v->d, v->n); return;
    case W_BITLIST: {
      uint8_t* t = dup(v->d, v->n / 8 + 1);
      t[v->n / 8] |= 1 << (v->n % 8);
      wb_put(out, t, v->n / 8 + 1);
      free(t);
      return;
    }
    default: {
      wbuf fix = {0}, dyn = {0};
      uint32_t fixlen = 0;
      for (uint32_t i = 0; i < v->kn; i++) {
        if (v->k[i]->var)
          fixlen += 4;
        else {
          wbuf t = {0};
          wn_ser(v->k[i], &t);
          fixlen += t.n;
          free(t.d);
        }
      }
      for (uint32_t i = 0; i < v->kn; i++) {
        if (v->k[i]->var) {
          wb_le(&fix, fixlen + dyn.n, 4);
          wn_ser(v->k[i], &dyn);
        }
        else
          wn_ser(v->k[i], &fix);
      }
      wb_put(out, fix.d, fix.n);
      wb_put(out, dyn.d, dyn.n);
      free(fix.d);
      free(dyn.d);
    }
  }
}
static uint8_t zeros[64][32];
static int     zeros_n = 0;
void           w_zero(int depth, uint8_t out[32]) {
  while (zeros_n <= depth) {
    if (zeros_n) w_sha2(zeros[zeros_n - 1], zeros[zeros_n - 1], zeros[zeros_n]);
    zeros_n++;
  }
  memcpy(out, zeros[depth], 32);
}
void w_merkleize(uint8_t (*leafs)[32], uint64_t n, int depth, uint8_t out[32]) {
  if (n == 0) {
    w_zero(depth, out);
    return;
  }
  uint8_t(*t)[32] = malloc((n + 1) * 32);
  memcpy(t, leafs, n * 32);
  for (int d = 0; d < depth; d++) {
    if (n & 1) {
      w_zero(d, t[n]);
      n++;
    }
    for (uint64_t i = 0; i < n; i += 2) w_sha2(t[i], t[i + 1], t[i / 2]);
    n /= 2;
  }
  memcpy(out, t[0], 32);
  free(t);
}
void w_branch(uint8_t (*leafs)[32], uint64_t n, int depth, uint64_t idx, uint8_t (*out)[32]) {
  uint8_t(*t)[32] = malloc((n + 2) * 32);
  if (n) memcpy(t, leafs, n * 32);
  for (int d = 0; d < depth; d++) {
    if (n & 1) {
      w_zero(d, t[n]);
      n++;
    }
    uint64_t sib = idx ^ 1;
    if (sib < n)
      memcpy(out[d], t[sib], 32);
    else
      w_zero(d, out[d]);
    for (uint64_t i = 0; i < n; i += 2) w_sha2(t[i], t[i + 1], t[i / 2]);
    n /= 2;
    idx /= 2;
  }
  free(t);
}
void w_branch_root(const uint8_t leaf[32], uint8_t (*br)[32], int depth, uint64_t idx, uint8_t out[32]) {
  uint8_t t[32];
  memcpy(t, leaf, 32);
  for (int d = 0; d < depth; d++, idx >>= 1) {
    if (idx & 1)
      w_sha2(br[d], t, t);
    else
      w_sha2(t, br[d], t);
  }
  memcpy(out, t, 32);
}
static int depth_for(uint64_t chunks) {
  int d = 0;
  while ((1ull << d) < chunks) d++;
  return d;
}
static void mixin(uint8_t r[32], uint64_t len) {
  uint8_t l[32] = {0};
  for (int i = 0; i < 8; i++) l[i] = len >> (8 * i);
  w_sha2(r, l, r);
}
static void pack_root(const uint8_t* d, uint32_t n, int depth, uint8_t out[32]) {
  uint32_t c      = (n + 31) / 32;
  uint8_t(*t)[32] = calloc(c + 1, 32);
  memcpy(t, d, n);
  w_merkleize(t, c, depth, out);
  free(t);
}
void wn_root(wn* v, uint8_t out[32]) {
  if (v->rooted) {
    memcpy(out, v->root, 32);
    return;
  }
  switch (v->kind) {
    case W_FIX: pack_root(v->d, v->n, depth_for((v->n + 31) / 32), out); break;
    case W_BYTES:
      pack_root(v->d, v->n, depth_for((v->limit + 31) / 32), out);
      mixin(out, v->n);
      break;
    case W_BITLIST:
      pack_root(v->d, (v->n + 7) / 8, depth_for((v->limit + 255) / 256), out);
      mixin(out, v->n);
      break;
    default: {
      uint8_t(*t)[32] = calloc(v->kn + 1, 32);
      for (uint32_t i = 0; i < v->kn; i++) wn_root(v->k[i], t[i]);
      w_merkleize(t, v->kn, depth_for(v->kind == W_LIST ? v->limit : v->kn), out);
      if (v->kind == W_LIST) mixin(out, v->kn);
      free(t);
    }
  }
  memcpy(v->root, out, 32);
  v->rooted = true;
}

// ---------------- rlp / mpt --------------
void wr_item(wbuf* b, const void* d, uint32_t n) {
  const uint8_t* p = d;
  if (n == 1 && p[0] < 0x80) {
    wb_u8(b, p[0]);
    return;
  }
  if (n < 56)
    wb_u8(b, 0x80 + n);
  else {
    int l = n < 256 ? 1 : n < 65536 ? 2 : 3;
    wb_u8(b, 0xb7 + l);
    for (int i = l - 1; i >= 0; i--) wb_u8(b, n >> (8 * i));
  }
  wb_put(b, d, n);
}
void wr_be(wbuf* b, const uint8_t* d, uint32_t n) {
  while (n && !*d) d++, n--;
  wr_item(b, d, n);
}
void wr_uint(wbuf* b, uint64_t v) {
  uint8_t t[8];
  for (int i = 0; i < 8; i++) t[i] = v >> (8 * (7 - i));
  wr_be(b, t, 8);
}
void wr_list(wbuf* b, wbuf* c) {
  if (c->n < 56)
    wb_u8(b, 0xc0 + c->n);
  else {
    int l = c->n < 256 ? 1 : c->n < 65536 ? 2 : 3;
    wb_u8(b, 0xf7 + l);
    for (int i = l - 1; i >= 0; i--) wb_u8(b, c->n >> (8 * i));
  }
  wb_put(b, c->d, c->n);
  free(c->d);
  memset(c, 0, sizeof(*c));
}
int wm_nibbles(const uint8_t* k, int n, uint8_t* out) {
  for (int i = 0; i < n; i++) {
    out[2 * i]     = k[i] >> 4;
    out[2 * i + 1] = k[i] & 15;
  }
  return 2 * n;
}
static int icmp(const void* a, const void* b) {
  const wm_item *x = a, *y = b;
  int            l = x->klen < y->klen ? x->klen : y->klen;
  int            c = memcmp(x->key, y->key, l);
  return c ? c : (int) x->klen - (int) y->klen;
}
static void hp(wbuf* out, const uint8_t* nib, int n, bool leaf) {
  uint8_t t[64];
  int     l = 0, i = 0;
  uint8_t f = leaf ? 2 : 0;
  if (n & 1) {
    t[l++] = (f | 1) << 4 | nib[0];
    i      = 1;
  }
  else
    t[l++] = f << 4;
  for (; i < n; i += 2) t[l++] = nib[i] << 4 | nib[i + 1];
  wr_item(out, t, l);
}
// builds the subtree over it[0..n) at depth and returns its rlp in `out`; records the nodes on the path of key top down
static void build(wm_item* it, int n, int depth, const uint8_t* key, int klen, wm_proof* p, wbuf* out) {
  wbuf c   = {0};
  int  slot = -1;
  if (p) {
    slot       = p->len++;
    p->d[slot] = NULL;
  }
  if (n == 1) {
    hp(&c, it[0].key + depth, it[0].klen - depth, true);
    wr_item(&c, it[0].val, it[0].vlen);
  }
  else {
    int common = 0;
    while (depth + common < it[0].klen && depth + common < it[n - 1].klen && it[0].key[depth + common] == it[n - 1].key[depth + common]) common++;
    if (common) {
      wbuf kid = {0};
      bool on  = p && klen >= depth + common && memcmp(key + depth, it[0].key + depth, common) == 0;
      build(it, n, depth + common, key, klen, on ? p : NULL, &kid);
      hp(&c, it[0].key + depth, common, false);
      if (kid.n < 32) {
        wb_put(&c, kid.d, kid.n);
      }
      else {
        uint8_t h[32];
        w_keccak(kid.d, kid.n, h);
        wr_item(&c, h, 32);
      }
      free(kid.d);
    }
    else {
      int i = 0;
      wm_item* val = NULL;
      if (it[0].klen == depth) {
        val = it;
        i   = 1;
      }
      for (int nb = 0; nb < 16; nb++) {
        int j = i;
        while (j < n && it[j].key[depth] == nb) j++;
        if (j == i) {
          wr_item(&c, "", 0);
          continue;
        }
        wbuf kid = {0};
        bool on  = p && klen > depth && key[depth] == nb;
        build(it + i, j - i, depth + 1, key, klen, on ? p : NULL, &kid);
        if (kid.n < 32)
          wb_put(&c, kid.d, kid.n);
        else {
          uint8_t h[32];
          w_keccak(kid.d, kid.n, h);
          wr_item(&c, h, 32);
        }
        free(kid.d);
        i = j;
      }
      if (val)
        wr_item(&c, val->val, val->vlen);
      else
        wr_item(&c, "", 0);
    }
  }
  uint32_t s = out->n;
  wr_list(out, &c);
  if (p) {
    p->n[slot] = out->n - s;
    p->d[slot] = dup(out->d + s, out->n - s);
  }
}
void wm_prove(wm_item* it, int n, const uint8_t* key, int klen, uint8_t root[32], wm_proof* p) {
  if (p) memset(p, 0, sizeof(*p));
  if (!n) {
    uint8_t e = 0x80;
    w_keccak(&e, 1, root);
    return;
  }
  qsort(it, n, sizeof(*it), icmp);
  wbuf out = {0};
  build(it, n, 0, key, klen, p, &out);
  w_keccak(out.d, out.n, root);
  free(out.d);
  if (p) { // embedded nodes are part of their parent
    int k = 1;
    for (int i = 1; i < p->len; i++) {
      if (p->n[i] >= 32) {
        p->n[k] = p->n[i];
        p->d[k] = p->d[i];
        k++;
      }
    }
    if (p->len > k) p->len = k;
  }
}
void wm_root(wm_item* it, int n, uint8_t root[32]) { wm_prove(it, n, NULL, 0, root, NULL); }
