#include "sszt.h"
#include "verify.h"
#include <stdlib.h>
#include <string.h>
const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type);
#ifdef CHAIN_OP
const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type);
const ssz_def_t* st_request_def(void) { return c4_op_get_request_type(C4_CHAIN_TYPE_OP); }
#else
const ssz_def_t* st_request_def(void) { return c4_eth_get_request_type(C4_CHAIN_TYPE_ETHEREUM); }
#endif

static bool dyn(const ssz_def_t* d) {
  switch (d->type) {
    case SSZ_TYPE_LIST:
    case SSZ_TYPE_BIT_LIST:
    case SSZ_TYPE_UNION: return true;
    case SSZ_TYPE_VECTOR: return dyn(d->def.vector.type);
    case SSZ_TYPE_CONTAINER:
      for (uint32_t i = 0; i < d->def.container.len; i++)
        if (dyn(d->def.container.elements + i)) return true;
      return false;
    default: return false;
  }
}
static uint32_t fixlen(const ssz_def_t* d) {
  if (dyn(d)) return 4;
  switch (d->type) {
    case SSZ_TYPE_UINT: return d->def.uint.len;
    case SSZ_TYPE_BOOLEAN: return 1;
    case SSZ_TYPE_VECTOR: return fixlen(d->def.vector.type) * d->def.vector.len;
    case SSZ_TYPE_BIT_VECTOR: return (d->def.vector.len + 7) / 8;
    case SSZ_TYPE_CONTAINER: {
      uint32_t s = 0;
      for (uint32_t i = 0; i < d->def.container.len; i++) s += fixlen(d->def.container.elements + i);
      return s;
    }
    default: return 0;
  }
}
static bool leaf(const ssz_def_t* d) {
  switch (d->type) {
    case SSZ_TYPE_LIST:
    case SSZ_TYPE_VECTOR: return d->def.vector.type->type == SSZ_TYPE_UINT && d->def.vector.type->def.uint.len == 1;
    case SSZ_TYPE_CONTAINER:
    case SSZ_TYPE_UNION: return false;
    default: return true;
  }
}
static st* mk(const ssz_def_t* def) {
  st* v  = calloc(1, sizeof(st));
  v->def = def;
  return v;
}
void st_set(st* v, const void* d, uint32_t n) {
  uint8_t* p = malloc(n + 1);
  if (n) memcpy(p, d, n);
  v->d = p;
  v->n = n;
}
static uint32_t le32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
st* st_parse(const ssz_def_t* def, const uint8_t* d, uint32_t n) {
  st* v = mk(def);
  if (leaf(def)) {
    if (!dyn(def) && n != fixlen(def)) return NULL;
    st_set(v, d, n);
    return v;
  }
  if (def->type == SSZ_TYPE_UNION) {
    if (!n || d[0] >= def->def.container.len) return NULL;
    v->sel             = d[0];
    const ssz_def_t* e = def->def.container.elements + d[0];
    if (e->type == SSZ_TYPE_NONE) {
      v->none = true;
      return v;
    }
    v->k    = malloc(sizeof(st*));
    v->k[0] = st_parse(e, d + 1, n - 1);
    v->nk   = 1;
    return v->k[0] ? v : NULL;
  }
  int              cnt;
  const ssz_def_t* el = NULL;
  if (def->type == SSZ_TYPE_CONTAINER)
    cnt = def->def.container.len;
  else {
    el = def->def.vector.type;
    if (def->type == SSZ_TYPE_VECTOR)
      cnt = def->def.vector.len;
    else if (dyn(el))
      cnt = n ? le32(d) / 4 : 0;
    else
      cnt = n / fixlen(el);
    if (n < 4 && n && el && dyn(el)) return NULL;
  }
  if (cnt < 0 || cnt > 200000) return NULL;
  v->k         = calloc(cnt + 1, sizeof(st*));
  v->nk        = cnt;
  uint32_t pos = 0;
  for (int i = 0; i < cnt; i++) {
    const ssz_def_t* e = el ? el : def->def.container.elements + i;
    uint32_t         f = fixlen(e);
    if (pos + f > n) return NULL;
    if (dyn(e)) {
      uint32_t a = le32(d + pos), b = n, q = pos + 4;
      for (int j = i + 1; j < cnt; j++) { // the next offset
        const ssz_def_t* e2 = el ? el : def->def.container.elements + j;
        if (q + fixlen(e2) > n) return NULL;
        if (dyn(e2)) {
          b = le32(d + q);
          break;
        }
        q += fixlen(e2);
      }
      if (a > b || b > n) return NULL;
      v->k[i] = st_parse(e, d + a, b - a);
    }
    else
      v->k[i] = st_parse(e, d + pos, f);
    if (!v->k[i]) return NULL;
    pos += f;
  }
  return v;
}
void st_ser(const st* v, wbuf* out) {
  if (leaf(v->def)) {
    if (v->n) wb_put(out, v->d, v->n);
    return;
  }
  if (v->def->type == SSZ_TYPE_UNION) {
    wb_u8(out, v->sel);
    if (v->nk) st_ser(v->k[0], out);
    return;
  }
  wbuf     dynb = {0};
  uint32_t fix  = 0;
  for (int i = 0; i < v->nk; i++) fix += fixlen(v->k[i]->def);
  for (int i = 0; i < v->nk; i++) {
    if (dyn(v->k[i]->def)) {
      wb_le(out, fix + dynb.n, 4);
      st_ser(v->k[i], &dynb);
    }
    else
      st_ser(v->k[i], out);
  }
  if (dynb.n) wb_put(out, dynb.d, dynb.n);
  free(dynb.d);
}
st* st_clone(const st* v) {
  st* c = mk(v->def);
  *c    = *v;
  if (v->d) st_set(c, v->d, v->n);
  if (v->k) {
    c->k = malloc(sizeof(st*) * (v->nk + 1));
    for (int i = 0; i < v->nk; i++) c->k[i] = st_clone(v->k[i]);
  }
  return c;
}
int st_all(st* v, st** out, int max) {
  if (max < 1) return 0;
  int n  = 0;
  out[n++] = v;
  for (int i = 0; i < v->nk && n < max; i++) n += st_all(v->k[i], out + n, max - n);
  return n;
}
st* st_get(st* v, const char* name) {
  if (!v) return NULL;
  if (v->def->type == SSZ_TYPE_UNION) return v->nk ? st_get(v->k[0], name) : NULL;
  if (v->def->type != SSZ_TYPE_CONTAINER) return NULL;
  for (int i = 0; i < v->nk; i++)
    if (!strcmp(v->k[i]->def->name, name)) return v->k[i]->def->type == SSZ_TYPE_UNION && v->k[i]->nk ? v->k[i]->k[0] : v->k[i];
  return NULL;
}
