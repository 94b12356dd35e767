// generic trees of ssz objects over the type definitions of the code under test; used by the adversary only
#ifndef SSZT_H
#define SSZT_H
#include "ssz.h"
#include "world.h"
typedef struct st {
  const ssz_def_t* def;
  uint8_t*         d; // leaf
  uint32_t         n;
  struct st**      k; // container, list, vector, union (one kid)
  int              nk;
  int              sel;
  bool             none; // union with a none value
} st;
st*  st_parse(const ssz_def_t* def, const uint8_t* d, uint32_t n); // NULL if malformed
void st_ser(const st* v, wbuf* out);
st*  st_clone(const st* v);
int  st_all(st* v, st** out, int max); // all nodes in pre-order
st*  st_get(st* v, const char* name);  // kid of a container (unions are followed)
void st_set(st* v, const void* d, uint32_t n);
const ssz_def_t* st_request_def(void);
#endif
