#ifndef FORGE_H
#define FORGE_H
#include "net.h"
#include "sszt.h"
world* forge_chain(const world* w, int from, int upto, int mode, int what);
world* forge_evil(const world* w);
st*    st_find(st* root, const char* name);
world* forge_committees(const world* w, uint32_t period, int from, int mode, int what);
void   translate(wreq* r, const world* from, const world* to);
void   mutate(st* root, st* d1, st* d2);
bool   mutate_rlp(st* root);
void   mutate_rlp_bytes(wbuf* b);
void   graft(st* a, st* b);
void   st_become(st* v, const st* o);
void   set_all(st* root, const char* name, const void* d, uint32_t n);
void   mutate_bytes(wbuf* p);
void   keys96(const wcommittee* c, uint8_t* out);
#endif
