#include "blst.h"
#include "sha2.h"
#include <stdlib.h>
#include <string.h>

uint64_t blssim_mul(uint64_t a, uint64_t b) { return (uint64_t) (((unsigned __int128) a * b) % BLSSIM_P); }
static uint64_t add(uint64_t a, uint64_t b) { return (a + b) % BLSSIM_P; }
static uint64_t chk(uint64_t v, char t) {
  v ^= (uint64_t) t << 56;
  v = (v ^ (v >> 30)) * 0xbf58476d1ce4e5b9ull;
  v = (v ^ (v >> 27)) * 0x94d049bb133111ebull;
  return v ^ (v >> 31);
}
static void enc(uint64_t v, uint8_t* out, int len, char t) {
  memset(out, 0, len);
  if (v == 0) {
    out[0] = 0xc0;
    return;
  }
  out[0]     = 0x80;
  uint64_t c = chk(v, t);
  memcpy(out + 1, &v, 8);
  for (int i = 9; i < len; i += 8) {
    memcpy(out + i, &c, len - i < 8 ? len - i : 8);
    c = chk(c + i, t);
  }
}
static BLST_ERROR dec(const uint8_t* in, int len, char t, uint64_t* v) {
  uint8_t tmp[96];
  if (!(in[0] & 0x80)) return BLST_BAD_ENCODING;
  if (in[0] & 0x40)
    *v = 0;
  else
    memcpy(v, in + 1, 8);
  if (*v >= BLSSIM_P) return BLST_BAD_ENCODING;
  enc(*v, tmp, len, t);
  return memcmp(tmp, in, len) ? BLST_POINT_NOT_ON_CURVE : BLST_SUCCESS;
}
void     blssim_pubkey(uint64_t sk, uint8_t out[48]) { enc(sk % BLSSIM_P, out, 48, 'p'); }
void     blssim_signature(uint64_t v, uint8_t out[96]) { enc(v % BLSSIM_P, out, 96, 's'); }
uint64_t blssim_hash(const uint8_t* msg, size_t len) {
  uint8_t    h[32];
  SHA256_CTX c;
  sha256_Init(&c);
  sha256_Update(&c, (const uint8_t*) "blssim", 6);
  sha256_Update(&c, msg, len);
  sha256_Final(&c, h);
  uint64_t v;
  memcpy(&v, h, 8);
  v %= BLSSIM_P;
  return v ? v : 1;
}
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]) {
  memset(out, 0, sizeof(*out));
  BLST_ERROR e = dec(in, 48, 'p', &out->v);
  out->chk     = chk(out->v, 'a');
  return e;
}
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]) {
  memset(out, 0, sizeof(*out));
  BLST_ERROR e = dec(in, 96, 's', &out->v);
  out->chk     = chk(out->v, 'b');
  return e;
}
// a damaged affine point leads to a different (random) sum, like with real curve arithmetic
static uint64_t aff(const blst_p1_affine* a) {
  uint64_t v = a->v, bad = a->chk ^ chk(a->v, 'a');
  for (int i = 0; i < 10; i++) bad |= a->pad[i];
  return bad ? chk(v ^ bad, 'x') % BLSSIM_P : v % BLSSIM_P;
}
void blst_p1_from_affine(blst_p1* out, const blst_p1_affine* a) {
  memset(out, 0, sizeof(*out));
  out->v = aff(a);
}
void blst_p1_add_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b) { out->v = add(a->v, aff(b)); }
void blst_p1_add_or_double_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b) { out->v = add(a->v, aff(b)); }
void blst_p1_add_or_double(blst_p1* out, const blst_p1* a, const blst_p1* b) { out->v = add(a->v, b->v); }
void blst_p1_add(blst_p1* out, const blst_p1* a, const blst_p1* b) { out->v = add(a->v, b->v); }
void blst_p1s_add(blst_p1* ret, const blst_p1_affine* const points[], size_t n) {
  const blst_p1_affine* p = NULL;
  uint64_t              s = 0;
  for (size_t i = 0; i < n; i++) { // like blst: a NULL entry means: the points are consecutive from here on
    p = points[i] ? points[i] : p + 1;
    s = add(s, aff(p));
  }
  memset(ret, 0, sizeof(*ret));
  ret->v = s;
}
void blst_p1_to_affine(blst_p1_affine* out, const blst_p1* a) {
  memset(out, 0, sizeof(*out));
  out->v   = a->v;
  out->chk = chk(a->v, 'a');
}
bool   blst_p1_affine_in_g1(const blst_p1_affine* a) { return a->chk == chk(a->v, 'a'); }
bool   blst_p1_affine_is_inf(const blst_p1_affine* a) { return a->v == 0; }
bool   blst_p2_affine_in_g2(const blst_p2_affine* a) { return a->chk == chk(a->v, 'b'); }
struct blst_pairing {
  uint64_t lhs, sig, dst;
  bool     committed;
  uint8_t  pad[3100];
};
size_t blst_pairing_sizeof(void) { return sizeof(struct blst_pairing); }
static uint64_t dst_hash(const byte* d, size_t l) {
  uint64_t h = 7;
  for (size_t i = 0; i < l; i++) h = chk(h ^ d[i], 'd');
  return h;
}
static uint64_t dst_eth(void) {
  static const char* D = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
  return dst_hash((const byte*) D, strlen(D));
}
void blst_pairing_init(blst_pairing* ctx, bool hash, const byte* DST, size_t l) {
  memset(ctx, 0, sizeof(*ctx));
  ctx->dst = dst_hash(DST, l) + !hash;
}
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, bool pk_grpchk, const blst_p2_affine* signature, bool sig_grpchk, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len) {
  if (PK) {
    if (PK->v == 0) return BLST_PK_IS_INFINITY;
    uint64_t h = blssim_hash(msg, msg_len);
    if (ctx->dst != dst_eth() || aug_len) h = chk(h ^ ctx->dst, 'h') % BLSSIM_P;
    ctx->lhs = add(ctx->lhs, blssim_mul(aff(PK), h));
  }
  if (signature) {
    if (signature->chk != chk(signature->v, 'b')) return BLST_POINT_NOT_ON_CURVE;
    ctx->sig = add(ctx->sig, signature->v);
  }
  return BLST_SUCCESS;
}
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, const blst_p2_affine* signature, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len) {
  return blst_pairing_chk_n_aggr_pk_in_g1(ctx, PK, true, signature, true, msg, msg_len, aug, aug_len);
}
void blst_pairing_commit(blst_pairing* ctx) { ctx->committed = true; }
bool blst_pairing_finalverify(const blst_pairing* ctx, const void* g) { return ctx->committed && ctx->lhs == ctx->sig; }
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool hash_or_encode, const byte* msg, size_t msg_len, const byte* DST, size_t DST_len, const byte* aug, size_t aug_len) {
  struct blst_pairing ctx;
  blst_pairing_init(&ctx, hash_or_encode, DST, DST_len);
  BLST_ERROR e = blst_pairing_chk_n_aggr_pk_in_g1(&ctx, pk, true, sig, true, msg, msg_len, aug, aug_len);
  if (e) return e;
  blst_pairing_commit(&ctx);
  return blst_pairing_finalverify(&ctx, NULL) ? BLST_SUCCESS : BLST_VERIFY_FAIL;
}
