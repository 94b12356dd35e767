// Simulated BLS12-381 (ideal functionality): a public key carries its secret scalar sk in Z_p (p = 2^61-1), a signature is
// sk * H(msg) mod p. Keys and signatures aggregate additively exactly like the real scheme, encodings carry a checksum, so
// that a damaged encoding is rejected like a point which is not on the curve.
#ifndef BLST_SIM_H
#define BLST_SIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef enum { BLST_SUCCESS = 0,
               BLST_BAD_ENCODING,
               BLST_POINT_NOT_ON_CURVE,
               BLST_POINT_NOT_IN_GROUP,
               BLST_AGGR_TYPE_MISMATCH,
               BLST_VERIFY_FAIL,
               BLST_PK_IS_INFINITY,
               BLST_BAD_SCALAR } BLST_ERROR;
typedef struct { uint64_t v, chk, pad[10]; } blst_p1_affine; // 96 bytes
typedef struct { uint64_t v, pad[17]; } blst_p1;             // 144 bytes
typedef struct { uint64_t v, chk, pad[22]; } blst_p2_affine; // 192 bytes
typedef struct { uint64_t v, pad[35]; } blst_p2;
typedef struct blst_pairing blst_pairing;
typedef unsigned char byte;
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]);
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]);
void       blst_p1_from_affine(blst_p1* out, const blst_p1_affine* a);
void       blst_p1_add_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p1_add_or_double_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void       blst_p1_add_or_double(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p1_add(blst_p1* out, const blst_p1* a, const blst_p1* b);
void       blst_p1s_add(blst_p1* ret, const blst_p1_affine* const points[], size_t npoints);
void       blst_p1_to_affine(blst_p1_affine* out, const blst_p1* a);
bool       blst_p1_affine_in_g1(const blst_p1_affine* a);
bool       blst_p1_affine_is_inf(const blst_p1_affine* a);
bool       blst_p2_affine_in_g2(const blst_p2_affine* a);
size_t     blst_pairing_sizeof(void);
void       blst_pairing_init(blst_pairing* ctx, bool hash_or_encode, const byte* DST, size_t DST_len);
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, bool pk_grpchk, const blst_p2_affine* signature, bool sig_grpchk, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* PK, const blst_p2_affine* signature, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
void       blst_pairing_commit(blst_pairing* ctx);
bool       blst_pairing_finalverify(const blst_pairing* ctx, const void* gtsig);
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* signature, bool hash_or_encode, const byte* msg, size_t msg_len, const byte* DST, size_t DST_len, const byte* aug, size_t aug_len);

// --- used by the simulated chain only
#define BLSSIM_P ((1ull << 61) - 1)
void     blssim_pubkey(uint64_t sk, uint8_t out[48]);
void     blssim_signature(uint64_t v, uint8_t out[96]);
uint64_t blssim_hash(const uint8_t* msg, size_t len);
uint64_t blssim_mul(uint64_t a, uint64_t b);
#endif
