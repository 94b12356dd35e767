// The simulated Ethereum world: an independent implementation of SSZ, RLP, Merkle Patricia tries, the beacon chain,
// the execution chain and the APIs of their nodes. Nothing in here uses code of the repository besides the
// hash/ecdsa primitives of the bundled crypto library.
#ifndef WORLD_H
#define WORLD_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

// ---- buffers ----
typedef struct {
  uint8_t* d;
  uint32_t n, cap;
} wbuf;
void  wb_put(wbuf* b, const void* p, uint32_t n);
void  wb_u8(wbuf* b, uint8_t v);
void  wb_le(wbuf* b, uint64_t v, int n);
void  wb_f(wbuf* b, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void  wb_hex(wbuf* b, const void* p, uint32_t n);   // "0x..." with quotes
void  wb_qty(wbuf* b, uint64_t v);                   // "0x1" with quotes
void  wb_qty_be(wbuf* b, const uint8_t* p, int n);   // big endian number as quantity with quotes
char* wb_str(wbuf* b);
int   w_unhex(const char* s, int len, uint8_t* out, int max); // without 0x
void  w_sha256(const void* d, size_t n, uint8_t out[32]);
void  w_sha2(const uint8_t a[32], const uint8_t b[32], uint8_t out[32]);
void  w_keccak(const void* d, size_t n, uint8_t out[32]);
uint64_t w_rnd(uint64_t* s);
void     w_rfill(uint64_t* s, void* out, size_t n);

// ---- ssz ----
enum { W_FIX, W_BYTES, W_BITLIST, W_CONT, W_LIST, W_VEC };
typedef struct wn {
  uint8_t     kind;
  bool        var, rooted;
  uint8_t*    d;
  uint32_t    n;
  struct wn** k;
  uint32_t    kn;
  uint64_t    limit;
  uint8_t     root[32];
} wn;
wn*  wn_fix(const void* d, uint32_t n);
wn*  wn_u64(uint64_t v);
wn*  wn_bytes(const void* d, uint32_t n, uint64_t limit);
wn*  wn_bitlist(const void* d, uint32_t bits, uint64_t limit);
wn*  wn_cont(int n, ...);
wn*  wn_list(uint64_t limit, uint32_t n, wn** kids, bool elem_var);
wn*  wn_vec(uint32_t n, wn** kids);
void wn_ser(wn* v, wbuf* out);
void wn_root(wn* v, uint8_t out[32]);
void w_merkleize(uint8_t (*leafs)[32], uint64_t n, int depth, uint8_t out[32]);
// merkle branch of leaf idx in the tree over n leafs with the depth; returns depth hashes bottom up
void w_branch(uint8_t (*leafs)[32], uint64_t n, int depth, uint64_t idx, uint8_t (*out)[32]);
void w_zero(int depth, uint8_t out[32]);
// root from leaf + branch + gindex
void w_branch_root(const uint8_t leaf[32], uint8_t (*br)[32], int depth, uint64_t idx, uint8_t out[32]);

// ---- rlp / mpt ----
void wr_item(wbuf* b, const void* d, uint32_t n);
void wr_uint(wbuf* b, uint64_t v);
void wr_be(wbuf* b, const uint8_t* d, uint32_t n); // strips leading zeros
void wr_list(wbuf* b, wbuf* content);              // wraps and frees content
typedef struct {
  uint8_t  key[80];
  uint8_t  klen;
  uint8_t* val;
  uint32_t vlen;
} wm_item;
typedef struct {
  uint8_t* d[80];
  uint32_t n[80];
  int      len;
} wm_proof;
// keys are nibbles
void wm_root(wm_item* it, int n, uint8_t root[32]);
void wm_prove(wm_item* it, int n, const uint8_t* key, int klen, uint8_t root[32], wm_proof* p);
int  wm_nibbles(const uint8_t* k, int n, uint8_t* out);

// ---- execution layer ----
typedef struct {
  uint8_t addr[20], topics[4][32];
  int     ntopics;
  uint8_t data[96];
  int     ndata;
} wlog;
typedef struct {
  int      type, index;
  uint64_t chain_id, nonce, gas, gas_price, max_fee, max_prio, max_blob_fee;
  uint8_t  value[32], to[20], from[20], r[32], s[32], hash[32];
  bool     create, pre155;
  int      rec;
  uint8_t* data;
  uint32_t ndata;
  int      nacc; // access list entries
  uint8_t  acc_addr[2][20], acc_keys[2][3][32];
  int      acc_nkeys[2];
  int      nblob;
  uint8_t  blob[3][32];
  int      nauth;
  struct {
    uint64_t chain_id, nonce;
    uint8_t  addr[20], r[32], s[32];
    int      y;
  } auth[2];
  uint8_t* raw;
  uint32_t nraw;
  // receipt
  bool     ok;
  uint64_t cum_gas, gas_used, eff_price;
  uint8_t  bloom[256];
  wlog     logs[6];
  int      nlogs;
  int      log_base; // index of the first log within the block
  uint8_t* rraw;
  uint32_t nrraw;
} wtx;
typedef struct {
  uint8_t key[32], val[32];
} wslot;
typedef struct {
  uint8_t  addr[20], balance[32], code_hash[32], storage_root[32];
  uint64_t nonce;
  uint8_t* code;
  uint32_t ncode;
  int      nslots;
  wslot*   slots;
} wacct;
typedef struct {
  uint64_t index, validator, amount;
  uint8_t  addr[20];
} wwithdrawal;
typedef struct {
  uint64_t    number, gas_limit, gas_used, timestamp, blob_gas, excess_blob;
  uint8_t     hash[32], parent_hash[32], fee_recipient[20], state_root[32], receipts_root[32], bloom[256], randao[32], tx_root[32], wd_root[32], parent_beacon[32], requests_hash[32];
  uint8_t     base_fee[32]; // big endian
  uint8_t     extra[32];
  int         nextra;
  wtx*        txs;
  int         ntxs;
  int         nwd;
  wwithdrawal wd[4];
  int         naccts;
  wacct*      accts;
} wexec;

// ---- beacon chain ----
typedef struct {
  uint64_t slot, proposer;
  uint8_t  parent[32], state[32], body[32], root[32];
  wn*      block;     // signed block
  wn*      body_node;
  wexec*   ex;
  uint8_t  bits[64], sig[96]; // sync aggregate contained in this block (signs the parent)
  uint8_t  final_root[32];
  uint64_t final_epoch;
  uint8_t (*state_leafs)[32];
  int      state_depth;
  wbuf     ssz;
} wblock;

typedef struct {
  uint32_t period;
  uint64_t sk[512];
  uint8_t  keys[512][48], agg[48], root[32], keys_root[32];
  bool     bad[512]; // compromised keys (less than 1/3)
  bool     evil;     // a committee invented by the adversary, all keys are known to him
  int      nbad;
  uint8_t (*block_roots)[32]; // 8192, once complete
  uint8_t  block_roots_root[32];
  int      upd; // index of the block used as attested header of the light client update for this period, -1 none
} wcommittee;

typedef struct world {
  const char* name;
  uint64_t    chain_id;
  int         epoch_bits, period_bits; // slots per epoch, epochs per period
  uint64_t    wsp_epochs;
  uint64_t    fork_epochs[8]; // altair.. 0
  uint8_t     gvr[32];
  uint8_t     zk_root[32];
  bool        gnosis;
  uint64_t    capella_epoch;
  uint32_t    first_period, nperiods;
  wcommittee* com;
  uint64_t    genesis_time;
  int         slot_secs;
  wblock*     b;
  int         nb;
  int         head;        // current head (index into b)
  int         head_min, head_max;
  uint8_t (*summaries)[2][32];
  uint32_t    nsummaries;  // number of historical summaries for periods before first_period
  uint64_t    rnd;
  int         nusers;
  uint8_t     user_sk[8][32], user_addr[8][20];
  uint8_t     evil_leaf[32];   // 32 attacker chosen bytes inside of every state (a validator's withdrawal credentials)
  wblock      evil;                // the forged block whose root is evil_leaf
  int         evil_of;             // the canonical block it imitates
  bool        pectra, empty_agg, low_agg; // how the next block is built
  // forged chains
  const struct world* canon;   // the canonical chain this one was forked off, NULL for the canonical chain
  int         sign_mode;       // how the adversary signs forged blocks without knowing enough keys
  uint64_t    forged_from;     // first forged slot
  uint32_t    rich[3];         // past periods with many blocks
} world;

world* w_create(int cfg);
int    w_fork(const world* w, uint64_t epoch); // 4 deneb, 5 electra, 6 fulu
void   w_domain(const world* w, uint64_t slot, uint8_t out[32]);
void   w_sign_msg(const world* w, const uint8_t root[32], uint64_t sig_slot, uint8_t out[32]);
// aggregated signature over the message by the keys selected in bits
void   w_sign(const wcommittee* c, const uint8_t msg[32], const uint8_t bits[64], uint8_t sig[96]);
void   w_make_committee(world* w, wcommittee* c, uint32_t period, const wcommittee* prev);
enum { SM_BAD_ONLY = 1, SM_BAD_CLAIM_ALL, SM_NOBITS_INF, SM_ALL_INF, SM_ALL_RANDOM, SM_COPY, SM_ZERO_SIG, SM_BAD_CLAIM_342, SM_COUNT, SM_ALL_KEYS /* long range: all keys of a past committee leaked */ };
void   w_attack_sign(const world* w, const wcommittee* c, const uint8_t msg[32], uint64_t slot, int mode, uint8_t bits[64], uint8_t sig[96]);
void   w_zk_sync(const world* w, uint32_t period, wbuf* out);
void   w_witness_sig(const world* w, uint32_t period, int user, uint8_t sig[65]);
wcommittee* w_com(const world* w, uint64_t period);
uint64_t    w_period(const world* w, uint64_t slot);
uint64_t    w_epoch(const world* w, uint64_t slot);
void   w_header_root(uint64_t slot, uint64_t proposer, const uint8_t parent[32], const uint8_t state[32], const uint8_t body[32], uint8_t out[32]);
wn*    w_header_node(const wblock* b);
wn*    w_lc_header(const wblock* b, const world* w);
void   w_lc_update(world* w, uint32_t period, wbuf* out);  // plain ssz of the update
wn*    w_committee_node(const wcommittee* c);
bool   w_bootstrap(world* w, const uint8_t root[32], wbuf* out);
int    w_find_root(const world* w, const uint8_t root[32]);
int    w_find_slot(const world* w, uint64_t slot);         // exact
int    w_at_slot(const world* w, uint64_t slot);           // last block at or before
int    w_find_number(const world* w, uint64_t number);
int    w_find_hash(const world* w, const uint8_t hash[32]);
wacct* w_acct(wexec* e, const uint8_t addr[20]);
void   w_account_proof(wexec* e, const uint8_t addr[20], wm_proof* p);
void   w_storage_proof(wacct* a, const uint8_t key[32], wm_proof* p, uint8_t value[32]);
// builds a block on top of parent with the given execution payload (used for the canonical chain and for forgeries)
void   w_build_block(world* w, wblock* out, const wblock* parent, uint64_t slot, wexec* ex, uint64_t* rnd);
void   w_finish_exec(world* w, wexec* e);                  // computes roots and hashes
wexec* w_clone_exec(const wexec* e);
void   w_random_tx(world* w, wtx* t, uint64_t* rnd, wexec* e);
uint64_t    w_sig_slot(const world* w, uint64_t parent_slot, uint64_t slot);
const wbuf* w_block_ssz(wblock* b);
wn*    w_lc_update_node(world* w, int attested, int sig_block, const wcommittee* next);
int    w_evil_branch(const world* w, const wblock* b, uint8_t (*out)[32], uint64_t* gindex);
void   w_summaries_proof(const world* w, const wblock* b, uint8_t (*out)[32]);
uint32_t w_capella_period(const world* w);
void     w_justified(const world* w, int head, uint64_t* epoch, uint8_t root[32]);
void   w_tx_make(world* w, wtx* t, uint64_t* rnd);          // sign and encode
void   w_receipt_make(wtx* t);

// ---- json of the canonical answers ----
void w_json_tx(const wexec* e, const wtx* t, wbuf* out);
void w_json_receipt(const wexec* e, const wtx* t, wbuf* out);
void w_json_log(const wexec* e, const wtx* t, int i, wbuf* out);
void w_json_block(const wexec* e, bool full, wbuf* out);
void w_json_proof(wexec* e, const uint8_t addr[20], uint8_t (*keys)[32], int nkeys, wbuf* out);
typedef struct {
  uint64_t from, to;
  bool     by_hash;
  uint8_t  hash[32];
  int      naddr;
  uint8_t  addr[3][20];
  int      ntop;
  int      nalt[4]; // 0 = any
  uint8_t  top[4][2][32];
} wfilter;
bool w_log_matches(const wfilter* f, const wlog* l);
void w_json_logs(world* w, const wfilter* f, wbuf* out);

// ---- json values ----
typedef struct wj {
  char        t; // o a s n b(ool) z(null)
  char*       s; // string/number text
  int         n;
  char**      keys;
  struct wj** v;
} wj;
wj*   wj_parse(const char* s, int len); // NULL if malformed
wj*   wj_get(wj* o, const char* k);
wj*   wj_at(wj* a, int i);
// compares: every key of `a` which is in `b` has to be equal. returns NULL if ok, otherwise path+reason (static buffer)
const char* wj_diff(wj* got, wj* want);

// ---- nodes ----
typedef struct {
  wbuf body;
  int  status; // 200, 404 ...
} wresp;
// type: 'b' beacon, 'r' rpc, 'c' checkpointz, 'i' internal. w->head is the head of this node
void w_updates(world* w, uint32_t start, uint32_t count, wbuf* out);
bool w_parse_filter(world* w, wj* f, wfilter* out);
bool w_rpc_result(world* w, const char* method, wj* params, wbuf* out);
void w_node(world* w, char type, const char* url, const uint8_t* payload, uint32_t plen, bool want_ssz, wresp* out);
// set by the simulation of OP-Stack chains: answers preconf/<block>
extern bool (*w_preconf)(world* w, const char* block, wbuf* out);
wn* w_payload_node(const world* w, const wexec* e);
#endif
