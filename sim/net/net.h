#ifndef NET_H
#define NET_H
#include "../core/sim.h"
#include "world.h"
#include "bytes.h"

#define NCFG 4
extern world* W;             // the world of this run
world*        world_get(int cfg);

// ---- durable storage of one client ----
typedef struct {
  char    key[64];
  uint8_t *vis, *dur; // visible and durable value, NULL = absent
  uint32_t nvis, ndur;
  bool     dirty, leftover; // leftover: from a discarded state, replacing it truncates it at once
} sfile;
typedef struct {
  sfile    f[64];
  int      n;
  uint64_t ops;
  int      crash_at; // crash at the n-th storage operation from now, -1 never
  bool     lossy;    // crashes may lose or tear unsynced writes
  bool     full;     // writes fail
} sstore;
extern sstore* STORE;        // the storage used by the current client
void    store_install(sstore* s, uint32_t max_sync_states);
sfile*  store_find(sstore* s, const char* key);
void    store_put(sstore* s, const char* key, const void* d, uint32_t n);
void    store_crash(sstore* s); // applies the effects of a crash to the unsynced writes
void    store_copy(sstore* dst, const sstore* src);
void    process_restart(void);  // resets all static variables of the code under test
void    process_snapshot(void);
// runs fn; returns true if the process crashed within
#include <setjmp.h>
extern jmp_buf crash_env;
extern bool    crash_armed;

// ---- requests ----
enum { K_ACCOUNT = 1, K_TX = 2, K_BLOCK = 4, K_LOGS = 8, K_RECEIPT = 16, K_LOCAL = 32 };
typedef struct {
  char method[64];
  char args[6000];
  int  lg[3][2], nlg; // eth_verifyLogs: index of the transaction and log in the block
  int  kind;
  int  blk;      // the block the request refers to, -1 for tags
  bool tag;      // latest/safe/finalized
} wreq;
void gen_request(wreq* r, int kinds, int min_blk, int max_blk);
// NULL if the result is a canonical answer, otherwise the reason (static)
const char* check_answer(const wreq* r, const char* result, int len);
// the same for answers made by an adversary: only what the proofs cover has to be canonical
const char* sound_answer(const wreq* r, const char* result, int len);
// is there a canonical answer at all (block and object exist)
bool has_answer(const wreq* r);
bool empty_logs(const wreq* r);
// a signed descendant exists, so the block can be proven
bool provable(int blk);
bool req_provable(const wreq* r, uint64_t lowest_period); // all blocks of the request

// ---- network of one client/prover ----
typedef struct nodeset nodeset;
typedef struct {
  int  node;
  int  outcome; // 0 response, 1 error
  wbuf body;
} wanswer;
typedef struct {
  char   type; // b r c i p
  const char* url;
  const uint8_t* payload;
  uint32_t plen;
  bool   ssz;
  uint32_t exclude;
  void*  ptr;
  bool   verify; // asked by the verifier
} wrequest;
typedef void (*answer_fn)(const wrequest* q, wanswer* a);
typedef struct {
  bool  ok;
  char* result; // json (verifier)
  int   nresult;
  char* error;
  wbuf  proof;
  int   rounds, requests;
  bool  stuck, malformed;
} wout;
typedef struct {
  uint32_t flags;
  wbuf     client_state;
  answer_fn answer;
  int      max_rounds;
  const uint8_t* witness; // addresses whose signatures are requested
  uint32_t nwitness;
} pcfg;
typedef struct {
  bool      prover, done;
  uint32_t  flags;
  wreq      r;
  answer_fn ans;
  int       max_rounds;
  void*     ctx;
  wj*       reqs;
  int       open[64], nopen;
  wout      out;
} task;
void task_prover(task* t, const wreq* r, const pcfg* c);
void task_verify(task* t, const wreq* r, const uint8_t* proof, uint32_t nproof, const char* checkpoint, answer_fn ans, int max_rounds);
bool task_step(task* t);
void task_answer(task* t, int k);
void task_run(task* t);
void tasks_run(task** ts, int n);
void run_prover(const wreq* r, const pcfg* c, wout* out);
void run_verify(const wreq* r, const uint8_t* proof, uint32_t nproof, const char* checkpoint, answer_fn ans, int max_rounds, wout* out);
extern wbuf*  CAPTURE; // receives the verified data (selector and content of the data union) of the next verification
extern const uint8_t* WITNESS; // address the verifier requires as witness or NULL
extern void (*TICK)(void); // called before every step of tasks_run
extern world* AW; // the world the nodes answer from (NULL: W)
void honest_answer(const wrequest* q, wanswer* a);
void lie(wbuf* json);
bool verify_logs_args(wreq* r, const world* w);
void out_free(wout* o);
const char* check_sync_state(bool torn_ok);
void client_state_of(wbuf* out); // as sent by the clients along with a proof request
void set_checkpoint(char out[67], const uint8_t root[32]);
#endif
