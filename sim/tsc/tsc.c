// Simulator of the typescript client: the real bundle in a node process, the real C code (with ems.c) in this one. Both are connected
// by two pipes; node calls synchronously, code blocks of EM_ASM are called back. All decisions are made here.
#define _GNU_SOURCE
#include "../net/net.h"
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

const char* sim_name = "tsc";
typedef struct {
  int      type; // 0 int, 1 bytes
  int64_t  i;
  uint8_t* b;
  uint32_t n;
} val;
static int     rfd, wfd;
static pid_t   node_pid;
static wbuf    out;
static uint8_t in[1 << 24];
static void    put(const void* d, uint32_t n) { wb_put(&out, d, n); }
static void    begin(char op) {
  out.n = 0;
  uint32_t z = 0;
  put(&z, 4);
  put(&op, 1);
}
static void add_i(int64_t v) {
  put("i", 1);
  put(&v, 8);
}
static void add_b(const void* d, uint32_t n) {
  put("b", 1);
  put(&n, 4);
  if (n) put(d, n);
}
static void add_s(const char* s) { add_b(s, strlen(s)); }
static void flush_(void) {
  uint32_t n = out.n - 4;
  memcpy(out.d, &n, 4);
  for (uint32_t o = 0; o < out.n;) {
    ssize_t k = write(wfd, out.d + o, out.n - o);
    if (k <= 0) sim_error("node process is gone");
    o += k;
  }
}
static void rd(void* d, uint32_t n) {
  for (uint32_t o = 0; o < n;) {
    ssize_t k = read(rfd, (char*) d + o, n - o);
    if (k <= 0) {
      int ws = 0;
      waitpid(node_pid, &ws, 0);
      if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGKILL)) sim_violation("never-ends", "the client runs without end");
      sim_error("the node process ended unexpectedly (%d)", ws);
    }
    o += k;
  }
}
static char recv_(val* v, int* nv) {
  uint32_t n;
  rd(&n, 4);
  if (!n || n > sizeof(in)) sim_error("bad frame");
  uint8_t* b = malloc(n); // nested calls
  rd(b, n);
  *nv = 0;
  for (uint32_t o = 1; o < n;) {
    val* x = v + (*nv)++;
    if (b[o] == 'i') {
      x->type = 0;
      memcpy(&x->i, b + o + 1, 8);
      o += 9;
    }
    else {
      x->type = 1;
      memcpy(&x->n, b + o + 1, 4);
      x->b = malloc(x->n + 1);
      memcpy(x->b, b + o + 5, x->n);
      x->b[x->n] = 0;
      o += 5 + x->n;
    }
  }
  char op = b[0];
  free(b);
  return op;
}
static void to_hex(char* o, const uint8_t* d, int n) {
  o += sprintf(o, "0x");
  for (int i = 0; i < n; i++) o += sprintf(o, "%02x", d[i]);
}
static jmp_buf* top;
static void     command(val* v, int n);
int             sim_em(const char* code, int n, const uint64_t* args) {
  begin('E');
  add_s(code);
  for (int i = 0; i < n; i++) add_i(args[i]);
  flush_();
  while (1) {
    val  v[16];
    int  k;
    char op = recv_(v, &k);
    if (op == 'e') return (int) v[0].i;
    if (op == 'x') longjmp(*top, 1); // an exception leaves the C frames behind
    command(v, k);
  }
}

// ---- ems.c ----
void*    c4w_create_proof_ctx(char* method, char* args, uint64_t chain_id, uint32_t flags);
void     c4w_free_proof_ctx(void*);
char*    c4w_execute_proof_ctx(void*);
void     c4w_req_set_response(void*, void*, size_t, uint16_t);
void     c4w_req_set_error(void*, char*, uint16_t);
void*    c4w_create_verify_ctx(uint8_t*, size_t, char*, char*, uint64_t, char*, char*);
void     c4w_free_verify_ctx(void*);
int      c4w_get_method_type(uint64_t, char*);
char*    c4w_verify_proof(void*);
void     c4w_req_free(void*);
uint8_t* c4w_buffer_alloc(void*, size_t);
void     init_storage(void*);

static wreq  REQ[512];
static int   nreq;
static bool  ended;
static void* cpy(void* dst, const void* src, size_t n) { // checked by the sanitizer
  return memcpy(dst, src, n);
}
#define I(k)   (v[(k) + 1].i)
#define PTR(k) ((void*) (uintptr_t) I(k))
#define S(k)   ((char*) v[(k) + 1].b)
static void ret_i(int64_t i) {
  begin('R');
  add_i(i);
  flush_();
}
static void ret(void) {
  begin('R');
  flush_();
}
static void run_command(val* v, int n) {
  const char* c = (char*) v[0].b;
#define IS(s) (!strcmp(c, s))
  if (IS("choose")) ret_i(I(0) > 1 ? sim_choose(I(0), S(1)) : 0);
  else if (IS("fault")) ret_i(sim_fault(S(0), I(1)));
  else if (IS("count")) sim_fault_count(S(0)), ret();
  else if (IS("stat")) sim_stat(S(0), 1), ret();
  else if (IS("log")) sim_log("%s", S(0)), ret();
  else if (IS("state")) sim_state(sim_hash(7, S(0), v[1].n)), ret();
  else if (IS("checked")) sim_checked(1), ret();
  else if (IS("advance")) sim_advance(I(0)), ret();
  else if (IS("now")) ret_i(sim_now_ms);
  else if (IS("violation")) sim_violation(S(0), "%s", S(1));
  else if (IS("error")) sim_error("%s", S(0));
  else if (IS("prop")) {
    begin('R');
    add_s(sim_prop());
    flush_();
  }
  else if (IS("world")) {
    W          = world_get(sim_choose(NCFG, "cfg"));
    int room   = W->head_max - W->head_min - 4 - (int) I(0);
    W->head    = W->head_min + sim_choose(room > 1 ? room : 1, "head");
    sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
    begin('R');
    add_i(W->chain_id);
    add_i(W->slot_secs);
    flush_();
  }
  else if (IS("new-head")) { // the chain grows, 0 if there are no more blocks
    int64_t ok = W->head < W->head_max - 2;
    if (ok) {
      W->head++;
      sim_log("new head slot %llu number %llu", (unsigned long long) W->b[W->head].slot, (unsigned long long) W->b[W->head].ex->number);
    }
    ret_i(ok);
  }
  else if (IS("hash")) { // of the canonical block with this number, empty if there is none
    char h[67] = "";
    for (int b = W->head; b > 0 && b > W->head - 60; b--)
      if (W->b[b].ex->number == I(0)) to_hex(h, W->b[b].ex->hash, 32);
    begin('R');
    add_s(h);
    flush_();
  }
  else if (IS("keccak")) {
    uint8_t h[32];
    w_keccak(v[1].b, v[1].n, h);
    begin('R');
    add_b(h, 32);
    flush_();
  }
  else if (IS("top")) { // number of the highest block which can be proven
    int b = W->head;
    while (b > 0 && !provable(b)) b--;
    ret_i(W->b[b].ex->number);
  }
  else if (IS("block")) { // number and slot of a block relative to the head
    int b = W->head - (int) I(0);
    begin('R');
    add_i(W->b[b].ex->number);
    add_i((int64_t) (W->genesis_time + W->b[b].slot * W->slot_secs) * 1000);
    add_i(provable(b));
    flush_();
  }
  else if (IS("checkpoint")) {
    char cp[67];
    uint32_t behind = I(0);
    if (!behind) set_checkpoint(cp, W->b[W->head].final_root);
    else {
      uint32_t hp = w_period(W, W->b[W->head].slot), far = hp - W->first_period, wsp = W->wsp_epochs / (8192 >> W->epoch_bits);
      if (far > wsp) far = wsp;
      if (behind > far) behind = far;
      set_checkpoint(cp, W->b[w_find_slot(W, (uint64_t) (hp - behind) * 8192 + 4 * (1 << W->epoch_bits))].root);
    }
    begin('R');
    add_s(cp);
    flush_();
  }
  else if (IS("node")) {
    wresp r;
    W->head -= I(4);
    w_node(W, S(0)[0], S(1), v[3].n ? v[3].b : NULL, v[3].n, I(3), &r);
    W->head += I(4);
    begin('R');
    add_i(r.status);
    add_b(r.body.d, r.body.n);
    flush_();
    free(r.body.d);
  }
  else if (IS("prove")) { // method, params, client state
    wreq r = {0};
    wout o = {0};
    if (v[1].n < sizeof(r.method) && v[2].n < sizeof(r.args)) {
      strcpy(r.method, S(0));
      strcpy(r.args, S(1));
      pcfg pc = {.answer = honest_answer, .max_rounds = 80};
      if (v[3].n > 1) pc.client_state = (wbuf) {.d = v[3].b, .n = v[3].n}, pc.flags = 1 << 5;
      W->head -= I(3);
      run_prover(&r, &pc, &o);
      W->head += I(3);
    }
    begin('R');
    add_i(o.ok);
    if (o.ok) add_b(o.proof.d, o.proof.n);
    else
      add_s(o.error ? o.error : "?");
    flush_();
  }
  else if (IS("request")) {
    if (nreq == 512) nreq = 0;
    wreq* r = REQ + nreq++;
    gen_request(r, I(0), W->head - 20, W->head - 1);
    bool must = has_answer(r) && req_provable(r, w_period(W, W->b[W->head].slot)) && !(r->kind == K_LOGS && empty_logs(r));
    begin('R');
    add_i(nreq - 1);
    add_s(r->method);
    add_s(r->args);
    add_i(must);
    flush_();
  }
  else if (IS("check") || IS("sound")) {
    sim_checked(1);
    const char* e = IS("check") ? check_answer(REQ + I(0), S(1), v[2].n) : sound_answer(REQ + I(0), S(1), v[2].n);
    begin('R');
    add_s(e ? e : "");
    flush_();
  }
  else if (IS("restart")) process_restart(), ret();
  else if (IS("done")) ended = true, ret();
  // memory of the wasm module
  else if (IS("malloc")) ret_i((int64_t) (uintptr_t) malloc(I(0)));
  else if (IS("free")) free(PTR(0)), ret();
  else if (IS("poke")) cpy(PTR(0), v[2].b, v[2].n), ret();
  else if (IS("peek")) {
    uint8_t* t = malloc(I(1) + 1);
    cpy(t, PTR(0), I(1));
    begin('R');
    add_b(t, I(1));
    flush_();
    free(t);
  }
  else if (IS("cstr")) {
    begin('R');
    add_s(PTR(0) ? (char*) PTR(0) : "");
    flush_();
  }
  // functions of the wasm module
  else if (IS("_c4w_create_proof_ctx")) ret_i((int64_t) c4w_create_proof_ctx(PTR(0), PTR(1), I(2), I(3)));
  else if (IS("_c4w_free_proof_ctx")) c4w_free_proof_ctx(PTR(0)), ret();
  else if (IS("_c4w_execute_proof_ctx")) ret_i((int64_t) c4w_execute_proof_ctx(PTR(0)));
  else if (IS("_c4w_req_set_response")) c4w_req_set_response(PTR(0), PTR(1), I(2), I(3)), ret();
  else if (IS("_c4w_req_set_error")) c4w_req_set_error(PTR(0), PTR(1), I(2)), ret();
  else if (IS("_c4w_get_method_type")) ret_i(c4w_get_method_type(I(0), PTR(1)));
  else if (IS("_c4w_create_verify_ctx")) ret_i((int64_t) c4w_create_verify_ctx(PTR(0), I(1), PTR(2), PTR(3), I(4), PTR(5), PTR(6)));
  else if (IS("_c4w_free_verify_ctx")) c4w_free_verify_ctx(PTR(0)), ret();
  else if (IS("_c4w_verify_proof")) ret_i((int64_t) c4w_verify_proof(PTR(0)));
  else if (IS("_c4w_req_free")) c4w_req_free(PTR(0)), ret();
  else if (IS("_c4w_buffer_alloc")) ret_i((int64_t) c4w_buffer_alloc(PTR(0), I(1)));
  else if (IS("_init_storage")) init_storage(NULL), ret();
  else sim_error("unknown command %s", c);
}
static void command(val* v, int n) {
  jmp_buf  here, *prev = top;
  top = &here;
  if (!setjmp(here)) run_command(v, n);
  else {
    begin('X');
    flush_();
  }
  top = prev;
  for (int i = 0; i < n; i++)
    if (v[i].type) free(v[i].b);
}
void sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCFG; i++) world_get(i);
  process_snapshot();
  signal(SIGPIPE, SIG_IGN);
}
void sim_run(const sim_cfg_t* cfg) {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) sim_error("pipe");
  char exe[600];
  int  l   = readlink("/proc/self/exe", exe, sizeof(exe) - 40);
  exe[l]   = 0;
  strcpy(strrchr(exe, '/'), "/tsc.bundle/driver.mjs");
  pid_t me = getpid();
  node_pid = fork();
  if (!node_pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != me) _exit(1);
    int r = fcntl(a[0], F_DUPFD, 10), w = fcntl(b[1], F_DUPFD, 10);
    for (int i = 3; i < 10; i++) close(i);
    close(a[1]), close(b[0]);
    dup2(r, 3), dup2(w, 4);
    close(r), close(w);
    char tmp[300];
    snprintf(tmp, sizeof(tmp), "%s/tsc%d", getenv("SIM_TMP") ? getenv("SIM_TMP") : "/tmp", (int) me);
    setenv("SIM_SCRATCH", tmp, 1);
    execlp("node", "node", "--no-warnings", "--max-old-space-size=300", exe, (char*) NULL);
    _exit(127);
  }
  close(a[0]);
  close(b[1]);
  rfd = b[0];
  wfd = a[1];
  while (!ended) {
    val v[24];
    int n;
    if (recv_(v, &n) != 'C') sim_error("unexpected frame");
    command(v, n);
  }
}
