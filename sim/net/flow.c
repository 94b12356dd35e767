// drives the real prover and verifier through their public API, all I/O is simulated
#include "net.h"
#include "colibri.h"
#include "plugin.h"
#include "prover.h"
#include "tx_cache.h"
#include "verify.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

world*  W;
const uint8_t* WITNESS;
static world* worlds[NCFG];
world*  world_get(int cfg) {
  if (!worlds[cfg]) worlds[cfg] = w_create(cfg);
  return worlds[cfg];
}
// ---- process restart ----
extern char __start_c4data[], __stop_c4data[], __start_c4bss[], __stop_c4bss[];
static char *snap_data, *snap_bss;
__attribute__((no_sanitize("address"))) static void raw_copy(char* d, const char* s, size_t n) {
  for (size_t i = 0; i < n; i++) ((volatile char*) d)[i] = s[i];
}
void process_snapshot(void) {
  size_t n  = __stop_c4data - __start_c4data, m = __stop_c4bss - __start_c4bss;
  snap_data = malloc(n + 1);
  snap_bss  = malloc(m + 1);
  raw_copy(snap_data, __start_c4data, n);
  raw_copy(snap_bss, __start_c4bss, m);
}
void process_restart(void) {
  raw_copy(__start_c4data, snap_data, __stop_c4data - __start_c4data);
  raw_copy(__start_c4bss, snap_bss, __stop_c4bss - __start_c4bss);
}
// ---- storage ----
sstore* STORE;
jmp_buf crash_env;
bool    crash_armed;
sfile*  store_find(sstore* s, const char* key) {
  for (int i = 0; i < s->n; i++)
    if (!strcmp(s->f[i].key, key)) return s->f + i;
  return NULL;
}
static sfile* store_slot(sstore* s, const char* key) {
  sfile* f = store_find(s, key);
  if (f) return f;
  if (s->n == 64) sim_error("too many keys in the storage");
  f = s->f + s->n++;
  memset(f, 0, sizeof(*f));
  snprintf(f->key, sizeof(f->key), "%s", key);
  return f;
}
static uint8_t* dupm(const void* d, uint32_t n) {
  uint8_t* p = malloc(n + 1);
  memcpy(p, d, n);
  return p;
}
static void set_vis(sfile* f, const void* d, uint32_t n) {
  if (f->leftover && d) f->dur = NULL, f->ndur = 0, f->leftover = false;
  f->vis   = d ? dupm(d, n) : NULL;
  f->nvis  = n;
  f->dirty = true;
}
static void sync_all(sstore* s) {
  for (int i = 0; i < s->n; i++)
    if (s->f[i].dirty) {
      s->f[i].dur   = s->f[i].vis;
      s->f[i].ndur  = s->f[i].nvis;
      s->f[i].dirty = false;
    }
}
void store_put(sstore* s, const char* key, const void* d, uint32_t n) {
  set_vis(store_slot(s, key), d, n);
  sync_all(s);
}
void store_copy(sstore* dst, const sstore* src) { memcpy(dst, src, sizeof(*dst)); } // values are never modified in place
void store_crash(sstore* s) {
  for (int i = 0; i < s->n; i++) {
    sfile* f = s->f + i;
    if (!f->dirty) continue;
    int how = s->lossy ? sim_choose(4, "crash-write") : 0;
    if (how == 1 || how == 2) sim_fault_count(how == 1 ? "lost_write" : "torn_write");
    if (how == 0 || how == 3) { // made it to the disk
      f->dur  = f->vis;
      f->ndur = f->nvis;
    }
    else if (how == 2) { // torn: only a prefix
      uint32_t n = f->nvis ? sim_choose(4, "torn-len") : 0;
      n          = !f->vis ? 0 : n == 0 ? 0 : n == 1 ? f->nvis - 1 : n == 2 ? f->nvis / 2 : f->nvis - f->nvis % 48;
      if (f->vis) {
        f->dur  = dupm(f->vis, n);
        f->ndur = n;
      }
      else
        f->dur = NULL, f->ndur = 0;
    }
    f->vis   = f->dur;
    f->nvis  = f->ndur;
    f->dirty = false;
  }
  s->crash_at = -1;
}
static void op(const char* what, const char* key) {
  sstore* s = STORE;
  s->ops++;
  if (s->crash_at >= 0 && s->crash_at-- == 0 && crash_armed) {
    sim_log("crash at storage %s %s", what, key);
    sim_fault_count("crash");
    crash_armed = false;
    longjmp(crash_env, 1);
  }
}
static bool p_get(char* key, buffer_t* out) {
  op("get", key);
  sfile* f = store_find(STORE, key);
  if (!f || !f->vis) return false;
  out->data.len = 0;
  if (f->nvis) buffer_append(out, bytes(f->vis, f->nvis));
  return true;
}
static void p_set(char* key, bytes_t v) {
  op("set", key);
  sfile* f = store_slot(STORE, key);
  if (STORE->full) { // the disk is full: nothing, or only the beginning is written
    int how = sim_choose(3, "full");
    sim_fault_count("disk_full");
    if (how) set_vis(f, v.data ? v.data : (uint8_t*) "", how == 1 ? 0 : v.len / 2);
    sync_all(STORE);
    return;
  }
  set_vis(f, v.data ? v.data : (uint8_t*) "", v.len);
  sim_log_data(key, v.data, v.len);
  op("set-done", key);
  // the data of older writes reaches the disk sooner or later
  if (!STORE->lossy || sim_chance(300, "sync")) sync_all(STORE);
}
static void p_del(char* key) {
  op("del", key);
  sfile* f = store_find(STORE, key);
  if (!f) return;
  set_vis(f, NULL, 0);
  op("del-done", key);
}
void store_install(sstore* s, uint32_t max) {
  storage_plugin_t p = {.get = p_get, .set = p_set, .del = p_del, .max_sync_states = max};
  STORE              = s;
  c4_set_storage_config(&p);
}
// ---- network ----
world* AW;
void   honest_answer(const wrequest* q, wanswer* a) {
  wresp r;
  w_node(AW ? AW : W, q->type, q->url ? q->url : "", q->payload, q->plen, q->ssz, &r);
  a->node    = 0;
  a->outcome = r.status == 200 ? 0 : 1;
  a->body    = r.body;
}
static char type_of(const char* t) { return !strcmp(t, "beacon_api") ? 'b' : !strcmp(t, "eth_rpc") ? 'r' : !strcmp(t, "checkpointz") ? 'c' : !strcmp(t, "internal") ? 'i' : 'p'; }
extern void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index);

// ---- one call of the prover or verifier as a task: it alternates between executing and waiting for responses ----
void task_prover(task* t, const wreq* r, const pcfg* c) {
  static world* last; // provers of different worlds do not share their caches
  world*        now = AW ? AW : W;
#ifdef PROVER_CACHE
  if (last && last != now) {
    c4_prover_cache_cleanup(~0ull >> 1, 1ull << 60);
    c4_eth_tx_cache_reset();
  }
#endif
  last = now;
  memset(t, 0, sizeof(*t));
  t->prover         = true;
  t->flags          = c->flags;
  t->r              = *r;
  t->ans            = c->answer;
  t->max_rounds     = c->max_rounds;
  prover_ctx_t* ctx = c4_create_prover_ctx((char*) r->method, (char*) r->args, W->chain_id, c->flags);
  if (c->client_state.n) ctx->client_state = bytes_dup(bytes(c->client_state.d, c->client_state.n));
  if (c->witness) ctx->witness_key = bytes_dup(bytes((uint8_t*) c->witness, c->nwitness));
  t->ctx = ctx;
}
void task_verify(task* t, const wreq* r, const uint8_t* proof, uint32_t nproof, const char* checkpoint, answer_fn ans, int max_rounds) {
  memset(t, 0, sizeof(*t));
  t->r          = *r;
  t->ans        = ans;
  t->max_rounds = max_rounds;
  // exact heap copies, so that out of bounds reads are noticed
  uint8_t* pc = malloc(nproof ? nproof : 1);
  memcpy(pc, proof, nproof);
  t->ctx = c4_verify_create_ctx(bytes(pc, nproof), (char*) r->method, (char*) r->args, W->chain_id, (char*) checkpoint);
  if (WITNESS) ((verify_ctx_t*) t->ctx)->witness_keys = bytes_dup(bytes((uint8_t*) WITNESS, 20));
  free(pc);
}
static void finish(task* t) {
  if (t->prover)
    c4_free_prover_ctx(t->ctx);
  else
    c4_verify_free_ctx(t->ctx);
  t->ctx  = NULL;
  t->done = true;
  wout* o = &t->out;
  {
    const char* e = o->error ? o->error : "";
    uint64_t    h = sim_hash(1469598103934665603ull, t->r.method, strlen(t->r.method));
    uint8_t     x[6] = {t->prover, o->ok, o->stuck, t->prover ? 0 : o->rounds, o->requests > 9 ? 9 : o->requests, t->r.tag};
    h                = sim_hash(h, x, 6);
    h                = sim_hash(h, e, strlen(e) > 40 ? 40 : strlen(e));
    if (STORE)
      for (int i = 0; i < STORE->n; i++)
        if (STORE->f[i].vis) h = sim_hash(h, STORE->f[i].key, strlen(STORE->f[i].key));
    sim_state(h);
  }
  sim_log("%s %s %.200s -> %s %.300s", t->prover ? "prover" : "verify", t->r.method, t->r.args, o->ok ? "ok" : o->stuck ? "stuck" : "error", o->error ? o->error : o->result ? o->result : "");
}
static bool step_prover(task* t) {
  prover_ctx_t* ctx    = t->ctx;
  bool          worker = ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED;
  wout*         out    = &t->out;
  char*         st     = c4_prover_execute_json_status(ctx);
  if (worker) ctx->flags &= ~C4_PROVER_FLAG_UV_WORKER_REQUIRED; // as the worker of the server does
  wj* j = wj_parse(st, strlen(st));
  if (!j) {
    // a caller who passes broken json gets it back in the requests; everybody else gets valid json
    if (wj_parse(t->r.args, strlen(t->r.args))) sim_violation("prover-status-json", "the prover status for %s is not valid JSON: %.900s", strlen(t->r.args) > 500 ? t->r.args + strlen(t->r.args) - 500 : t->r.args, st);
    out->error = strdup("broken request");
    free(st);
    return true;
  }
  wj* s = wj_get(j, "status");
  if (s && !strcmp(s->s, "success")) {
    out->ok    = true;
    bytes_t pr = c4_prover_get_proof(ctx);
    wb_put(&out->proof, pr.data, pr.len);
    free(st);
    return true;
  }
  if (s && !strcmp(s->s, "error")) {
    wj* e      = wj_get(j, "error");
    out->error = strdup(e && e->s ? e->s : "?");
    free(st);
    return true;
  }
  wj* q = wj_get(j, "requests");
  if (!q) sim_violation("prover-status-json", "pending without requests: %.300s", st);
  t->reqs = q;
  free(st);
  if (!q->n && !(ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED)) {
    out->stuck = true;
    return true;
  }
  return false;
}
wbuf* CAPTURE;
static void capture(verify_ctx_t* v) {
  const ssz_def_t* d = v->data.def;
  extern const ssz_def_t C4_ETH_REQUEST_DATA_UNION[10];
  int                    sel = -1;
  for (int i = 1; i < 10; i++)
    if (d == C4_ETH_REQUEST_DATA_UNION + i) sel = i;
  if (sel < 0 && d->type == SSZ_TYPE_UINT && v->data.bytes.len == 32) sel = 3;
  if (sel < 0 && d->type == SSZ_TYPE_VECTOR && v->data.bytes.len == 32) sel = 1;
  if (sel < 0 && d->type == SSZ_TYPE_LIST && d->def.vector.type->type == SSZ_TYPE_UINT) sel = 2;
  CAPTURE->n = 0;
  if (sel < 0) return;
  wb_u8(CAPTURE, sel);
  wb_put(CAPTURE, v->data.bytes.data, v->data.bytes.len);
}
static bool step_verify(task* t) {
  wout* out = &t->out;
  char* st  = c4_verify_execute_json_status(t->ctx);
  int   n   = strlen(st);
  if (!strncmp(st, "{\"status\": \"success\",\"result\": ", 31)) {
    if (CAPTURE) capture((verify_ctx_t*) t->ctx);
    out->ok      = true;
    out->nresult = n - 32;
    out->result  = malloc(n);
    memcpy(out->result, st + 31, n - 31);
    out->result[n - 32] = 0;
    free(st);
    return true;
  }
  wj* j = wj_parse(st, n);
  wj* s = j ? wj_get(j, "status") : NULL;
  if (s && !strcmp(s->s, "error")) {
    wj* e      = wj_get(j, "error");
    out->error = strdup(e && e->s ? e->s : "?");
    free(st);
    return true;
  }
  wj* q = j ? wj_get(j, "requests") : NULL;
  if (!q) {
    out->error     = strdup("malformed status");
    out->malformed = true;
    sim_log("malformed status %.200s", st);
    free(st);
    return true;
  }
  free(st);
  if (!q->n) {
    out->stuck = true;
    return true;
  }
  t->reqs = q;
  return false;
}
// executes until the task needs something; false when done
bool task_step(task* t) {
  if (t->done) return false;
  t->nopen = 0;
  if (t->out.rounds++ > t->max_rounds) {
    t->out.stuck = true;
    finish(t);
    return false;
  }
  if (t->prover ? step_prover(t) : step_verify(t)) {
    finish(t);
    return false;
  }
  t->nopen = t->reqs->n > 64 ? 64 : t->reqs->n;
  for (int i = 0; i < t->nopen; i++) t->open[i] = i;
  return true;
}
// answers one of the open requests
void task_answer(task* t, int k) {
  wj*      r = t->reqs->v[t->open[k]];
  wrequest q = {0};
  wj *     ty = wj_get(r, "type"), *u = wj_get(r, "url"), *e = wj_get(r, "encoding"), *x = wj_get(r, "exclude_mask"), *ptr = wj_get(r, "req_ptr");
  if (!ty || !ptr) sim_error("incomplete request");
  q.type    = type_of(ty->s);
  q.url     = u ? u->s : "";
  q.ssz     = e && !strcmp(e->s, "ssz");
  q.exclude = x ? strtoul(x->s, NULL, 10) : 0;
  q.ptr     = (void*) strtoull(ptr->s, NULL, 10);
  q.verify  = !t->prover;
  data_request_t* dr = q.ptr;
  if (dr->payload.data) {
    q.payload = dr->payload.data;
    q.plen    = dr->payload.len;
  }
  wanswer a = {0};
  t->ans(&q, &a);
  t->out.requests++;
  sim_log("%s %c %.60s%.*s -> node %d %s %u", t->prover ? "prover" : "verify", q.type, q.type == 'r' ? "" : q.url, q.type == 'r' ? (q.plen > 120 ? 120 : (int) q.plen) : 0, q.payload ? (char*) q.payload : "", a.node, a.outcome ? "error" : "ok", a.body.n);
  if (a.outcome) {
    wb_u8(&a.body, 0);
    c4_req_set_error(q.ptr, a.body.n > 1 ? (char*) a.body.d : "request failed", a.node);
  }
  else {
    uint8_t* ex = malloc(a.body.n ? a.body.n : 1); // exact copy
    memcpy(ex, a.body.d ? a.body.d : (uint8_t*) "", a.body.n);
    c4_req_set_response(q.ptr, bytes(ex, a.body.n), a.node);
    free(ex);
  }
  free(a.body.d);
  t->open[k] = t->open[--t->nopen];
  sim_advance(1 + sim_choose(3, "delay"));
}
void task_run(task* t) {
  while (task_step(t))
    while (t->nopen) task_answer(t, t->nopen > 1 ? sim_choose(t->nopen, "order") : 0);
}
void (*TICK)(void);
// runs several at once, the scheduler decides who goes on
void tasks_run(task** ts, int n) {
  bool started[8] = {0};
  for (;;) {
    int c[8], k = 0;
    for (int i = 0; i < n; i++)
      if (ts[i] && !ts[i]->done) c[k++] = i;
    if (!k) return;
    if (TICK) TICK();
    int   i = c[k > 1 ? sim_choose(k, "task") : 0];
    task* t = ts[i];
    if (!started[i] || !t->nopen) {
      started[i] = true;
      task_step(t);
    }
    else
      task_answer(t, t->nopen > 1 ? sim_choose(t->nopen, "order") : 0);
  }
}
void run_prover(const wreq* r, const pcfg* c, wout* out) {
  task t;
  task_prover(&t, r, c);
  task_run(&t);
  *out = t.out;
}
void run_verify(const wreq* r, const uint8_t* proof, uint32_t nproof, const char* checkpoint, answer_fn ans, int max_rounds, wout* out) {
  task t;
  task_verify(&t, r, proof, nproof, checkpoint, ans, max_rounds);
  task_run(&t);
  *out = t.out;
}
void out_free(wout* o) {
  free(o->result);
  free(o->error);
  free(o->proof.d);
  memset(o, 0, sizeof(*o));
}
void set_checkpoint(char out[67], const uint8_t root[32]) {
  strcpy(out, "0x");
  for (int i = 0; i < 32; i++) sprintf(out + 2 + 2 * i, "%02x", root[i]);
}
void client_state_of(wbuf* out) {
  char key[40];
  sprintf(key, "states_%llu", (unsigned long long) W->chain_id);
  sfile* f = store_find(STORE, key);
  out->n   = 0;
  if (f && f->vis) wb_put(out, f->vis, f->nvis);
}

// a few digits of the values in the json are not the true ones
void lie(wbuf* b) {
  for (int k = 1 + (sim_choose(4, "lies")); k; k--) {
    uint32_t p = b->n > 1 ? sim_choose(b->n, "at") : 0;
    while (p < b->n && (p < 3 || b->d[p - 1] != 'x' || b->d[p - 2] != '0')) p++;
    if (p + 8 >= b->n) continue;
    int l = 0;
    while (p + l < b->n && b->d[p + l] != '"') l++;
    if (l > 1) p += sim_choose(l, "digit");
    b->d[p] = "0123456789abcdef"[sim_choose(16, "value")];
  }
  sim_fault_count("lying_node");
}
