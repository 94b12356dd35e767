#include "caches.h"
#include "../core/sim.h"
#include "prover.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXV    600
#define MAXCTX  6
#define MAXKEYS 5
#define MB      (1024u * 1024u)

typedef struct {
  int      id;
  int      key;
  uint32_t size;
  uint64_t ttl;
  int      freed;
  bool     global;      // published
  bool     invalidated; // after publication
  uint64_t expires;     // absolute, once published
} val_t;

static val_t* vals[MAXV];
static int    n_vals;

typedef struct {
  prover_ctx_t* ctx;
  bool          worker;
  int           held[64]; // value ids the context has set or received, newest first
  bool          own[64];
  int           n;
} pctx_t;
static pctx_t ctxs[MAXCTX];
static int    closing = -1; // context which is being freed

static void mkkey(int k, bytes32_t key) {
  memset(key, 0, 32);
  // keys differ in one 64-bit word each
  key[(k * 8) % 32] = (uint8_t) (k + 1);
  key[31]           = 7;
}

static bool in_use(int id, bool* own) {
  for (int c = 0; c < MAXCTX; c++) {
    if (!ctxs[c].ctx) continue;
    for (int i = 0; i < ctxs[c].n; i++)
      if (ctxs[c].held[i] == id) {
        if (c == closing) continue;
        *own = ctxs[c].own[i];
        return true;
      }
  }
  return false;
}

static void on_free(void* p) {
  val_t* v   = p;
  bool   own = false;
  sim_log("free value %d key %d", v->id, v->key);
  SIM_REQUIRE(!v->freed, "cache-double-free", "value %d of key %d was freed twice", v->id, v->key);
  SIM_REQUIRE(!in_use(v->id, &own), "cache-freed-in-use", "value %d of key %d was freed although a running context still holds it", v->id, v->key);
  if (v->global && !v->invalidated && v->expires >= sim_now_ms) {
    // a valid shared value may only be given up for lack of space
    uint64_t entries, size, max, cap, total = 0;
    c4_prover_cache_stats(&entries, &size, &max, &cap);
    for (int i = 0; i < n_vals; i++)
      if (vals[i]->global && !vals[i]->freed) total += vals[i]->size;
    if (closing >= 0)
      for (int i = 0; i < ctxs[closing].n; i++)
        if (ctxs[closing].own[i] && vals[ctxs[closing].held[i]]->ttl) total += vals[ctxs[closing].held[i]]->size;
    SIM_REQUIRE(total > max, "cache-evicted-early", "value %d of key %d was given up although it is valid and there is room (%llu of %llu)", v->id, v->key, (unsigned long long) total, (unsigned long long) max);
  }
  v->freed = 1;
}

static uint64_t in_use_bytes(void) {
  uint64_t n = 0;
  bool     own;
  for (int i = 0; i < n_vals; i++)
    if (vals[i]->global && !vals[i]->freed && in_use(i, &own)) n += vals[i]->size;
  return n;
}

static int ctx_find(pctx_t* c, int key) {
  for (int i = c->n - 1; i >= 0; i--)
    if (vals[c->held[i]]->key == key) return c->held[i];
  return -1;
}

// limit: bytes by which in-use values may exceed the limit, UINT64_MAX: the limit is not enforced at this point
static void check_stats(uint64_t exempt) {
  uint64_t entries, size, max, cap, total = 0, live = 0;
  c4_prover_cache_stats(&entries, &size, &max, &cap);
  for (int i = 0; i < n_vals; i++) {
    val_t* v = vals[i];
    if (!v->global || v->freed) continue;
    live++;
    total += v->size;
  }
  SIM_REQUIRE(entries == live, "cache-entry-count", "the cache reports %d entries, %d are alive", (int) entries, (int) live);
  SIM_REQUIRE(size == total, "cache-size-accounting", "the cache reports %llu bytes, the live entries have %llu", (unsigned long long) size, (unsigned long long) total);
  if (exempt != UINT64_MAX)
    SIM_REQUIRE(size <= max + exempt, "cache-size-limit", "%llu bytes cached, limit %llu, in use %llu", (unsigned long long) size, (unsigned long long) max, (unsigned long long) exempt);
  SIM_REQUIRE(entries <= cap, "cache-capacity", "%d entries with capacity %d", (int) entries, (int) cap);
  uint64_t h = sim_hash(0, &entries, 8);
  uint64_t b = size / (20 * MB);
  h          = sim_hash(h, &b, 8);
  for (int c = 0; c < MAXCTX; c++) {
    uint8_t s = ctxs[c].ctx ? 1 + (ctxs[c].n > 3 ? 3 : ctxs[c].n) : 0;
    h         = sim_hash(h, &s, 1);
  }
  sim_state(h);
}

// the value the cache has to offer to a context without one of its own; -1 if none. *must: it has to be a hit
static void visible(int key, int* out, int* n, bool* must) {
  *n    = 0;
  *must = false;
  for (int i = 0; i < n_vals; i++) {
    val_t* v = vals[i];
    if (v->key != key || !v->global || v->freed || v->invalidated) continue;
    out[(*n)++] = i;
    if (v->expires >= sim_now_ms) *must = true;
  }
}

static void do_get(pctx_t* c, int ci, int key, bool local_only) {
  bytes32_t k;
  mkkey(key, k);
  val_t* v   = (val_t*) (local_only ? c4_prover_cache_get_local(c->ctx, k) : c4_prover_cache_get(c->ctx, k));
  int    exp = ctx_find(c, key);
  sim_log("ctx %d get%s key %d -> %d", ci, local_only ? "_local" : (c->worker ? " (worker)" : ""), key, v ? v->id : -1);
  if (v) {
    SIM_REQUIRE(!v->freed, "cache-returned-freed", "value %d was already freed", v->id);
    SIM_REQUIRE(v->key == key, "cache-wrong-key", "asked for key %d, got the value of key %d", key, v->key);
  }
  if (exp >= 0) {
    SIM_REQUIRE(v && v->id == exp, "cache-unstable-read", "context %d holds value %d for key %d but reads %d", ci, exp, key, v ? v->id : -1);
    return;
  }
  if (local_only || c->worker) {
    SIM_REQUIRE(!v, "cache-worker-global-access", "the shared cache was read where only the own entries of the context may be used");
    return;
  }
  int  vis[MAXV], n;
  bool must;
  visible(key, vis, &n, &must);
  if (!v) {
    SIM_REQUIRE(!must, "cache-lost-entry", "key %d was published, is not expired and was not invalidated, but is not found", key);
    return;
  }
  bool found = false;
  for (int i = 0; i < n; i++) found |= vis[i] == v->id;
  SIM_REQUIRE(found, v->invalidated ? "cache-invalidated-read" : "cache-unexpected-read", "key %d: value %d must not be visible", key, v->id);
  sim_stat("shared_hits", 1);
  c->own[c->n]    = false;
  c->held[c->n++] = v->id;
}

static bool big;
static void do_free(int ci) {
  pctx_t* c = ctxs + ci;
  sim_log("ctx %d freed", ci);
  uint64_t exempt = in_use_bytes();
  closing = ci;
  // what is published: the newest own value per key with a ttl if there is no valid shared entry
  bool done[MAXKEYS] = {0};
  int  cand[64], nc = 0;
  for (int i = c->n - 1; i >= 0; i--) {
    val_t* v = vals[c->held[i]];
    if (!c->own[i] || !v->ttl) continue;
    cand[nc++] = v->id;
  }
  uint64_t before_entries, size, max, cap;
  c4_prover_cache_stats(&before_entries, &size, &max, &cap);
  c4_prover_free(c->ctx);
  // every own value is now either freed or shared
  for (int i = 0; i < c->n; i++) {
    val_t* v = vals[c->held[i]];
    if (!c->own[i]) continue;
    if (!v->freed) {
      SIM_REQUIRE(v->ttl, "cache-leaked-local", "the private value %d of key %d was not freed with its context", v->id, v->key);
      v->global  = true;
      v->expires = sim_now_ms + v->ttl;
      sim_log("published value %d key %d", v->id, v->key);
    }
  }
  // a value meant to be shared is kept if the key was not shared before
  for (int i = 0; i < nc; i++) {
    val_t* v = vals[cand[i]];
    if (done[v->key]) continue;
    bool exists = false;
    for (int k = 0; k < n_vals; k++)
      if (k != cand[i] && vals[k]->key == v->key && vals[k]->global && !vals[k]->freed && !vals[k]->invalidated) exists = true;
    if (!exists && v->freed && !big)
      sim_violation("cache-not-published", "value %d of key %d was dropped although the key is not shared", v->id, v->key);
    done[v->key] = true;
  }
  memset(c, 0, sizeof(*c));
  closing = -1;
  bool published = false;
  for (int i = 0; i < nc; i++) published |= vals[cand[i]]->global;
  check_stats(published ? exempt : UINT64_MAX);
}

void run_prover_cache(void) {
  int      steps = 40 + sim_choose(120, "steps");
  big            = sim_chance(300, "big values");
  uint64_t st    = sim_stream("content");
  for (int s = 0; s < steps; s++) {
    int     ci = sim_choose(MAXCTX, "ctx");
    pctx_t* c  = ctxs + ci;
    if (!c->ctx) {
      sim_log("ctx %d created", ci);
      c->ctx = c4_prover_create("eth_blockNumber", "[]", 1, 0);
    }
    int op = sim_choose(12, "op"), key = sim_choose(MAXKEYS, "key");
    if (op <= 3)
      do_get(c, ci, key, false);
    else if (op == 4)
      do_get(c, ci, key, true);
    else if (op <= 6) {
      if (ctx_find(c, key) >= 0 || n_vals >= MAXV || c->n >= 60) continue; // callers set after a miss
      val_t* v    = calloc(1, sizeof(val_t));
      v->id       = n_vals;
      v->key      = key;
      v->size     = big ? (1 + sim_choose(60, "size")) * MB : 100 + sim_choose(1000, "size");
      v->ttl      = sim_choose(4, "ttl") == 0 ? 0 : 1 + sim_choose(20000, "ttl ms");
      vals[n_vals++] = v;
      c->own[c->n]    = true;
      c->held[c->n++] = v->id;
      sim_log("ctx %d set key %d value %d size %u ttl %llu", ci, key, v->id, v->size, (unsigned long long) v->ttl);
      bytes32_t k;
      mkkey(key, k);
      c4_prover_cache_set(c->ctx, k, v, v->size, v->ttl, on_free);
    }
    else if (op <= 8)
      do_free(ci);
    else if (op == 9) {
      uint64_t ms = 1 + sim_choose(15000, "advance");
      sim_advance(ms);
      sim_log("time +%llu", (unsigned long long) ms);
    }
    else if (op == 10) {
      bytes32_t k;
      mkkey(key, k);
      sim_log("invalidate key %d", key);
      sim_fault_count("invalidate");
      c4_prover_cache_invalidate(k);
      for (int i = 0; i < n_vals; i++)
        if (vals[i]->key == key && vals[i]->global && !vals[i]->freed) vals[i]->invalidated = true;
    }
    else {
      if (sim_chance(500, "worker switch")) {
        c->worker = !c->worker;
        if (c->worker) c->ctx->flags |= C4_PROVER_FLAG_UV_WORKER_REQUIRED;
        else c->ctx->flags &= ~C4_PROVER_FLAG_UV_WORKER_REQUIRED;
        sim_fault_count("move-to-worker-thread");
        sim_log("ctx %d worker=%d", ci, c->worker);
      }
      else {
        sim_log("cleanup");
        sim_fault_count("cleanup-timer");
        c4_prover_cache_cleanup(sim_now_ms, 0);
        for (int i = 0; i < n_vals; i++) {
          val_t* v = vals[i];
          bool   own;
          if (v->global && !v->freed && (v->invalidated || v->expires < sim_now_ms))
            SIM_REQUIRE(in_use(i, &own), "cache-expired-kept", "value %d of key %d is expired and unused but survived the cleanup", i, v->key);
        }
        check_stats(in_use_bytes());
      }
    }
    check_stats(UINT64_MAX);
  }
  // everything stops: all contexts end, and the timer fires long after
  for (int i = 0; i < MAXCTX; i++)
    if (ctxs[i].ctx) {
      do_free(i);
    }
  sim_advance(1000000);
  c4_prover_cache_cleanup(sim_now_ms, 0);
  for (int i = 0; i < n_vals; i++) SIM_REQUIRE(vals[i]->freed == 1, "cache-leak", "value %d of key %d is never freed", i, vals[i]->key);
  check_stats(0);
}
