#define _GNU_SOURCE
// P21, P22: the period store of the server. Real server code on a simulated libuv, libcurl and file system which survives crashes;
// a synthetic beacon chain of more than two periods, scripted beacon nodes, a scripted master (P22) and scripted http clients.
#include "../net/net.h"
#include "eth_conf.h"
#include "scurl.h"
#include "server.h"
#include "sfs.h"
#include "suv.h"
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

const char*     sim_name = "pst";
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
typedef unsigned long long ull;
void c4_period_sync_on_head(uint64_t slot, const uint8_t block_root[32], const uint8_t header112[112]);
void c4_period_sync_on_checkpoint(uint8_t* checkpoint, uint64_t slot);
bool c4_ps_backfill_done(void);

// ---- the beacon chain ----
#define PB 760ull              // first whole period of the model
#define OFFP 758ull            // first period with a historical summary (mainnet)
#define S0 (PB * 8192 - 40)    // first slot
#define NS (40 + 2 * 8192 + 900)
#define STORE_DIR "/sim/store"
typedef struct {
  uint8_t root[32], hdr[112];
  bool    block;
} pslot;
typedef struct {
  pslot   s[NS];
  uint8_t sum[2][32]; // summaries of the periods PB, PB+1
} pchain;
#define NCH 3
static pchain* CH[NCH];
static pchain* H;
static void    le64(uint8_t* p, uint64_t v) {
  for (int i = 0; i < 8; i++) p[i] = v >> (8 * i);
}
static void header_root(const uint8_t* h, uint8_t* out) {
  uint8_t l[8][32] = {0}, a[32], b[32], c[32], d[32], z[32] = {0};
  memcpy(l[0], h, 8);
  memcpy(l[1], h + 8, 8);
  memcpy(l[2], h + 16, 32);
  memcpy(l[3], h + 48, 32);
  memcpy(l[4], h + 80, 32);
  w_sha2(l[0], l[1], a);
  w_sha2(l[2], l[3], b);
  w_sha2(l[4], z, c);
  w_sha2(z, z, d);
  w_sha2(a, b, a);
  w_sha2(c, d, c);
  w_sha2(a, c, out);
}
static void make_header(uint8_t* h, uint64_t slot, const uint8_t* parent, uint64_t salt) {
  uint8_t t[24];
  le64(t, slot);
  le64(t + 8, salt);
  le64(h, slot);
  le64(h + 8, (slot * 7919 + salt) % 900000);
  memcpy(h + 16, parent, 32);
  le64(t + 16, 1);
  w_sha256(t, 24, h + 48);
  le64(t + 16, 2);
  w_sha256(t, 24, h + 80);
}
static void make_chain(int k) {
  pchain*  c = CH[k] = calloc(1, sizeof(pchain));
  uint64_t r = 77 + k;
  uint8_t  parent[32];
  w_sha256("parent", 6, parent);
  for (int i = 0, run = 0; i < NS; i++) {
    r         = r * 6364136223846793005ull + 1442695040888963407ull;
    bool skip = i && (int) ((r >> 40) % 1000) < (k == 0 ? 8 : 70);
    if (k && !run && (r >> 30) % 700 == 3) run = 2 + (r >> 20) % 12;
    if (run) run--, skip = i > 0;
    int o = (int) ((S0 + i) % 8192);
    if (k == 2 && (o < 3 || o > 8188) && i > 50) skip = true; // no blocks at the boundary of the periods
    if (k == 1 && o == 8191 && i > 50) skip = true;
    if (!skip) {
      c->s[i].block = true;
      make_header(c->s[i].hdr, S0 + i, parent, k);
      header_root(c->s[i].hdr, parent);
    }
    memcpy(c->s[i].root, parent, 32);
  }
  static uint8_t l[8192][32];
  for (int p = 0; p < 2; p++) {
    for (int i = 0; i < 8192; i++) memcpy(l[i], c->s[40 + p * 8192 + i].root, 32);
    for (int n = 4096; n; n /= 2)
      for (int i = 0; i < n; i++) w_sha2(l[2 * i], l[2 * i + 1], l[i]);
    memcpy(c->sum[p], l[0], 32);
  }
}
typedef struct {
  uint64_t slot;
  uint8_t  root[32], hdr[112];
} orphan;
static orphan   ORP[64];
static int      norp;
static int      head; // index of the newest canonical block the nodes have
static uint64_t slot_of(int i) { return S0 + i; }
static int      next_block(int i) {
  for (i++; i < NS; i++)
    if (H->s[i].block) return i;
  return -1;
}
static int prev_block(int i) {
  for (i--; i >= 0; i--)
    if (H->s[i].block) return i;
  return -1;
}
static uint64_t head_period(void) { return slot_of(head) / 8192; }
// ---- what the nodes have for a period ----
#define NV 6
static int  lcu_len(uint64_t p, int v) { return 212 + (int) ((p * 37 + v * 11) % 600); }
static void lcu_blob(uint64_t p, int v, uint8_t* o) {
  int     n = lcu_len(p, v);
  uint8_t t[24], h[32];
  le64(o, n - 8);
  memcpy(o + 8, "\x6a\x95\xa1\xa9", 4);
  for (int i = 12; i < n; i += 32) {
    le64(t, p);
    le64(t + 8, v);
    le64(t + 16, i);
    w_sha256(t, 24, h);
    memcpy(o + i, h, n - i < 32 ? n - i : 32);
  }
}
static int lcu_match(const uint8_t* d, size_t n, uint64_t p, size_t* len) { // the update of the period at the start of d
  static uint8_t b[1000];
  for (int v = 0; v < NV; v++) {
    size_t k = lcu_len(p, v);
    if (k > n) continue;
    lcu_blob(p, v, b);
    if (!memcmp(b, d, k)) {
      *len = k;
      return v;
    }
  }
  return -1;
}
static int  lcu_now(uint64_t p) { return p < head_period() ? 0 : 1 + (head / 4) % (NV - 1); }
static void lcb_blob(const uint8_t* root, uint8_t* o) { // 320 bytes
  for (int i = 0; i < 10; i++) {
    uint8_t t[33];
    memcpy(t, root, 32);
    t[32] = i;
    w_sha256(t, 33, o + 32 * i);
  }
}
static void hist(wbuf* b, uint64_t hp) {
  wb_f(b, "{\"data\":{\"slot\":\"%llu\",\"historical_summaries\":[", (ull) hp * 8192);
  for (uint64_t p = OFFP; p < hp; p++) {
    uint8_t r[32] = {(uint8_t) p, 1}, s[32] = {(uint8_t) p, 2};
    wb_f(b, "%s{\"block_summary_root\":", p > OFFP ? "," : "");
    wb_hex(b, p >= PB ? H->sum[p - PB] : r, 32);
    wb_f(b, ",\"state_summary_root\":");
    wb_hex(b, s, 32);
    wb_f(b, "}");
  }
  wb_f(b, "],\"proof\":[]}}");
}
// ---- upstream nodes ----
enum { N_GOOD, N_SLOW, N_REFUSED, N_SILENT, N_5XX, N_429, N_LOST, N_EMPTY };
static const char* NF[] = {"", "node_slow", "node_refused", "node_silent", "node_5xx", "node_429", "node_lost", "node_empty_answer"};
typedef struct {
  char     host[16];
  int      mode;
  uint64_t from, to;
  uint32_t rate;
} unode;
static unode ND[4];
static int   nn, oldest; // oldest: the nodes have no headers below this index
static bool  faulty;
static int   fetched;
static void  master_answer(const char* path, sresp* o);
static bool  unhex(const char* s, uint8_t* o) {
  for (int i = 0; i < 32; i++) {
    unsigned v;
    if (sscanf(s + 2 * i, "%2x", &v) != 1) return false;
    o[i] = v;
  }
  return true;
}
static void answer_header(const uint8_t* root, const uint8_t* h, sresp* o) {
  wb_f(&o->body, "{\"execution_optimistic\":false,\"finalized\":false,\"data\":{\"root\":");
  wb_hex(&o->body, root, 32);
  uint64_t s = 0, pi = 0;
  for (int i = 7; i >= 0; i--) s = s << 8 | h[i], pi = pi << 8 | h[8 + i];
  wb_f(&o->body, ",\"canonical\":true,\"header\":{\"message\":{\"slot\":\"%llu\",\"proposer_index\":\"%llu\",\"parent_root\":", (ull) s, (ull) pi);
  wb_hex(&o->body, h + 16, 32);
  wb_f(&o->body, ",\"state_root\":");
  wb_hex(&o->body, h + 48, 32);
  wb_f(&o->body, ",\"body_root\":");
  wb_hex(&o->body, h + 80, 32);
  wb_f(&o->body, "},\"signature\":\"0x00\"}}}");
}
static void not_found(sresp* o) {
  o->code = 404;
  wb_f(&o->body, "{\"code\":404,\"message\":\"Not found\"}");
}
static void answer(const char* method, const char* url, const uint8_t* post, size_t n, const char* accept, sresp* o) {
  const char* h = strstr(url, "://");
  h             = h ? h + 3 : url;
  o->connect_ms = C(3, "connect") * 3;
  o->delay_ms   = 1 + C(4, "latency") * 20;
  o->code       = 200;
  if (!strncmp(h, "rpc0/", 5)) {
    wb_f(&o->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"Geth/v1.13\"}");
    return;
  }
  if (!strncmp(h, "master/", 7)) return master_answer(h + 7, o);
  unode* d = NULL;
  for (int i = 0; i < nn; i++)
    if (!strncmp(h, ND[i].host, strlen(ND[i].host)) && h[strlen(ND[i].host)] == '/') d = ND + i;
  if (!d) {
    o->outcome = 1;
    return;
  }
  const char* path = h + strlen(d->host) + 1;
  int         mode = d->mode && sim_faults_on() && sim_now_ms >= d->from && sim_now_ms < d->to && sim_chance(d->rate, "node-fault") ? d->mode : N_GOOD;
  if (mode) sim_fault_count(NF[mode]);
  switch (mode) {
    case N_SLOW: o->delay_ms += 500 + C(60, "slow") * 1000; break;
    case N_REFUSED: o->outcome = 1; return;
    case N_SILENT: o->outcome = 2; return;
    case N_5XX: o->code = 502; return;
    case N_429: o->code = 429; return;
    case N_LOST: o->outcome = 3; break;
    case N_EMPTY: return;
  }
  ull a, c;
  if (!strcmp(path, "eth/v1/node/version"))
    wb_f(&o->body, "{\"data\":{\"version\":\"%s/v1.2.3\"}}", (const char*[]) {"Nimbus", "Lodestar", "teku"}[(d - ND) % 3]);
  else if (sscanf(path, "eth/v1/beacon/light_client/updates?start_period=%llu&count=%llu", &a, &c) == 2) {
    for (uint64_t p = a; p < a + c && p - a < 128 && p <= head_period() && p >= OFFP - 3; p++) {
      uint8_t b[1000];
      lcu_blob(p, lcu_now(p), b);
      wb_put(&o->body, b, lcu_len(p, lcu_now(p)));
    }
  }
  else if (!strncmp(path, "eth/v1/beacon/light_client/bootstrap/0x", 39)) {
    uint8_t r[32], b[320];
    if (!unhex(path + 39, r)) return not_found(o);
    lcb_blob(r, b);
    wb_put(&o->body, b, 320);
  }
  else if (!strcmp(path, "eth/v1/lodestar/states/head/historical_summaries"))
    hist(&o->body, head_period());
  else if (!strncmp(path, "eth/v1/beacon/headers/", 22)) {
    int     k = -1;
    uint8_t r[32];
    fetched++;
    if (!strcmp(path + 22, "head")) k = head;
    else if (!strncmp(path + 22, "0x", 2) && unhex(path + 24, r)) {
      for (int i = head; i >= oldest && k < 0; i--)
        if (H->s[i].block && !memcmp(H->s[i].root, r, 32)) k = i;
      for (int i = 0; i < norp && k < 0; i++)
        if (!memcmp(ORP[i].root, r, 32)) return answer_header(ORP[i].root, ORP[i].hdr, o);
    }
    if (k < 0) return not_found(o);
    answer_header(H->s[k].root, H->s[k].hdr, o);
  }
  else
    not_found(o);
  sim_log("%s <- %s: %ld, %u bytes%s%s", d->host, path, o->code, o->body.n, mode ? " " : "", NF[mode]);
}
// ---- what may be in the store ----
typedef struct {
  uint64_t slot;
  uint8_t  root[32];
} cpoint;
static cpoint CP[64];
static int    ncp;
static bool   zero(const uint8_t* p, int n) {
  for (int i = 0; i < n; i++)
    if (p[i]) return false;
  return true;
}
static orphan* orphan_at(uint64_t s) {
  for (int i = 0; i < norp; i++)
    if (ORP[i].slot == s) return ORP + i;
  return NULL;
}
static bool root_ok(uint64_t s, const uint8_t* r) {
  if (zero(r, 32)) return true;
  if (s < S0 || s - S0 >= NS) return false;
  if (!memcmp(H->s[s - S0].root, r, 32)) return true;
  for (int i = 0; i < norp; i++)
    if (ORP[i].slot == s && !memcmp(ORP[i].root, r, 32)) return true;
  return false;
}
static bool hdr_ok(uint64_t s, const uint8_t* h) {
  if (zero(h, 112)) return true;
  if (s < S0 || s - S0 >= NS) return false;
  if (!memcmp(H->s[s - S0].hdr, h, 112)) return true;
  for (int i = 0; i < norp; i++)
    if (ORP[i].slot == s && !memcmp(ORP[i].hdr, h, 112)) return true;
  return false;
}
// NULL if d may be the content of the file from the offset on
static const char* content(uint64_t p, const char* name, const uint8_t* d, size_t n, uint64_t off) {
  static char why[200];
  uint8_t     b[1000];
  if (!strcmp(name, "blocks.ssz") || !strcmp(name, "headers.ssz")) {
    uint32_t sz = *name == 'b' ? 32 : 112;
    if (n && off + n > 8192ull * sz) return "is longer than a period";
    for (uint64_t i = (off + sz - 1) / sz; (i + 1) * sz <= off + n; i++) {
      const uint8_t* e = d + (i * sz - off);
      if (sz == 32 ? root_ok(p * 8192 + i, e) : hdr_ok(p * 8192 + i, e)) continue;
      snprintf(why, sizeof(why), "has at slot %llu a %s which no block has", (ull) (p * 8192 + i), sz == 32 ? "root" : "header");
      return why;
    }
    return NULL;
  }
  if (!strcmp(name, "lcu.ssz")) {
    for (int v = 0; v < NV; v++) {
      lcu_blob(p, v, b);
      size_t k = lcu_len(p, v);
      if (n == (k > off ? k - off : 0) && (!n || !memcmp(b + off, d, n))) return NULL;
    }
    return "is not the light client update of the period";
  }
  if (!strcmp(name, "lcb.ssz")) {
    for (int i = 0; i < ncp; i++) {
      if (CP[i].slot / 8192 != p) continue;
      lcb_blob(CP[i].root, b);
      if (n == (320 > off ? 320 - off : 0) && (!n || !memcmp(b + off, d, n))) return NULL;
    }
    return "is not the bootstrap of a checkpoint of the period";
  }
  if (!strcmp(name, "historical_root.json")) {
    for (uint64_t hp = p; hp <= head_period(); hp++) {
      wbuf j = {0};
      hist(&j, hp);
      if (n == (j.n > off ? j.n - off : 0) && (!n || !memcmp(j.d + off, d, n))) return NULL;
    }
    return "is not the answer of a node";
  }
  if (!strcmp(name, "blocks_root.bin")) {
    if (p < PB || p > PB + 1 || p >= head_period()) return "exists for a period which cannot be verified";
    if (n == (32 > off ? 32 - off : 0) && (!n || !memcmp(H->sum[p - PB] + off, d, n))) return NULL;
    return "is not the root of the period";
  }
  return "is unexpected";
}
static char* fpath(uint64_t p, const char* name) {
  static char b[4][200];
  static int  k;
  k = (k + 1) % 4;
  sprintf(b[k], STORE_DIR "/%llu/%s", (ull) p, name);
  return b[k];
}
static bool       write_errors; // a write failed or was cut within this run
static const char* FN[] = {"blocks.ssz", "headers.ssz", "lcu.ssz", "lcb.ssz", "historical_root.json", "blocks_root.bin"};
static void       check_store(const char* when) {
  for (uint64_t p = OFFP - 4; p <= PB + 3; p++) {
    size_t         nb = 0, n;
    const uint8_t* bl = sfs_get(fpath(p, "blocks.ssz"), &nb);
    for (int i = 0; i < 6; i++) {
      const uint8_t* d = sfs_get(fpath(p, FN[i]), &n);
      if (!d) continue;
      if (i == 5 && write_errors && n < 32) continue;
      if ((i == 2 || i == 3 || i == 4) && n == 0 && !sim_faults_on()) sim_log("%s is empty", fpath(p, FN[i]));
      const char* e = content(p, FN[i], d, n, 0);
      SIM_REQUIRE(!e, "content", "%s: %s (%zu bytes) %s", when, fpath(p, FN[i]), n, e);
      if (i == 5) { // verified: all roots are there
        SIM_REQUIRE(bl && nb == 8192 * 32, "marker", "%s: period %llu is marked as verified, but has %zu bytes of roots", when, (ull) p, nb);
        for (int k = 0; k < 8192; k++)
          if (memcmp(bl + 32 * k, H->s[p * 8192 + k - S0].root, 32)) sim_violation("marker", "%s: period %llu is marked as verified, but has a wrong root at slot %llu", when, (ull) p, (ull) (p * 8192 + k));
      }
    }
  }
}
// ---- http clients ----
enum { Q_LCU, Q_FILE, Q_MANIFEST, Q_ESCAPE, Q_BAD };
typedef struct {
  speer    p;
  int      kind, id, status;
  char     path[300], name[40];
  uint64_t start, count, off, sent;
  bool     dialed, done, closed, before; // before: the file existed when the request was sent
  wbuf     in;
} hcl;
static hcl   CL[16];
static int   ncl;
static bool  final_life, must_lcu;
static uint64_t hp_start; // the last period when this life began: every answer of a node has what was there
static void  check_manifest(hcl* c, const uint8_t* d, uint32_t n);
static void  check_response(hcl* c, int st, const uint8_t* d, uint32_t n) {
  switch (c->kind) {
    case Q_LCU: {
      if (st != 200) {
        SIM_REQUIRE(st >= 400, "status", "%s is answered with %d", c->path, st);
        SIM_REQUIRE(!must_lcu || c->start < OFFP - 3 || c->start + c->count - 1 > hp_start || c->count > 128, "lost-answer", "%s is answered with %d although a node could have given the updates: %.*s", c->path, st, (int) (n > 200 ? 200 : n), (char*) d);
        break;
      }
      uint32_t at = 0;
      uint64_t p  = c->start;
      for (; p < c->start + c->count && at < n; p++) {
        size_t k;
        int    v = lcu_match(d + at, n - at, p, &k);
        SIM_REQUIRE(v >= 0, "updates", "%s: the answer has not the update of the period %llu at position %llu (byte %u of %u)", c->path, (ull) p, (ull) (p - c->start), at, n);
        at += k;
      }
      SIM_REQUIRE(at == n, "updates", "%s: the answer has more than the updates asked for (%u of %u bytes)", c->path, at, n);
      SIM_REQUIRE(p == c->start + c->count || p > hp_start || c->count > 128, "updates", "%s: the answer has only the updates before the period %llu", c->path, (ull) p);
      sim_stat("updates", p - c->start);
      break;
    }
    case Q_FILE: {
      if (st != 200) {
        SIM_REQUIRE(st >= 400, "status", "%s is answered with %d", c->path, st);
        SIM_REQUIRE(!(final_life && c->before), "lost-answer", "%s exists, but is answered with %d: %.*s", c->path, st, (int) (n > 200 ? 200 : n), (char*) d);
        break;
      }
      if (!sim_is("P21")) break;
      if (!strcmp(c->name, "blocks_root.bin") && write_errors) break;
      const char* e = content(c->start, c->name, d, n, c->off);
      SIM_REQUIRE(!e, "served", "%s is answered with %u bytes: this %s", c->path, n, e);
      sim_stat("files", 1);
      break;
    }
    case Q_MANIFEST:
      if (st == 200) check_manifest(c, d, n);
      else
        SIM_REQUIRE(!(final_life && c->count), "manifest", "%s is answered with %d: %.*s", c->path, st, (int) (n > 200 ? 200 : n), (char*) d);
      break;
    case Q_ESCAPE:
      SIM_REQUIRE(!(n && memmem(d, n, "SECRET", 6)), "escape", "%s gives a file outside of the period store", c->path);
      break;
    default: SIM_REQUIRE(st >= 400, "bad-request", "%s is answered with %d", c->path, st);
  }
}
static void check_manifest(hcl* c, const uint8_t* d, uint32_t n) {
  uint32_t cnt = n >= 4 ? (d[0] | d[1] << 8 | d[2] << 16 | d[3] << 24) / 4 : 0, last = 0;
  for (uint32_t i = 0; i < cnt; i++) {
    uint32_t a = d[4 * i] | d[4 * i + 1] << 8 | d[4 * i + 2] << 16 | d[4 * i + 3] << 24;
    uint32_t e = i + 1 < cnt ? d[4 * i + 4] | d[4 * i + 5] << 8 | d[4 * i + 6] << 16 | d[4 * i + 7] << 24 : n;
    SIM_REQUIRE(a <= e && e <= n && e - a > 16, "manifest", "%s: entry %u is malformed", c->path, i);
    const uint8_t* x = d + a;
    uint64_t       p = 0;
    for (int k = 7; k >= 0; k--) p = p << 8 | x[k];
    uint32_t len  = x[12] | x[13] << 8 | x[14] << 16 | x[15] << 24;
    char     name[100] = {0};
    snprintf(name, sizeof(name), "%.*s", (int) (e - a - 16), (char*) x + 16);
    bool known = false;
    for (int k = 0; k < 6; k++) known |= !strcmp(name, FN[k]);
    SIM_REQUIRE(known && p >= c->start, "manifest", "%s lists %llu/%s", c->path, (ull) p, name);
    size_t sz;
    if (final_life && c->count) // nothing changes any more
      SIM_REQUIRE(sfs_get(fpath(p, name), &sz) && sz == len, "manifest", "%s lists %llu/%s with %u bytes", c->path, (ull) p, name, len);
    last++;
  }
  if (final_life && c->count) {
    uint32_t want = 0;
    for (uint64_t p = c->start > OFFP - 4 ? c->start : OFFP - 4; p <= PB + 3; p++)
      for (int k = 0; k < 6; k++) {
        size_t sz;
        want += sfs_get(fpath(p, FN[k]), &sz) != NULL;
      }
    SIM_REQUIRE(want == last, "manifest", "%s lists %u files of %u", c->path, last, want);
    sim_stat("manifests", 1);
  }
}
static void on_data(speer* p, const uint8_t* d, size_t n) {
  hcl* c = p->ctx;
  wb_put(&c->in, d, n);
  char* e = memmem(c->in.d, c->in.n, "\r\n\r\n", 4);
  if (!e || c->done) return;
  int  hl = e - (char*) c->in.d + 4, st = 0;
  char h[1024];
  snprintf(h, sizeof(h), "%.*s", hl, (char*) c->in.d);
  sscanf(h, "HTTP/1.1 %d", &st);
  char* cl = strcasestr(h, "\r\nContent-Length:");
  SIM_REQUIRE(cl && st, "http", "a malformed response: %.80s", h);
  uint32_t len = strtoul(cl + 17, NULL, 10);
  if (c->in.n < hl + len) return;
  c->done   = true;
  c->status = st;
  sim_log("client %d: %s -> %d, %u bytes", c->id, c->path, st, len);
  sim_log_data("body", c->in.d + hl, len);
  check_response(c, st, c->in.d + hl, len);
  suv_hangup(p, UV_EOF);
}
static void on_close(speer* p) { ((hcl*) p->ctx)->closed = true; }
static void hang(void* a) {
  hcl* c = a;
  if (c->done || c->closed) return;
  sim_fault_count("client_disconnect");
  c->done = true;
  suv_hangup(&c->p, UV_ECONNRESET);
}
static bool hang_some;
static void ask(void* a) {
  hcl* c = a;
  size_t n;
  c->before     = c->kind == Q_FILE && sfs_get(fpath(c->start, c->name), &n);
  c->p.ctx      = c;
  c->p.on_data  = on_data;
  c->p.on_close = on_close;
  c->dialed     = true;
  c->sent       = sim_now_ms;
  suv_dial(&c->p);
  wbuf b = {0};
  wb_f(&b, "GET %s HTTP/1.1\r\nHost: prover\r\n\r\n", c->path);
  suv_send(&c->p, b.d, b.n);
  sim_log("client %d: GET %s", c->id, c->path);
  if (hang_some && C(4, "hang") == 3) suv_at(C(100, "hang-at") * 4, hang, c);
}
static hcl* new_client(uint64_t at) {
  if (ncl == 16) return NULL;
  hcl* c = CL + ncl;
  memset(c, 0, sizeof(*c));
  c->id = ncl++;
  suv_at(at, ask, c);
  return c;
}
static void gen_client(uint64_t at) {
  hcl* c = new_client(at);
  if (!c) return;
  int k = C(10, "query");
  if (k < 5) {
    c->kind  = Q_LCU;
    c->start = PB + 2 - C(5, "start");
    c->count = 1 + C(4, "count");
    int odd  = C(30, "odd");
    if (odd == 29) c->count = 4000000000u + C(2, "big") * 294967295u;
    if (odd == 28) c->start = 5;
    if (odd == 27) c->start = PB - 5;
    if (C(2, "order"))
      sprintf(c->path, "/eth/v1/beacon/light_client/updates?count=%llu&start_period=%llu", (ull) c->count, (ull) c->start);
    else
      sprintf(c->path, "/eth/v1/beacon/light_client/updates?start_period=%llu&count=%llu", (ull) c->start, (ull) c->count);
  }
  else if (k < 8) {
    c->kind  = Q_FILE;
    c->start = PB + 2 - C(3, "file-period");
    strcpy(c->name, FN[C(6, "file")]);
    sprintf(c->path, "/period_store/%llu/%s", (ull) c->start, c->name);
    if (C(3, "offset") == 2) {
      c->off = (uint64_t[]) {0, 32, 112 * 32, 100, 112 * 8000, 10000000, 7}[C(7, "off")];
      sprintf(c->path + strlen(c->path), "?offset=%llu", (ull) c->off);
    }
  }
  else if (k == 8) {
    c->kind  = Q_MANIFEST;
    c->start = PB + C(3, "from") - 1;
    sprintf(c->path, "/period_store?manifest=1&start=%llu", (ull) c->start);
  }
  else {
    static const char* B[] = {"/period_store/../secret", "/period_store/760/../../secret", "/period_store//sim/secret", "/period_store/%2e%2e/secret", "/period_store", "/period_store/", "/period_store/760", "/eth/v1/beacon/light_client/updates?start_period=0&count=1", "/eth/v1/beacon/light_client/updates?start_period=760", "/period_store/760/../../../sim/secret?offset=0"};
    int                b   = C(10, "bad");
    c->kind                = b < 4 || b == 9 ? Q_ESCAPE : Q_BAD;
    strcpy(c->path, B[b]);
  }
}
// ---- events of the chain ----
static jmp_buf  life_end;
static uint64_t life_t0, life_len, first_head;
static int      heads_left;
static void     deliver(uint64_t slot, const uint8_t* root, const uint8_t* hdr) {
  if (!first_head) first_head = slot;
  sim_log("head %llu", (ull) slot);
  c4_period_sync_on_head(slot, root, hdr);
}
static void head_event(void* a) {
  if (heads_left-- <= 0) return;
  int nb = next_block(head);
  if (nb < 0) return;
  if (!final_life && norp < 60 && C(6, "reorg") == 5) { // a block which does not stay
    int at = head + 1 + (nb > head + 1 ? C(nb - head, "orphan-slot") : 0);
    if (!orphan_at(slot_of(at))) {
      orphan* o = ORP + norp++;
      o->slot   = slot_of(at);
      make_header(o->hdr, o->slot, H->s[head].root, 1000 + norp);
      header_root(o->hdr, o->root);
      sim_fault_count("reorg");
      sim_now_ms += 0;
      deliver(o->slot, o->root, o->hdr);
    }
  }
  int jump = !final_life && C(5, "jump") == 4 ? (int) C(60, "missed") : 0; // heads nobody told us about
  while (jump-- > 0 && next_block(nb) > 0 && next_block(nb) < NS - 60) nb = next_block(nb);
  head = nb;
  deliver(slot_of(head), H->s[head].root, H->s[head].hdr);
  suv_at((C(4, "fast-head") == 3 ? 0 : 12000), head_event, NULL);
}
static uint64_t cp_slot;
static void     checkpoint_event(void* a) {
  int i = head - 64;
  i -= (int) (slot_of(i) % 32);
  while (i > 0 && !H->s[i].block) i--;
  if (i <= 0) return;
  if (ncp < 64) {
    CP[ncp].slot = slot_of(i);
    memcpy(CP[ncp++].root, H->s[i].root, 32);
  }
  cp_slot = slot_of(i);
  sim_log("checkpoint %llu", (ull) cp_slot);
  uint8_t r[32];
  memcpy(r, H->s[i].root, 32);
  c4_period_sync_on_checkpoint(r, cp_slot);
}
static void crash_now(void* a) { longjmp(life_end, 1); }
static void full_on(void* a) {
  if (!final_life) sfs_full = true, write_errors = true, sim_fault_count("disk_full");
}
static void full_off(void* a) { sfs_full = false; }
static int  max_periods, delay_ms;
static bool slave;
static void configure(void) {
  wbuf b = {0};
  for (int i = 0; i < nn; i++) wb_f(&b, "%shttp://%s/", i ? "," : "", ND[i].host);
  wb_u8(&b, 0);
  http_server.host                  = "127.0.0.1";
  http_server.port                  = 8090;
  http_server.chain_id              = 1;
  http_server.rpc_nodes             = "http://rpc0/";
  http_server.beacon_nodes          = (char*) b.d;
  http_server.checkpointz_nodes     = "";
  http_server.prover_nodes          = "";
  http_server.memcached_host        = "";
  http_server.rpc_head_poll_enabled = 0;
  eth_config.stream_beacon_events   = 0;
  eth_config.period_store           = STORE_DIR;
  eth_config.period_backfill_max_periods = max_periods;
  eth_config.period_backfill_delay_ms    = delay_ms;
  if (slave) {
    eth_config.period_master_url = C(2, "slash") ? "http://master/" : "http://master";
    eth_config.period_full_sync  = 1;
  }
}
static bool waiting(void) {
  for (int i = 0; i < ncl; i++)
    if (!CL[i].done && !CL[i].closed) return true;
  return false;
}
static int  quiet;
static void finish_run(void);
static void supervise(void* a) {
  for (int i = 0; i < ncl; i++)
    if (CL[i].dialed && !CL[i].done && !CL[i].closed && sim_now_ms > CL[i].sent + 400000) sim_violation("no-response", "%s is not answered", CL[i].path);
  if (final_life) {
    bool busy = waiting() || scurl_open || heads_left > 0 || (!slave && max_periods && !c4_ps_backfill_done());
    quiet     = busy ? 0 : quiet + 1;
    if (quiet > 40) return finish_run();
    SIM_REQUIRE(sim_now_ms < life_t0 + 3600000, "never-done", "an hour after the last fault the store is still busy (%d transfers, backfill %s)", scurl_open, c4_ps_backfill_done() ? "done" : "not done");
  }
  suv_at(1000, supervise, NULL);
}
static void              slave_start(void);
static server_instance_t SRV;
static bool              heals_in_life;
static void              one_life(void) {
  sfs_crash();
  suv_reset();
  scurl_reset();
  process_restart();
  memset(&SRV, 0, sizeof(SRV));
  for (int i = 0; i < nn; i++) memset(ND + i, 0, sizeof(unode)), sprintf(ND[i].host, "beacon%d", i);
  configure();
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  ncl        = 0;
  quiet      = 0;
  first_head = 0;
  life_t0    = sim_now_ms;
  sfs_full   = false;
  faulty = false;
  if (!final_life) {
    bool all = true;
    for (int i = 0; i < nn; i++) {
      if (C(2, "faulty")) {
        ND[i].mode = 1 + C(7, "mode");
        ND[i].from = sim_now_ms + (C(2, "late") ? C(60, "from") * 1000 : 0);
        ND[i].to   = ND[i].from + 1000 * (1 + C(120, "to"));
        ND[i].rate = C(2, "rate") ? 1000 : 300;
        if (ND[i].mode == N_EMPTY) faulty = true;
      }
      else
        all = false;
    }
    faulty |= all;
  }
  must_lcu   = !faulty;
  hp_start   = head_period();
  sfs_faults = !final_life && C(3, "disk-faults") == 2;
  if (sfs_faults) write_errors = true;
  hang_some  = !final_life && C(2, "hangups");
  heads_left = final_life ? 3 + C(4, "heads") : C(40, "heads");
  if (slave) {
    heads_left = 0;
    slave_start();
  }
  else
    suv_at(500 + C(3, "first-head") * 2000, head_event, NULL);
  int ncpe = 0, nq = 0;
  if (slave) goto common;
  ncpe = final_life ? 1 : C(3, "checkpoints");
  for (int i = 0; i < ncpe; i++) suv_at(final_life ? 3000 + C(60, "cp-at") * 1000 : C(200, "cp-at") * 1000, checkpoint_event, NULL);
  nq = C(8, "queries");
  for (int i = 0; i < nq; i++) gen_client(C(100, "at") * (final_life ? 300 : 1000));
common:
  if (!final_life && !heals_in_life) {
    if (C(5, "full") == 4) {
      uint64_t t = C(100, "full-at") * 500;
      suv_at(t, full_on, NULL);
      suv_at(t + 1000 * (1 + C(60, "full-for")), full_off, NULL);
    }
    uint64_t t = C(3, "life") == 2 ? C(2000, "dies-ms") * 5 : (1 + C(250, "dies")) * 1000;
    suv_at(t, crash_now, NULL);
    sim_fault_count("process_crash");
  }
  if (!slave) suv_at(1000, supervise, NULL);
  if (!setjmp(life_end)) {
    int rc = c4_server_start(&SRV, 0);
    if (rc) sim_violation("start", "the server does not start");
    for (;;)
      if (!suv_iterate()) sim_error("nothing to do");
  }
  sim_log("the process ends");
}
static hcl* last_manifest;
static void finish_run(void) {
  if (!last_manifest && !slave) { // when nothing changes any more
    last_manifest = new_client(0);
    if (last_manifest) {
      last_manifest->kind  = Q_MANIFEST;
      last_manifest->start = PB;
      last_manifest->count = 1;
      sprintf(last_manifest->path, "/period_store?start=%llu&manifest=1", PB);
      quiet = 0;
      suv_at(1000, supervise, NULL);
      return;
    }
  }
  check_store("at the end");
  if (max_periods && first_head) {
    // everything the nodes have from the first slot of the backfill to the head it started from
    uint64_t end = first_head - first_head % 8192 - 8192ull * max_periods, low = end;
    if (slot_of(oldest) > low) low = slot_of(oldest);
    uint64_t ph = 0;
    for (uint64_t s = low; s <= first_head; s++) {
      uint64_t       p = s / 8192, i = s % 8192;
      size_t         nb = 0, nh = 0;
      const uint8_t *b = sfs_get(fpath(p, "blocks.ssz"), &nb), *h = sfs_get(fpath(p, "headers.ssz"), &nh);
      bool           hz = nh < 112 * (i + 1) || zero(h + 112 * i, 112);
      SIM_REQUIRE(nb >= 32 * (i + 1) && !memcmp(b + 32 * i, H->s[s - S0].root, 32), "missing", "the backfill from %llu is done, but slot %llu has %s root", (ull) first_head, (ull) s, nb < 32 * (i + 1) || zero(b + 32 * i, 32) ? "no" : "a wrong");
      SIM_REQUIRE(H->s[s - S0].block ? !hz && !memcmp(h + 112 * i, H->s[s - S0].hdr, 112) : hz, "missing", "the backfill from %llu is done, but slot %llu has %s", (ull) first_head, (ull) s, !H->s[s - S0].block ? "a header although there is no block" : hz ? "no header" : "a wrong header");
      ph++;
    }
    sim_stat("slots", ph);
    if (low == end && cp_slot / 8192 == first_head / 8192)
      for (uint64_t p = end / 8192; p < first_head / 8192; p++) {
        size_t n;
        SIM_REQUIRE(sfs_get(fpath(p, "blocks_root.bin"), &n), "marker", "period %llu is complete, but was not marked as verified", (ull) p);
        sim_stat("verified periods", 1);
      }
  }
  sim_stat("headers fetched", fetched);
  sim_done();
}
// ---- the state of the disk in the beginning ----
static void put_period(uint64_t p) {
  int first = (int) ((int64_t) (p * 8192) - (int64_t) S0), last = first + 8191;
  if (last > head) last = head;
  if (last < first || first < 0) return;
  int            n  = last - first + 1;
  static uint8_t b[8192 * 32], h[8192 * 112];
  for (int i = 0; i < n; i++) {
    memcpy(b + 32 * i, H->s[first + i].root, 32);
    memcpy(h + 112 * i, H->s[first + i].hdr, 112);
  }
  int holes = C(5, "holes");
  for (int k = 0; k < holes; k++) {
    int from = C(n, "hole"), len = 1 + C(20, "hole-len"), what = C(4, "hole-kind");
    for (int i = from; i < from + len && i < n; i++) {
      if (what != 1) memset(b + 32 * i, 0, 32);
      if (what != 2) memset(h + 112 * i, 0, 112);
      if (what == 3 && norp < 40 && !orphan_at(slot_of(first + i))) { // a block which was replaced
        orphan* o = ORP + norp++;
        o->slot   = slot_of(first + i);
        int q     = prev_block(first + i);
        make_header(o->hdr, o->slot, H->s[q < 0 ? 0 : q].root, 5000 + norp);
        header_root(o->hdr, o->root);
        memcpy(b + 32 * i, o->root, 32);
        memcpy(h + 112 * i, o->hdr, 112);
        break;
      }
    }
  }
  int nb = n, nh = n;
  if (C(4, "cut") == 3) nb -= C(n < 60 ? n : 60, "cut-b"), nh -= C(n < 60 ? n : 60, "cut-h");
  sfs_mkdir(fpath(p, ""));
  sfs_put(fpath(p, "blocks.ssz"), b, nb * 32);
  sfs_put(fpath(p, "headers.ssz"), h, nh * 112);
  if (C(2, "lcu")) {
    uint8_t l[1000];
    int     v = p < head_period() ? (int) C(NV, "variant") : lcu_now(p);
    lcu_blob(p, v, l);
    sfs_put(fpath(p, "lcu.ssz"), l, lcu_len(p, v));
  }
}
static void run_slave(void);
static uint64_t disk_h;
static void     disk_file(const char* path, bool dir, const uint8_t* d, size_t n) {
  disk_h = sim_hash(sim_hash(disk_h, path, strlen(path)), d, dir ? 0 : n);
}
// distinct contents of the disk after a crash or at the end
static void disk_state(void) {
  disk_h = 11;
  sfs_each(disk_file);
  sim_state(disk_h);
}
void sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCH; i++) make_chain(i);
  setenv("C4_STATES_DIR", "/sim/states", 1);
  process_snapshot();
}
void sim_run(const sim_cfg_t* cfg) {
  H            = CH[C(NCH, "chain")];
  slave        = sim_is("P22");
  max_periods  = 1;
  delay_ms     = C(2, "pace") ? 5 : 0;
  nn           = 1 + C(3, "nodes");
  scurl_answer = answer;
  sfs_mkdir("/sim");
  sfs_mkdir("/sim/states");
  sfs_put("/sim/secret", "SECRET", 6);
  // the head: within the second or third period or just before the third
  int k  = C(3, "where");
  head   = 40 + (k == 0 ? 2 * 8192 + (int) C(300, "head") : k == 1 ? 2 * 8192 - 1 - (int) C(30, "head") : 8192 + 200 + (int) C(3000, "head"));
  if (!H->s[head].block) head = prev_block(head);
  oldest = 0;
  bool young = C(4, "young") == 3;
  if (!C(10, "nothing")) {
    young = true;
  }
  if (young) oldest = next_block(head - 60 - (int) C(300, "oldest"));
  else
    sfs_mkdir(STORE_DIR);
  sim_now_ms = (1606824023ull + slot_of(head) * 12 + 3) * 1000;
  if (slave) run_slave();
  if (!young)
    for (uint64_t p = head_period() - 1; p <= head_period(); p++) put_period(p);
  int lives = C(4, "lives");
  for (int i = 0; i < lives; i++) {
    one_life();
    sfs_crash();
    disk_state();
    check_store("after a crash");
    sim_now_ms += C(3, "down") * 60000;
    int down = C(3, "down-heads") == 2 ? (int) C(100, "down-n") : 0;
    while (down-- > 0 && next_block(head) > 0 && next_block(head) < NS - 200) head = next_block(head);
  }
  sim_heal();
  final_life = true;
  one_life();
}

// ---- P22: a slave copies the store of a master ----
#define MP0 757ull // the first period of the master
#define MPN 6
#define MS 40      // slots of a period in the files (the slave does not look into them)
enum { M_BLOCKS, M_ROOT, M_HEADERS, M_HIST, M_LCB, M_LCU, M_ZKP, M_G16, MFN };
static const char* MF[MFN] = {"blocks.ssz", "blocks_root.bin", "headers.ssz", "historical_root.json", "lcb.ssz", "lcu.ssz", "zk_proof.bin", "zk_proof_g16.bin"};
typedef struct {
  int      slots;          // slots written so far
  bool     hole[MS];       // slots which were missed and come later
  uint32_t ver[MFN], nver[MFN]; // 0 = no file; version and number of versions so far
  bool     complete;
} mperiod;
static mperiod  M[MPN];
static int      mn; // periods so far
static unode    MN;
static bool     hostile;
static uint32_t mbytes(int p, int f, uint32_t v, uint8_t* o) {
  uint64_t x = (uint64_t) p * 1000003 + f * 7919 + v * 104729 + 17;
  uint32_t n = f == M_ROOT ? 32 : f == M_LCB ? 600 : f == M_LCU ? 700 + (v * 37) % 111 : f == M_HIST ? 900 + (v / 2) * 70 : 800;
  for (uint32_t i = 0; i < n; i++) {
    x    = x * 6364136223846793005ull + 1442695040888963407ull;
    o[i] = x >> 56;
  }
  return n;
}
static uint32_t mslot(int p, int f, int i, uint8_t* o) {
  uint32_t sz = f == M_BLOCKS ? 32 : 112;
  uint64_t x  = (uint64_t) p * 77777 + i * 131 + f;
  for (uint32_t k = 0; k < sz; k++) {
    x    = x * 6364136223846793005ull + 1442695040888963407ull;
    o[k] = 1 + (x >> 56) % 255;
  }
  return sz;
}
static bool mfile(int p, int f, wbuf* b) {
  mperiod* m = M + p;
  if (f == M_BLOCKS || f == M_HEADERS) {
    if (!m->slots) return false;
    uint8_t e[112];
    for (int i = 0; i < m->slots; i++) {
      uint32_t sz = mslot(p, f, i, e);
      if (m->hole[i]) memset(e, 0, sz);
      wb_put(b, e, sz);
    }
    return true;
  }
  if (!m->ver[f]) return false;
  uint8_t e[2000];
  wb_put(b, e, mbytes(p, f, m->ver[f], e));
  return true;
}
static void m_le(wbuf* b, uint64_t v, int n) {
  while (n--) wb_u8(b, v & 255), v >>= 8;
}
static void m_manifest(uint64_t start, wbuf* o) {
  static wbuf items[100];
  int         n = 0;
  for (int p = 0; p < mn; p++)
    for (int f = 0; f < MFN && n < 90; f++) {
      wbuf c = {0};
      if (MP0 + p < start || !mfile(p, f, &c)) continue;
      wbuf* b = items + n++;
      memset(b, 0, sizeof(*b));
      m_le(b, MP0 + p, 8);
      m_le(b, 16, 4);
      m_le(b, c.n, 4);
      wb_put(b, (uint8_t*) MF[f], strlen(MF[f]) + 1);
    }
  if (hostile && C(2, "evil")) {
    static const char* E[] = {"../secret", "../../secret", "../../../sim/secret", "/sim/secret", "a/b", "..", ".", "", "x", "760", "../761/blocks.ssz", "lcu.ssz/../../../secret", "\\..\\x"};
    int                k   = 1 + C(4, "evil-n");
    for (int i = 0; i < k && n < 99; i++) {
      wbuf* b = items + n++;
      memset(b, 0, sizeof(*b));
      const char* name = E[C(13, "evil-name")];
      m_le(b, C(4, "evil-period") == 3 ? (uint64_t[]) {0, ~0ull, 1ull << 63, 5}[C(4, "far")] : MP0 + C(MPN, "evil-p"), 8);
      m_le(b, 16, 4);
      m_le(b, C(3, "evil-len") * 400, 4);
      int nul = C(3, "evil-nul");
      wb_put(b, (uint8_t*) name, strlen(name) + (nul != 2));
      if (C(6, "long") == 5) {
        for (int q = 0; q < 200; q++) wb_u8(b, 'n');
        if (C(2, "z")) wb_u8(b, 0);
      }
    }
    sim_fault_count("evil_manifest");
  }
  uint32_t off = 4 * n;
  for (int i = 0; i < n; i++) m_le(o, off, 4), off += items[i].n;
  for (int i = 0; i < n; i++) wb_put(o, items[i].d, items[i].n);
  if (!hostile && o->n && sim_faults_on() && C(12, "cut-manifest") == 11) {
    o->n -= 1 + C(o->n, "cut-n");
    sim_fault_count("cut_manifest");
  }
  if (hostile && o->n && C(4, "mutate") == 3) {
    o->d[C(o->n, "byte")] ^= 1 << C(8, "bit");
    if (C(2, "cut")) o->n -= C(o->n, "cut-n");
    sim_fault_count("damaged_manifest");
  }
}
static int  downloads;
static bool crash_mid; // the process ends while files are copied
static void master_answer(const char* path, sresp* o) {
  int mode = MN.mode && sim_faults_on() && sim_now_ms >= MN.from && sim_now_ms < MN.to && sim_chance(MN.rate, "master-fault") ? MN.mode : N_GOOD;
  if (mode) sim_fault_count(NF[mode]);
  switch (mode) {
    case N_SLOW: o->delay_ms += 500 + C(60, "slow") * 1000; break;
    case N_REFUSED: o->outcome = 1; return;
    case N_SILENT: o->outcome = 2; return;
    case N_5XX: o->code = 502; return;
    case N_429: o->code = 429; return;
    case N_LOST: o->outcome = 3; break;
    case N_EMPTY: return;
  }
  ull p, off = 0;
  char name[300];
  if (sscanf(path, "period_store?manifest=1&start=%llu", &p) == 1) m_manifest(p, &o->body);
  else if (sscanf(path, "period_store/%llu/%250[^?]?offset=%llu", &p, name, &off) >= 2) {
    int f = 0;
    while (f < MFN && strcmp(MF[f], name)) f++;
    wbuf b = {0};
    downloads++;
    static bool marker; // the file before was a marker
    bool        near = marker;
    marker           = f == M_ROOT || f == M_G16;
    if (crash_mid && (near ? C(3, "crash-here") == 2 : C(40, "crash-here") == 39)) { // this one never comes, or just before the end
      suv_at(C(4, "crash-ms"), crash_now, NULL);
      crash_mid = false;
      if (C(2, "in-flight")) o->outcome = 2;
    }
    if (f < MFN && p >= MP0 && p < MP0 + mn && mfile(p - MP0, f, &b)) {
      if (off < b.n) wb_put(&o->body, b.d + off, b.n - off);
    }
    else if (hostile && C(2, "evil-file"))
      wb_put(&o->body, (uint8_t*) "EVIL", 4);
    else
      not_found(o);
  }
  else
    not_found(o);
  sim_log("master <- %s: %ld, %u bytes%s%s", path, o->code, o->body.n, mode ? " " : "", NF[mode]);
}
// the master goes on
static void m_step(void) {
  int p = mn - 1 - (mn > 1 ? (int) C(2, "m-prev") : 0);
  if (p < 0) return;
  mperiod* m = M + p;
  if (m->complete) {
    if (mn < MPN) memset(M + mn++, 0, sizeof(mperiod));
    return;
  }
  int k = C(7, "m-step");
  if (m->slots < MS) {
    int add = 1 + C(20, "m-slots");
    for (; add-- && m->slots < MS; m->slots++) m->hole[m->slots] = C(8, "m-hole") == 7;
  }
  if (k == 1) m->ver[M_LCU] = ++m->nver[M_LCU];
  if (k == 2 && !m->ver[M_LCB]) m->ver[M_LCB] = ++m->nver[M_LCB];
  if (k == 3) m->ver[M_HIST] = ++m->nver[M_HIST];
  if (k == 4 && m->slots) memset(m->hole, 0, sizeof(m->hole));
  if (k == 6 && m->ver[M_LCU] && p < mn - 1) m->ver[M_ZKP] = m->ver[M_G16] = 1;
  if (k == 5 && m->slots == MS && p < mn - 1) { // the period is over
    memset(m->hole, 0, sizeof(m->hole));
    m->ver[M_ROOT] = 1;
  }
  if (m->ver[M_ROOT] && m->ver[M_G16]) m->complete = true;
  if (m->slots == MS && p == mn - 1 && mn < MPN && C(2, "m-next")) memset(M + mn++, 0, sizeof(mperiod));
}
static int  m_pace;
static void m_event(void* a) {
  if (final_life) return;
  m_step();
  suv_at(1000 * (1 + C(m_pace, "m-wait")), m_event, NULL);
}
static void m_checkpoint(void* a) {
  uint8_t r[32] = {1};
  sim_log("checkpoint");
  c4_period_sync_on_checkpoint(r, (MP0 + mn) * 8192);
  suv_at(final_life ? 60000 : 1000 * (10 + C(100, "cp-wait")), m_checkpoint, NULL);
}
static bool all_digits(const char* s, size_t n) {
  if (!n) return false;
  for (size_t i = 0; i < n; i++)
    if (s[i] < '0' || s[i] > '9') return false;
  return true;
}
static void check_path(const char* path, bool dir, const uint8_t* d, size_t n) {
  if (!strcmp(path, "/sim") || !strcmp(path, "/sim/states") || !strcmp(path, STORE_DIR) || !strncmp(path, "/sim/states/", 12)) return;
  if (!strcmp(path, "/sim/secret")) {
    SIM_REQUIRE(n == 6 && !memcmp(d, "SECRET", 6), "escape", "the master changed a file outside of the store");
    return;
  }
  size_t l = strlen(STORE_DIR);
  SIM_REQUIRE(!strncmp(path, STORE_DIR "/", l + 1), "escape", "the master led to %s", path);
  const char *x = path + l + 1, *e = strchr(x, '/');
  SIM_REQUIRE(all_digits(x, e ? (size_t) (e - x) : strlen(x)), "escape", "the master led to %s", path);
  if (e) SIM_REQUIRE(!strchr(e + 1, '/') && !dir, "escape", "the master led to %s", path);
}
static void check_copy(const char* when, bool end) {
  sfs_each(check_path);
  for (int p = 0; p < mn; p++) {
    bool all = true;
    for (int f = 0; f < MFN; f++) {
      size_t         n = 0;
      const uint8_t* d = sfs_get(fpath(MP0 + p, MF[f]), &n);
      wbuf           b = {0};
      bool           m = mfile(p, f, &b);
      if (hostile) continue;
      if (d && (f == M_BLOCKS || f == M_HEADERS)) {
        uint8_t  e[112];
        uint32_t sz = f == M_BLOCKS ? 32 : 112;
        SIM_REQUIRE(n <= MS * sz, "copy", "%s: %s has %zu bytes", when, fpath(MP0 + p, MF[f]), n);
        for (uint32_t i = 0; (i + 1) * sz <= n; i++) {
          mslot(p, f, i, e);
          SIM_REQUIRE(zero(d + i * sz, sz) || !memcmp(d + i * sz, e, sz), "copy", "%s: %s has at slot %u what the master never had", when, fpath(MP0 + p, MF[f]), i);
        }
      }
      else if (d) {
        bool ok = false;
        for (uint32_t v = 1; v <= M[p].nver[f] + (f == M_ROOT || f >= M_ZKP ? 1 : 0) && !ok; v++) {
          uint8_t e[2000];
          ok = mbytes(p, f, v, e) == n && !memcmp(e, d, n);
        }
        SIM_REQUIRE(ok, "copy", "%s: %s (%zu bytes) is nothing the master ever had", when, fpath(MP0 + p, MF[f]), n);
      }
      bool same = m ? d && n == b.n && !memcmp(d, b.d, n) : !d;
      // what the master filled in later is only copied when the period was verified
      if ((f == M_BLOCKS || f == M_HEADERS) && !M[p].ver[M_ROOT]) same = m ? d && n == b.n : !d;
      all &= same;
      if (end) SIM_REQUIRE(same, "copy", "%s: %s is not that of the master (%zu bytes instead of %u)", when, fpath(MP0 + p, MF[f]), n, b.n);
      if (f == M_BLOCKS && sfs_get(fpath(MP0 + p, MF[M_ROOT]), &n)) SIM_REQUIRE(same, "marker", "%s: period %llu is marked as verified, but its roots are not complete", when, (ull) (MP0 + p));
    }
    size_t n;
    if (!hostile && M[p].complete && sfs_get(fpath(MP0 + p, MF[M_ROOT]), &n) && sfs_get(fpath(MP0 + p, MF[M_G16]), &n)) SIM_REQUIRE(all, "marker", "%s: period %llu counts as complete, but is not that of the master", when, (ull) (MP0 + p));
    if (all && end) sim_stat("periods copied", 1);
  }
}
static void m_stop(void* a) {
  if (!hostile) check_copy("at the end", true);
  else
    check_copy("at the end", false);
  sim_stat("downloads", downloads);
  disk_state();
  sim_done();
}
static void m_heal(void* a) {
  sim_heal();
  sfs_full = sfs_faults = false;
  final_life            = true;
  suv_at(900000, m_stop, NULL);
}
static void slave_start(void) {
  crash_mid = false;
  memset(&MN, 0, sizeof(MN));
  if (final_life) suv_at(400000, m_stop, NULL);
  else {
    suv_at(1000, m_event, NULL);
    crash_mid = !heals_in_life && C(2, "crash-mid");
    if (heals_in_life) {
      suv_at(10000 + 1000 * C(300, "heal-at"), m_heal, NULL);
      if (C(5, "full") == 4) suv_at(C(100, "full-at") * 500, full_on, NULL);
    }
    if (C(2, "faulty")) {
      MN.mode = 1 + C(7, "mode");
      MN.from = sim_now_ms + (C(2, "late") ? C(60, "from") * 1000 : 0);
      MN.to   = MN.from + 1000 * (1 + C(120, "to"));
      MN.rate = C(2, "rate") ? 1000 : 300;
    }
  }
  suv_at(2000 + C(20, "first-cp") * 1000, m_checkpoint, NULL);
}
static void run_slave(void) {
  hostile   = C(4, "hostile") == 3;
  m_pace    = C(2, "m-pace") ? 6 : 40;
  heads_left = 0;
  mn        = 1;
  memset(M, 0, sizeof(M));
  int k = C(60, "m-age");
  while (k--) m_step();
  int lives = C(4, "lives");
  for (int i = 0; i < lives; i++) {
    one_life();
    sfs_crash();
    disk_state();
    check_copy("after a crash", false);
    sim_now_ms += C(3, "down") * 60000;
    k = C(3, "m-on") == 2 ? C(20, "m-n") : 0;
    while (k--) m_step();
  }
  if (C(2, "heals-in-life")) { // the last life goes on when the failures stop
    heals_in_life = true;
    one_life();
    return;
  }
  sim_heal();
  final_life = true;
  one_life();
}
