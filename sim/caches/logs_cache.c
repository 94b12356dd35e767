#include "caches.h"
#include "../core/sim.h"
#include "json.h"
#include "logs_cache.h"
#include "prover.h"
#include "sha3.h"
#include "state.h"
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXB   64
#define NADDR  24
#define NTOPIC 8
typedef struct {
  int  addr;
  int  topics[4];
  int  nt;
  char json[1024];
} mlog_t;
typedef struct {
  bool     cached; // was handed to the cache at least once
  int      ntx;
  int      nlogs[4];
  mlog_t   logs[4][3];
  uint8_t  bloom[256];
  char*    receipts;
  uint32_t version;
} mblock_t;
static mblock_t B[MAXB];
static uint64_t base_no = 5000;
static uint64_t stream;

static void hexs(char* out, const char* pre, int v, int bytes) {
  uint8_t d[32] = {0};
  for (int i = 0; i < bytes; i++) d[i] = (uint8_t) (pre[0] + i * 7 + v * 31);
  d[bytes - 1] = (uint8_t) v;
  strcpy(out, "0x");
  for (int i = 0; i < bytes; i++) sprintf(out + 2 + 2 * i, "%02x", d[i]);
}
static void bloom_add(uint8_t* bloom, const char* hexval, int bytes) {
  uint8_t d[32], h[32];
  for (int i = 0; i < bytes; i++) sscanf(hexval + 2 + 2 * i, "%2hhx", d + i);
  keccak_256(d, bytes, h);
  for (int i = 0; i < 6; i += 2) {
    int bit = ((h[i] << 8) | h[i + 1]) & 0x7ff;
    bloom[255 - (bit >> 3)] |= 1 << (bit & 7);
  }
}
static void make_block(int b) {
  mblock_t* m = B + b;
  uint32_t  v = m->version + 1;
  free(m->receipts);
  bool cached = m->cached;
  memset(m, 0, sizeof(*m));
  m->version = v;
  m->cached  = cached;
  m->ntx     = sim_choose(4, "txs");
  char     a[80], t[80];
  size_t   cap = 40000;
  char*    o   = m->receipts = malloc(cap);
  int      li  = 0;
  o += sprintf(o, "[");
  for (int i = 0; i < m->ntx; i++) {
    m->nlogs[i] = sim_choose(4, "logs");
    o += sprintf(o, "%s{\"transactionIndex\":\"0x%x\",\"type\":\"0x2\",\"status\":\"0x1\",\"cumulativeGasUsed\":\"0x1\",\"transactionHash\":\"0x%064x\",\"blockHash\":\"0x%056x%04x%04x\",\"gasUsed\":\"0x1\",\"effectiveGasPrice\":\"0x1\",\"from\":\"0x%040x\",\"logsBloom\":\"0x\",\"logs\":[", i ? "," : "", i, i + 1000 * b, 0, b, v, 7);
    for (int k = 0; k < m->nlogs[i]; k++) {
      mlog_t* l = &m->logs[i][k];
      l->addr   = sim_choose(sim_choose(4, "rare") == 3 ? NADDR : 2, "addr");
      l->nt     = sim_choose(5, "nt");
      hexs(a, "a", l->addr, 20);
      bloom_add(m->bloom, a, 20);
      char* j = l->json;
      j += sprintf(j, "{\"address\":\"%s\",\"topics\":[", a);
      for (int p = 0; p < l->nt; p++) {
        l->topics[p] = sim_choose(sim_choose(4, "rare") == 3 ? NTOPIC : 2, "topic");
        hexs(t, "t", l->topics[p], 32);
        bloom_add(m->bloom, t, 32);
        j += sprintf(j, "%s\"%s\"", p ? "," : "", t);
      }
      sprintf(j, "],\"data\":\"0x\",\"blockNumber\":\"0x%" PRIx64 "\",\"transactionHash\":\"0x%064x\",\"transactionIndex\":\"0x%x\",\"blockHash\":\"0x%056x%04x%04x\",\"logIndex\":\"0x%x\",\"removed\":false}", base_no + b, i + 1000 * b, i, 0, b, v, li++);
      o += sprintf(o, "%s%s", k ? "," : "", l->json);
    }
    o += sprintf(o, "]}");
  }
  sprintf(o, "]");
}

typedef struct {
  bool          active;
  prover_ctx_t* ctx;
  char          filter[6000];
  int           from, to; // block indices
  int           addrs[NADDR], na;
  int           topics[4][NTOPIC], nt[4], npos;
  int           rounds;
  uint32_t      epoch; // changes of blocks in the range while the query runs make it undecidable
} query_t;
#define MAXQ 3
static query_t Q[MAXQ];

static bool matches(query_t* q, mlog_t* l) {
  if (q->na) {
    bool f = false;
    for (int i = 0; i < q->na; i++) f |= q->addrs[i] == l->addr;
    if (!f) return false;
  }
  for (int p = 0; p < q->npos; p++) {
    if (!q->nt[p]) continue;
    if (l->nt <= p) return false;
    bool f = false;
    for (int i = 0; i < q->nt[p]; i++) f |= q->topics[p][i] == l->topics[p];
    if (!f) return false;
  }
  return true;
}

static int contiguous_from; // first block the cache can know, by the rules: the latest contiguous run of at most `limit` blocks

static void start_query(query_t* q, int head) {
  memset(q, 0, sizeof(*q));
  q->active = true;
  int back  = sim_choose(sim_choose(4, "long") == 3 ? 14 : (head - contiguous_from < 3 ? 2 : head - contiguous_from), "from");
  q->to     = head - (int) sim_choose(3, "to");
  if (sim_choose(10, "beyond") == 9) q->to = head + 1;
  if (q->to < 0) q->to = 0;
  q->from = q->to - back;
  if (q->from < 0) q->from = 0;
  char* o = q->filter;
  char  t[80];
  o += sprintf(o, "{\"fromBlock\":\"0x%" PRIx64 "\",\"toBlock\":\"0x%" PRIx64 "\"", base_no + q->from, base_no + q->to);
  int am = sim_choose(4, "address filter");
  if (am) {
    q->na = am == 1 ? 1 : am == 2 ? 1 + (int) sim_choose(4, "na") : 1 + (int) sim_choose(NADDR, "na");
    int first = sim_choose(3, "popular") == 0 ? (int) sim_choose(NADDR, "a0") : 0;
    for (int i = 0; i < q->na; i++) q->addrs[i] = (first + i) % NADDR;
    hexs(t, "a", q->addrs[0], 20);
    if (q->na == 1 && sim_chance(500, "plain")) o += sprintf(o, ",\"address\":\"%s\"", t);
    else {
      o += sprintf(o, ",\"address\":[");
      for (int i = 0; i < q->na; i++) {
        hexs(t, "a", q->addrs[i], 20);
        o += sprintf(o, "%s\"%s\"", i ? "," : "", t);
      }
      o += sprintf(o, "]");
    }
  }
  q->npos = sim_choose(3, "few positions") ? sim_choose(2, "positions") : sim_choose(5, "positions");
  if (q->npos || sim_chance(300, "empty topics")) {
    o += sprintf(o, ",\"topics\":[");
    for (int p = 0; p < q->npos; p++) {
      int k    = sim_choose(4, "alternatives");
      q->nt[p] = k == 3 ? 1 + sim_choose(NTOPIC, "n") : k;
      int first = sim_choose(3, "popular") == 0 ? (int) sim_choose(NTOPIC, "t0") : (int) sim_choose(2, "t0");
      for (int i = 0; i < q->nt[p]; i++) q->topics[p][i] = (first + i) % NTOPIC;
      if (p) o += sprintf(o, ",");
      if (q->nt[p] == 0) o += sprintf(o, sim_chance(800, "null") ? "null" : "[]");
      else if (q->nt[p] == 1 && sim_chance(600, "plain")) {
        hexs(t, "t", q->topics[p][0], 32);
        o += sprintf(o, "\"%s\"", t);
      }
      else {
        o += sprintf(o, "[");
        for (int i = 0; i < q->nt[p]; i++) {
          hexs(t, "t", q->topics[p][i], 32);
          o += sprintf(o, "%s\"%s\"", i ? "," : "", t);
        }
        o += sprintf(o, "]");
      }
    }
    o += sprintf(o, "]");
  }
  sprintf(o, "}");
  char* params = malloc(strlen(q->filter) + 3);
  sprintf(params, "[%s]", q->filter);
  q->ctx = c4_prover_create("eth_getLogs", params, 1, 0);
  free(params);
  sim_log("query %d: blocks %d..%d addresses %d topics %d[%d,%d,%d,%d]", (int) (q - Q), q->from, q->to, q->na, q->npos, q->nt[0], q->nt[1], q->nt[2], q->nt[3]);
}

static void end_query(query_t* q) {
  c4_prover_free(q->ctx);
  q->active = false;
}

static void step_query(query_t* q, uint32_t limit, int head) {
  json_t logs   = {0};
  bool   served = false;
  c4_status_t s = c4_eth_logs_cache_scan(q->ctx, json_at(q->ctx->params, 0), &logs, &served);
  q->rounds++;
  sim_log("query %d step %d -> %d served=%d", (int) (q - Q), q->rounds, s, served);
  if (s == C4_ERROR) {
    SIM_REQUIRE(false, "logs-cache-error", "a scan with honest nodes failed: %s", q->ctx->state.error ? q->ctx->state.error : "?");
  }
  if (s == C4_PENDING) {
    SIM_REQUIRE(c4_state_get_pending_request(&q->ctx->state) != NULL, "logs-cache-stuck", "pending without a request");
    SIM_REQUIRE(q->rounds < 40, "logs-cache-no-progress", "no result after %d steps", q->rounds);
    for (data_request_t* r = q->ctx->state.requests; r; r = r->next) {
      if (!c4_state_is_pending(r)) continue;
      if (sim_fault("late-response", 200)) continue; // answered in a later step
      json_t   p  = json_parse((char*) r->payload.data);
      json_t   m  = json_get(p, "method");
      uint64_t no = json_as_uint64(json_at(json_get(p, "params"), 0));
      SIM_REQUIRE(strncmp(m.start, "\"eth_getBlockReceipts\"", 22) == 0, "logs-cache-request", "unexpected request %.*s", (int) m.len, m.start);
      SIM_REQUIRE(no >= base_no + q->from && no <= base_no + q->to, "logs-cache-foreign-block", "the query of blocks %d..%d asks for block number %" PRIu64, q->from, q->to, no);
      mblock_t* b   = B + (no - base_no);
      char*     res = malloc(strlen(b->receipts) + 100);
      sprintf(res, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":%s}", b->receipts);
      r->response = bytes((uint8_t*) res, (uint32_t) strlen(res));
      sim_log("query %d: receipts of block %d", (int) (q - Q), (int) (no - base_no));
    }
    return;
  }
  if (!served) {
    // a miss is allowed if the range is not completely within what the cache has to hold
    bool must = q->from >= contiguous_from && q->to <= head && q->from >= head - (int) limit + 1;
    SIM_REQUIRE(!must, "logs-cache-miss", "blocks %d..%d are within the cached range %d..%d but were not served", q->from, q->to, contiguous_from, head);
    sim_stat("misses", 1);
  }
  else {
    SIM_REQUIRE(q->from >= contiguous_from && q->to <= head, "logs-cache-uncached-range", "blocks %d..%d were served from the cache, which knows only %d..%d", q->from, q->to, contiguous_from, head);
    // reference: all matching logs in chain order
    size_t n = 0;
    json_t e = json_next_value(logs, NULL, JSON_NEXT_FIRST);
    SIM_REQUIRE(logs.type == JSON_TYPE_ARRAY, "logs-cache-type", "result is no array");
    int total = 0;
    for (int b = q->from; b <= q->to; b++)
      for (int i = 0; i < B[b].ntx; i++)
        for (int k = 0; k < B[b].nlogs[i]; k++) total += matches(q, &B[b].logs[i][k]);
    SIM_REQUIRE((int) json_len(logs) == total, "logs-cache-wrong-count", "blocks %d..%d: %d logs served, %d match", q->from, q->to, (int) json_len(logs), total);
    for (int b = q->from; b <= q->to; b++)
      for (int i = 0; i < B[b].ntx; i++)
        for (int k = 0; k < B[b].nlogs[i]; k++) {
          mlog_t* l = &B[b].logs[i][k];
          if (!matches(q, l)) continue;
          json_t got = json_at(logs, n++);
          SIM_REQUIRE(got.len == strlen(l->json) && strncmp(got.start, l->json, got.len) == 0, "logs-cache-wrong-log", "log %d of the answer should be log %d of transaction %d in block %d: %.*s", (int) n - 1, k, i, b, (int) (got.len > 300 ? 300 : got.len), got.start);
        }
    sim_stat("served", 1);
    sim_stat("served_logs", total);
  }
  end_query(q);
}

void run_logs_cache(void) {
  stream         = sim_stream("logs");
  uint32_t limit = 1 + sim_choose(12, "limit");
  sim_log("limit %u", limit);
  c4_eth_logs_cache_enable(limit);
  int head        = -1;
  contiguous_from = 0;
  int steps       = 30 + sim_choose(80, "steps");
  for (int s = 0; s < steps && head < MAXB - 4; s++) {
    int op = sim_choose(10, "op");
    if (op <= 3) { // next head
      bool gap = head >= 0 && sim_fault("missed-head-event", 80);
      int  nb  = head + 1 + (gap ? 1 : 0);
      if (gap) {
        make_block(head + 1);
        contiguous_from = nb;
      }
      make_block(nb);
      head = nb;
      sim_log("head %d", head);
      c4_eth_logs_cache_add_block(base_no + nb, B[nb].bloom, json_parse(B[nb].receipts));
      if (head - contiguous_from + 1 > (int) limit) contiguous_from = head - limit + 1;
    }
    else if (op == 4 && head >= 0) {
      // reorganisation of the last blocks: the same heights are announced again. Not while a query runs: its node answers
      // would already describe the new chain.
      bool busy = false;
      for (int i = 0; i < MAXQ; i++) busy |= Q[i].active;
      if (busy || !sim_fault("reorg", 700)) continue;
      int depth = 1 + sim_choose(3, "depth");
      if (depth > head - contiguous_from + 1) depth = head - contiguous_from + 1;
      for (int i = head - depth + 1; i <= head; i++) {
        make_block(i);
        sim_log("reorg: block %d again", i);
        c4_eth_logs_cache_add_block(base_no + i, B[i].bloom, json_parse(B[i].receipts));
      }
    }
    else if (op == 5 && head >= 0) {
      bool busy = false;
      for (int i = 0; i < MAXQ; i++) busy |= Q[i].active;
      if (busy || !sim_fault("duplicate-head-event", 500)) continue;
      int i = head - (int) sim_choose(2, "which");
      if (i < contiguous_from) i = head;
      sim_log("block %d announced twice", i);
      c4_eth_logs_cache_add_block(base_no + i, B[i].bloom, json_parse(B[i].receipts));
    }
    else if (head >= 0) {
      query_t* q = Q + sim_choose(MAXQ, "q");
      if (!q->active) start_query(q, head);
      step_query(q, limit, head);
    }
    if (head >= 0) {
      SIM_REQUIRE(c4_eth_logs_cache_first_block() == base_no + contiguous_from && c4_eth_logs_cache_last_block() == base_no + head, "logs-cache-range", "the cache claims blocks %d..%d, it has %d..%d",
                  (int) (c4_eth_logs_cache_first_block() - base_no), (int) (c4_eth_logs_cache_last_block() - base_no), contiguous_from, head);
      SIM_REQUIRE(c4_eth_logs_cache_has_range(base_no + contiguous_from, base_no + head), "logs-cache-range", "range not reported");
      SIM_REQUIRE(!c4_eth_logs_cache_has_range(base_no + contiguous_from - 1, base_no + head) && !c4_eth_logs_cache_has_range(base_no + head, base_no + head + 1), "logs-cache-range", "range too wide");
      int len = head - contiguous_from + 1;
      uint64_t h = sim_hash(0, &len, 4);
      for (int i = 0; i < MAXQ; i++) {
        int x = Q[i].active ? Q[i].rounds : 0;
        h     = sim_hash(h, &x, 4);
      }
      h = sim_hash(h, &limit, 4);
      int ph = head % limit;
      h = sim_hash(h, &ph, 4);
      sim_state(h);
    }
  }
  sim_heal();
  for (int i = 0; i < MAXQ; i++)
    for (int k = 0; k < 60 && Q[i].active; k++) step_query(Q + i, limit, head);
  for (int i = 0; i < MAXQ; i++) SIM_REQUIRE(!Q[i].active, "logs-cache-no-progress", "query %d never ends", i);
}
