#define _GNU_SOURCE
// P13, P14: the HTTP server. Real server code on a simulated libuv, libcurl and file system; scripted HTTP clients and upstream nodes.
#include "../net/net.h"
#include "scurl.h"
#include "server.h"
#include "sfs.h"
#include "suv.h"
#include "eth_conf.h"
#include <ctype.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

const char* sim_name = "srv";
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }

// ---- upstream nodes ----
enum { N_GOOD, N_SLOW, N_REFUSED, N_SILENT, N_5XX, N_429, N_LOST, N_NOMETHOD, N_GARBAGE };
static const char* NF[] = {"", "node_slow", "node_refused", "node_silent", "node_5xx", "node_429", "node_lost", "node_unsupported_method", "node_garbage"};
typedef struct {
  const char* host;
  char        type;
  int         mode;
  uint64_t    from, to; // the mode holds in this time
  uint32_t    rate;     // permille of requests concerned
} unode;
#define NN 9
static unode    ND[NN] = {{"rpc0", 'r'}, {"rpc1", 'r'}, {"rpc2", 'r'}, {"rpc3", 'r'}, {"beacon0", 'b'}, {"beacon1", 'b'}, {"beacon2", 'b'}, {"beacon3", 'b'}, {"cp0", 'c'}};
static int      upstream;
static bool     faulty, garbage; // faulty: the upstream faults of this run allow a request to fail
static uint64_t T0;
static int      H0;
static void     answer(const char* method, const char* url, const uint8_t* post, size_t n, const char* accept, sresp* o) {
  const char* h = strstr(url, "://");
  unode*      d = NULL;
  h             = h ? h + 3 : url;
  for (size_t i = 0; i < sizeof(ND) / sizeof(*ND); i++)
    if (!strncmp(h, ND[i].host, strlen(ND[i].host)) && h[strlen(ND[i].host)] == '/') d = ND + i;
  if (!d) {
    o->outcome = 1;
    return;
  }
  const char* path = h + strlen(d->host) + 1;
  upstream++;
  o->connect_ms = C(4, "connect") * 3;
  o->delay_ms   = 1 + C(4, "latency") * 40;
  int mode      = N_GOOD;
  if (d->mode && sim_now_ms >= d->from && sim_now_ms < d->to && sim_chance(d->rate, "node-fault")) mode = d->mode;
  if (mode) {
    sim_fault_count(NF[mode]);
    sim_log("%s %s", d->host, NF[mode]);
  }
  o->code = 200;
  switch (mode) {
    case N_SLOW: o->delay_ms += 500 + C(60, "slow") * 1000; break;
    case N_REFUSED: o->outcome = 1; return;
    case N_SILENT: o->outcome = 2; return;
    case N_5XX:
      o->code = (int[]) {500, 502, 503}[C(3, "5xx")];
      wb_f(&o->body, "%s", C(2, "html") ? "<html>upstream \"error\"</html>" : "");
      return;
    case N_429:
      o->code = 429;
      wb_f(&o->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32005,\"message\":\"rate limit\"}}");
      return;
    case N_NOMETHOD:
      if (d->type == 'r') {
        wb_f(&o->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32601,\"message\":\"the method does not exist\"}}");
        return;
      }
      o->code = 404;
      wb_f(&o->body, "{\"code\":404,\"message\":\"Not found\"}");
      return;
    case N_GARBAGE:
      garbage = true;
      wb_f(&o->body, "%s", (const char*[]) {"{\"result\":", "hello", "", "[]"}[C(4, "garbage")]);
      return;
  }
  if (d->type == 'b' && !strcmp(path, "eth/v1/node/version"))
    wb_f(&o->body, "{\"data\":{\"version\":\"%s/v1.2.3\"}}", (const char*[]) {"Nimbus", "Lodestar", "teku"}[(d - ND) % 3]);
  else if (d->type == 'r' && n && memmem(post, n, "web3_clientVersion", 18))
    wb_f(&o->body, "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"Geth/v1.13\"}");
  else {
    wresp r;
    w_node(W, d->type, path, post, n, accept && strstr(accept, "octet-stream"), &r);
    o->code = r.status;
    o->body = r.body;
  }
  if (mode == N_LOST) o->outcome = 3;
  sim_log("%s <- %s %s: %ld, %d bytes", d->host, method, path, o->code, o->body.n);
}

static void wj_print(wj* v, wbuf* o) {
  switch (v->t) {
    case 'o':
    case 'a':
      wb_f(o, "%s", v->t == 'o' ? "{" : "[");
      for (int i = 0; i < v->n; i++) {
        if (i) wb_f(o, ",");
        if (v->t == 'o') wb_f(o, "\"%s\":", v->keys[i]);
        wj_print(v->v[i], o);
      }
      wb_f(o, "%s", v->t == 'o' ? "}" : "]");
      break;
    case 's':
      wb_f(o, "\"");
      wb_put(o, v->s, strlen(v->s));
      wb_f(o, "\"");
      break;
    case 'z': wb_f(o, "null"); break;
    default: wb_f(o, "%s", v->s);
  }
}
// ---- http clients ----
enum { Q_PROOF, Q_RPC, Q_UNVERIFIED, Q_STATIC, Q_HEADER, Q_LCU, Q_UNKNOWN, Q_BADJSON, Q_TOOBIG, Q_BADHTTP };
typedef struct {
  int    kind;
  wreq   r;
  bool   has, must, full, answered, code, cs, before_term;
  char   id[32], path[200], ct[64];
  wbuf   bytes, body;
  int    status;
  size_t len;
} hreq;
typedef struct {
  speer    p;
  int      id, nq, cur, got;
  hreq     q[4];
  size_t   pos;
  bool     pipelined, hung, closed, announced, dialed, halfclose;
  int      hang_req;
  size_t   hang_pos;
  uint64_t hang_delay;
  wbuf     in;
} hcl;
static hcl  CL[8];
static int  ncl;
static bool term_sent, exiting;
static void send_some(void* a);
static void hang(void* a) {
  hcl* c = a;
  if (c->hung || c->closed || !c->dialed) return;
  c->hung = true;
  sim_log("client %d disconnects", c->id);
  suv_hangup(&c->p, C(3, "how") == 2 ? UV_ECONNRESET : UV_EOF);
}
static bool client_done(hcl* c) { return c->hung || c->closed || c->got == c->nq; }
static void on_data(speer* p, const uint8_t* d, size_t n) {
  hcl* c = p->ctx;
  wb_put(&c->in, d, n);
  for (;;) {
    char* e = c->in.n ? memmem(c->in.d, c->in.n, "\r\n\r\n", 4) : NULL;
    if (!e) {
      SIM_REQUIRE(c->in.n < 4 || !memcmp(c->in.d, "HTTP", 4), "http", "client %d receives something which is not a http response: %.*s", c->id, (int) (c->in.n > 80 ? 80 : c->in.n), (char*) c->in.d);
      return;
    }
    int hl = e - (char*) c->in.d + 4, st = 0;
    char head[1024];
    snprintf(head, sizeof(head), "%.*s", hl, (char*) c->in.d);
    SIM_REQUIRE(sscanf(head, "HTTP/1.1 %d", &st) == 1, "http", "client %d receives a malformed response: %.80s", c->id, head);
    char* cl = strcasestr(head, "\r\nContent-Length:");
    SIM_REQUIRE(cl, "http", "a response without length");
    uint32_t len = strtoul(cl + 17, NULL, 10);
    if (c->in.n < hl + len) return;
    bool announced = strcasestr(head, "connection: close") != NULL;
    SIM_REQUIRE(c->got < c->nq && (c->got < c->cur || (c->got == c->cur && st >= 400)), "extra-response", "client %d received the response %d (%d) without a request: %.*s", c->id, c->got + 1, st, (int) (len > 200 ? 200 : len), (char*) c->in.d + hl);
    hreq* q     = c->q + c->got++;
    q->answered = true;
    q->status   = st;
    char* ct    = strcasestr(head, "content-type: ");
    if (ct) sscanf(ct + 14, "%63[^\r]", q->ct);
    wb_put(&q->body, c->in.d + hl, len);
    c->announced |= announced;
    sim_log("client %d: response %d: %d %s, %u bytes%s", c->id, c->got, st, q->ct, len, announced ? ", close" : "");
    if (q->kind != Q_STATIC) sim_log_data("body", q->body.d, len);
    memmove(c->in.d, c->in.d + hl + len, c->in.n - hl - len);
    c->in.n -= hl + len;
    if (c->got < c->nq && !c->pipelined && c->cur == c->got && !c->hung) suv_at(C(5, "think") * 20, send_some, c);
  }
}
static void on_close(speer* p) {
  hcl* c    = p->ctx;
  c->closed = true;
  sim_log("client %d: closed by the server after %d of %d", c->id, c->got, c->nq);
}
static void send_some(void* a) {
  hcl* c = a;
  if (c->hung || c->closed || exiting) return;
  if (!c->dialed) {
    c->dialed     = true;
    c->p.ctx      = c;
    c->p.on_data  = on_data;
    c->p.on_close = on_close;
    suv_dial(&c->p);
    if (c->closed) return;
  }
  if (c->cur >= c->nq) return;
  hreq*  q   = c->q + c->cur;
  size_t rem = q->bytes.n - c->pos, k = rem;
  if (rem > 1 && C(3, "segment")) k = 1 + C(rem - 1 > 60000 ? 60000 : rem - 1, "bytes");
  if (c->hang_req == c->cur && !c->hang_delay) {
    if (c->pos >= c->hang_pos) return hang(c);
    if (c->pos + k > c->hang_pos) k = c->hang_pos - c->pos;
  }
  suv_send(&c->p, q->bytes.d + c->pos, k);
  c->pos += k;
  if (c->pos < q->bytes.n) {
    suv_at(C(4, "gap") * 15, send_some, c);
    return;
  }
  q->full = true;
  c->pos  = 0;
  if (c->hang_req == c->cur) suv_at(c->hang_delay, hang, c);
  sim_log("client %d: request %d sent", c->id, c->cur + 1);
  c->cur++;
  if (c->cur < c->nq && c->pipelined) suv_at(C(3, "gap") * 5, send_some, c);
}
static void http_post(hreq* q, const char* path, const wbuf* body) {
  static const char* EX[] = {"", "X-B3-TraceId: 0123456789abcdef\r\nX-B3-SpanId: 0123456789abcdef\r\nX-B3-Sampled: 1\r\n", "Accept: */*\r\n", "Accept: application/octet-stream\r\nAccept: */*\r\nX-C4-Trace-Level: debug\r\n"};
  bool               chunked = C(5, "chunked") == 4;
  strcpy(q->path, path);
  wb_f(&q->bytes, "POST %s HTTP/1.1\r\nHost: prover\r\n%sContent-Type: application/json\r\n", path, EX[C(4, "headers")]);
  if (!chunked) {
    wb_f(&q->bytes, "Content-Length: %u\r\n\r\n", body->n);
    wb_put(&q->bytes, body->d, body->n);
    return;
  }
  wb_f(&q->bytes, "Transfer-Encoding: chunked\r\n\r\n");
  for (uint32_t p = 0; p < body->n;) {
    uint32_t k = 1 + C(body->n - p, "chunk");
    wb_f(&q->bytes, "%x\r\n", k);
    wb_put(&q->bytes, body->d + p, k);
    wb_f(&q->bytes, "\r\n");
    p += k;
  }
  wb_f(&q->bytes, "0\r\n\r\n");
}
static void http_get(hreq* q, const char* path) {
  strcpy(q->path, path);
  wb_f(&q->bytes, "GET %s HTTP/1.1\r\nHost: prover\r\n%s\r\n", path, C(3, "headers") == 2 ? "Accept: application/octet-stream\r\n" : "");
}
static wbuf client_state;
static void make(hreq* q) {
  static const char* S[] = {"/health", "/health", "/metrics", "/version", "/openapi.yaml"};
  int kind = C(12, "request");
  q->kind  = kind < 4 ? Q_PROOF : kind < 6 ? Q_RPC : kind < 8 ? Q_UNVERIFIED : kind - 5;
  if (kind >= 8) q->kind = kind == 8 ? Q_STATIC : kind == 9 ? Q_HEADER : kind == 10 ? (C(2, "lcu") ? Q_LCU : Q_HEADER) : (int[]) {Q_UNKNOWN, Q_BADJSON, Q_TOOBIG, Q_BADHTTP}[C(4, "bad")];
  wbuf b = {0};
  char p[200];
  switch (q->kind) {
    case Q_PROOF:
    case Q_RPC:
    case Q_UNVERIFIED:
      gen_request(&q->r, 31, W->head - 20, W->head - 1);
      q->has  = has_answer(&q->r);
      q->must = q->has && req_provable(&q->r, w_period(W, W->b[W->head].slot)) && !(q->r.kind == K_LOGS && empty_logs(&q->r));
      static const char* ID[] = {"1", "\"a-b\"", "77777777", "null"};
      strcpy(q->id, ID[C(4, "id")]);
      wb_f(&b, "{\"jsonrpc\":\"2.0\",\"id\":%s,\"method\":\"%s\",\"params\":%s", q->id, q->r.method, q->r.args);
      if (q->kind == Q_PROOF) {
        q->code = C(2, "code");
        if (q->code) wb_f(&b, ",\"include_code\":true");
        if (client_state.n && C(2, "c4")) {
          q->cs = true;
          wb_f(&b, ",\"c4\":\"0x");
          for (uint32_t i = 0; i < client_state.n; i++) wb_f(&b, "%02x", client_state.d[i]);
          wb_f(&b, "\"");
        }
      }
      wb_f(&b, "}");
      http_post(q, q->kind == Q_PROOF ? (C(2, "path") ? "/" : "/proof") : q->kind == Q_RPC ? "/rpc" : "/unverified_rpc", &b);
      break;
    case Q_STATIC: http_get(q, S[C(5, "static")]); break;
    case Q_HEADER:
      if (C(4, "head") == 3)
        http_get(q, "/eth/v1/beacon/headers/head");
      else {
        sprintf(p, "/eth/v1/beacon/headers/%llu", (unsigned long long) W->b[W->head - C(20, "slot")].slot);
        http_get(q, p);
      }
      break;
    case Q_LCU:
      sprintf(p, "/eth/v1/beacon/light_client/updates?start_period=%u&count=%u", w_period(W, W->b[W->head].slot) - C(3, "period"), 1 + C(3, "count"));
      http_get(q, p);
      break;
    case Q_UNKNOWN: http_get(q, C(2, "path") ? "/nothing/here" : "/favicon.ico"); break;
    case Q_BADJSON: {
      static const char* B[] = {"{\"method\":\"eth_getBalance\",\"params\":", "", "hello", "[1,2,3]", "{\"method\":\"eth_unknown\",\"params\":[]}", "{\"method\":5,\"params\":[]}", "{\"method\":\"eth_getBalance\",\"params\":{}}", "{\"method\":\"eth_getBalance\",\"params\":[]}", "{\"method\":\"eth_getBlockByNumber\",\"params\":[\"0x\"]}"};
      wb_f(&b, "%s", B[C(9, "body")]);
      http_post(q, C(2, "path") ? "/rpc" : "/proof", &b);
      break;
    }
    case Q_TOOBIG:
      strcpy(q->path, "/proof");
      wb_f(&q->bytes, "POST /proof HTTP/1.1\r\nHost: x\r\nContent-Length: %llu\r\n\r\n", 10485761ULL + C(1000, "size") * 10000000ULL);
      break;
    case Q_BADHTTP:
      strcpy(q->path, "?");
      wb_f(&q->bytes, "%s", (const char*[]) {"GET / HTTX/1.1\r\n\r\n", "BREW /pot HTTP/1.1\r\n\r\n", "\x16\x03\x01\x02\x01\x01", "GET /health HTTP/1.1\r\nBad Header\r\n\r\n"}[C(4, "bad")]);
      break;
  }
  if (q->kind == Q_LCU) q->must = false;
  sim_log("request %s %s %s", q->path, q->r.method, q->r.args);
}
// a signal arrives: requests the server already works on must be answered
static void terminate(int sig) {
  term_sent = true;
  sim_log("SIGTERM");
  for (int i = 0; i < ncl; i++) {
    hcl*   c   = CL + i;
    size_t end = 0;
    if (!c->dialed || c->hung || c->closed || c->announced || c->got >= c->nq) continue;
    for (int k = 0; k <= c->got; k++) end += c->q[k].bytes.n;
    c->q[c->got].before_term = suv_delivered(&c->p) >= end;
  }
  suv_signal(sig);
}
static uint64_t deadline;
static int      quiet;
static void     supervise(void* a) {
  bool done = true;
  for (int i = 0; i < ncl; i++) done &= client_done(CL + i) || !CL[i].dialed;
  for (int i = 0; i < ncl; i++)
    if (!CL[i].dialed && !term_sent) done = false;
  if (done && scurl_open == 0 && http_server.stats.open_requests == 0) quiet++;
  else
    quiet = 0;
  if (sim_now_ms > deadline) {
    for (int i = 0; i < ncl; i++) {
      hcl* c = CL + i;
      if (!client_done(c))
        sim_violation("no-response", "client %d waits for the response to request %d (%s %s %s, %s sent) since %llu s", c->id, c->got + 1, c->q[c->got].path, c->q[c->got].r.method, c->q[c->got].r.args, c->q[c->got].full ? "completely" : "not", (unsigned long long) (sim_now_ms - T0) / 1000);
    }
    SIM_REQUIRE(http_server.stats.open_requests == 0, "open-requests", "%llu requests count as open long after all were answered (%d transfers)", (unsigned long long) http_server.stats.open_requests, scurl_open);
  }
  if (quiet > 3 || (sim_now_ms > deadline && done)) {
    if (!term_sent) {
      terminate(C(2, "sig") ? 2 : 15);
    }
    else
      return;
  }
  suv_at(1000, supervise, NULL);
}
static void term_early(void* a) {
  if (term_sent) return;
  sim_fault_count("sigterm");
  terminate(15);
}
static void check_static(hreq* q) {
  SIM_REQUIRE(q->status == 200, "static", "%s is answered with %d", q->path, q->status);
  if (!strncmp(q->path, "/health", 7)) {
    wj* v = wj_parse((char*) q->body.d, q->body.n);
    SIM_REQUIRE(v && v->t == 'o' && wj_get(v, "status"), "static", "%s is answered with %.200s", q->path, (char*) q->body.d);
  }
  SIM_REQUIRE(q->body.n > 0, "static", "%s is empty", q->path);
}
static const char* json_error(hreq* q) {
  wj* v = wj_parse((char*) q->body.d, q->body.n);
  return v && v->t == 'o' && wj_get(v, "error") ? NULL : "the error is no JSON object with an error";
}
static void check_answers(bool down) {
  char cp[67];
  set_checkpoint(cp, W->b[W->head].final_root);
  for (int i = 0; i < ncl; i++) {
    hcl* c = CL + i;
    for (int k = 0; k < c->nq; k++) {
      hreq* q = c->q + k;
      wb_u8(&q->body, 0);
      q->body.n--;
      if (!q->answered) continue;
      if (q->status == 503 && term_sent && !q->before_term) continue;
      switch (q->kind) {
        case Q_PROOF:
          if (q->status == 200) {
            wout v;
            process_restart();
            static sstore st;
            memset(&st, 0, sizeof(st));
            st.crash_at = -1;
            store_install(&st, 4);
            run_verify(&q->r, q->body.d, q->body.n, cp, honest_answer, 40, &v);
            sim_stat("proofs", 1);
            if (q->r.kind == K_LOGS && empty_logs(&q->r)) break; // nothing to prove
            SIM_REQUIRE(v.ok, "proof", "the proof of %s %s does not verify: %s", q->r.method, q->r.args, v.error);
            const char* d = check_answer(&q->r, v.result, v.nresult);
            SIM_REQUIRE(!d, "proof", "the proof of %s %s has a wrong result: %s", q->r.method, q->r.args, d);
          }
          else {
            const char* e = json_error(q);
            SIM_REQUIRE(!e, "error-body", "%s: %.300s (%d)", e, (char*) q->body.d, q->status);
            SIM_REQUIRE(!q->must || faulty, "lost-answer", "%s %s fails with %d without any fault: %.300s", q->r.method, q->r.args, q->status, (char*) q->body.d);
          }
          break;
        case Q_RPC: {
          wj* v = wj_parse((char*) q->body.d, q->body.n);
          SIM_REQUIRE(v && v->t == 'o', "rpc", "the response of %s %s is no JSON object (%d): %.300s", q->r.method, q->r.args, q->status, (char*) q->body.d);
          wj* r = wj_get(v, "result");
          if (r) {
            wbuf t = {0};
            wj_print(r, &t);
            const char* d = check_answer(&q->r, (char*) t.d, t.n);
            SIM_REQUIRE(!d, "rpc", "/rpc answers %s %s with a wrong result: %s", q->r.method, q->r.args, d);
            wbuf id = {0};
            if (wj_get(v, "id")) wj_print(wj_get(v, "id"), &id);
            SIM_REQUIRE(id.n == strlen(q->id) && !memcmp(id.d, q->id, id.n), "rpc-id", "/rpc answers the id %s with %.*s", q->id, (int) id.n, (char*) id.d);
            sim_stat("rpc results", 1);
          }
          else {
            SIM_REQUIRE(wj_get(v, "error"), "rpc", "neither result nor error: %.300s", (char*) q->body.d);
            SIM_REQUIRE(!q->must || faulty, "lost-answer", "/rpc %s %s fails with %d without any fault: %.300s", q->r.method, q->r.args, q->status, (char*) q->body.d);
          }
          break;
        }
        case Q_UNVERIFIED:
          if (q->status == 200) {
            wj* v = wj_parse((char*) q->body.d, q->body.n);
            wj* r = v && v->t == 'o' ? wj_get(v, "result") : NULL;
            if (r && q->has) {
              wbuf t = {0};
              wj_print(r, &t);
              const char* d = check_answer(&q->r, (char*) t.d, t.n);
              SIM_REQUIRE(!d, "unverified", "/unverified_rpc answers %s %s with another result than the node: %s", q->r.method, q->r.args, d);
              sim_stat("unverified results", 1);
            }
            if (!faulty && q->has) SIM_REQUIRE(r, "lost-answer", "/unverified_rpc %s %s has no result: %.300s", q->r.method, q->r.args, (char*) q->body.d);
          }
          else
            SIM_REQUIRE(!q->has || faulty, "lost-answer", "/unverified_rpc %s %s fails with %d without any fault: %.300s", q->r.method, q->r.args, q->status, (char*) q->body.d);
          break;
        case Q_STATIC: check_static(q); break;
        case Q_HEADER:
          if (q->status == 200 && garbage) break;
          if (q->status == 200) {
            int  now  = W->head;
            bool same = false;
            for (W->head = H0; !same && W->head <= now; W->head++) { // any of the heads seen in this run
              wresp r;
              w_node(W, 'b', q->path + 1, NULL, 0, false, &r);
              same = r.body.n == q->body.n && !memcmp(r.body.d, q->body.d, r.body.n);
            }
            W->head = now;
            SIM_REQUIRE(same, "proxy", "%s returns another header than the beacon node: %.300s", q->path, (char*) q->body.d);
            sim_stat("headers", 1);
          }
          else
            SIM_REQUIRE(faulty, "lost-answer", "%s fails with %d without any fault: %.300s", q->path, q->status, (char*) q->body.d);
          break;
        case Q_LCU: break;
        case Q_TOOBIG: SIM_REQUIRE(q->status == 413, "limits", "a body of more than 10 MB is answered with %d: %.100s", q->status, (char*) q->body.d); break;
        case Q_BADHTTP: SIM_REQUIRE(q->status == 400, "limits", "a malformed request is answered with %d: %.100s", q->status, (char*) q->body.d); break;
        default: SIM_REQUIRE(q->status >= 400 || (q->kind == Q_BADJSON && !strcmp(q->path, "/rpc") && !json_error(q)), "bad-request", "%s is answered with %d: %.300s", q->path, q->status, (char*) q->body.d);
      }
    }
  }
}
static char* node_list(const char* name, int n) {
  wbuf b = {0};
  for (int i = 0; i < n; i++) wb_f(&b, "%shttp://%s%d/", i ? "," : "", name, i);
  wb_u8(&b, 0);
  return (char*) b.d;
}
static void head_moves(void* a) {
  if (exiting || W->head >= W->head_max) return;
  W->head++;
  sim_log("new head %llu", (unsigned long long) W->b[W->head].slot);
  sim_fault_count("head_moved");
  suv_at(W->slot_secs * 1000 * (W->b[W->head + (W->head < W->head_max)].slot - W->b[W->head].slot), head_moves, NULL);
}
static server_instance_t SRV;
void sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCFG; i++) world_get(i);
  setenv("C4_STATES_DIR", "/sim/states", 1);
  process_snapshot();
}
void sim_run(const sim_cfg_t* cfg) {
  W          = world_get(C(NCFG, "cfg"));
  W->head    = W->head_min + C(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  T0         = sim_now_ms;
  H0         = W->head;
  static sstore st = {.crash_at = -1};
  store_install(&st, 4);
  scurl_answer = answer;
  sfs_mkdir("/sim");
  sfs_mkdir("/sim/states");
  bool p14 = sim_is("P14");
  int  nr = p14 ? 2 + C(3, "rpcs") : 1 + (C(3, "rpcs") > 0), nb = p14 ? 2 + C(3, "beacons") : 1 + (C(3, "beacons") > 0);
  http_server.host              = "127.0.0.1";
  http_server.port              = 8090;
  http_server.chain_id          = W->chain_id;
  http_server.rpc_nodes         = node_list("rpc", nr);
  http_server.beacon_nodes      = node_list("beacon", nb);
  http_server.checkpointz_nodes = "http://cp0/";
  http_server.prover_nodes      = "";
  http_server.memcached_host    = "";
  http_server.rpc_head_poll_enabled = C(2, "poller");
  http_server.prover_flags |= 1 << 6;
  eth_config.stream_beacon_events = 0;
  bool plain_only = p14 && C(4, "plain");
  int  good_r = plain_only ? (int) C(nr, "good-rpc") : -1, good_b = plain_only ? 4 + (int) C(nb, "good-beacon") : -1;
  if (p14 || C(3, "upstream-faults")) {
    for (int i = 0; i < NN; i++) {
      int idx = i < 4 ? i : i - 4;
      if (i < 8 && idx >= (i < 4 ? nr : nb)) continue;
      if (i == good_r || i == good_b || (p14 && plain_only && i == 8) || !C(p14 ? 3 : 2, "faulty")) continue;
      faulty     = true;
      ND[i].mode = 1 + C(plain_only ? (i < 4 ? 7 : 6) : 8, "mode");
      ND[i].from = sim_now_ms + (C(2, "late") ? C(20, "from") * 500 : 0);
      ND[i].to   = ND[i].from + 1000 * (1 + C(120, "to"));
      ND[i].rate = C(2, "rate") ? 1000 : 300;
    }
    // one node of each kind without faults is enough as long as the others fail in a way that can be noticed
    bool ok[2] = {0}, plain = !ND[8].mode;
    for (int i = 0; i < nr; i++) ok[0] |= !ND[i].mode;
    for (int i = 0; i < nb; i++) ok[1] |= !ND[4 + i].mode;
    for (int i = 0; i < NN; i++)
      if (ND[i].mode == N_GARBAGE || (ND[i].mode == N_NOMETHOD && ND[i].type != 'r')) plain = false;
    if (faulty && ok[0] && ok[1] && plain) {
      faulty = false;
      sim_stat("one good node of each kind", 1);
    }
  }
  ncl = 1 + C(4, "clients");
  for (int i = 0; i < ncl; i++) {
    hcl* c     = CL + i;
    c->id      = i;
    c->nq      = 1 + C(4, "requests");
    c->hang_req = -1;
    for (int k = 0; k < c->nq; k++) {
      hreq* twin = i && C(4, "twin") == 3 ? CL[0].q + C(CL[0].nq, "twin-of") : NULL;
      if (twin) { // the same request at about the same time
        c->q[k] = *twin;
        sim_stat("equal requests", 1);
      }
      else
        make(c->q + k);
    }
    c->pipelined = C(4, "pipelined") == 3;
    if (C(4, "disconnect") == 3) {
      c->hang_req = C(c->nq, "at");
      sim_fault_count("client_disconnect");
      if (C(2, "when"))
        c->hang_delay = 1 + C(100, "after") * 5;
      else
        c->hang_pos = C(c->q[c->hang_req].bytes.n, "byte");
    }
    suv_at(C(8, "start") * 200, send_some, c);
  }
  if (C(2, "head-moves")) suv_at(C(100, "first-head") * 50, head_moves, NULL);
  deadline = sim_now_ms + 1500 * 1000;
  suv_at(1000, supervise, NULL);
  if (C(6, "sigterm") == 5) suv_at(C(100, "at") * 50, term_early, NULL);
  int rc = c4_server_start(&SRV, 0);
  if (rc) sim_violation("start", "the server does not start");
  uv_run(SRV.loop, UV_RUN_DEFAULT);
  SIM_REQUIRE(term_sent, "stopped", "the server stopped without being asked to");
  sim_log("stop, %d handles", suv_handles());
  for (int i = 0; i < ncl; i++) {
    hcl* c = CL + i;
    if (c->hung) continue;
    for (int k = 0; k < c->nq; k++)
      if (c->q[k].before_term && !c->q[k].answered) sim_violation("no-response", "client %d never received the response to request %d %s", i, k + 1, c->q[k].path);
  }
  exiting = true;
  c4_server_stop(&SRV);
  sim_log("stopped, %d handles", suv_handles());
  sim_stat("upstream", upstream);
  check_answers(false);
}
