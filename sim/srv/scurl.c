#define CURL_DISABLE_TYPECHECK
#include "scurl.h"
#include "../core/sim.h"
#include "suv.h"
#include <curl/curl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
#undef curl_multi_setopt
#undef curl_share_setopt
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
void (*scurl_answer)(const char* method, const char* url, const uint8_t* post, size_t n, const char* accept, sresp* out);
int scurl_open;

enum { E_IDLE, E_ADDED, E_CONNECTING, E_WAITING, E_DONE };
typedef struct smulti smulti;
typedef struct seasy {
  uint32_t           magic;
  char *             url, *method;
  const uint8_t*     post;
  long               npost;
  struct curl_slist* headers;
  curl_write_callback fn;
  void *             fndata, *priv;
  uint64_t           timeout, t0, due, expires;
  smulti*            multi;
  int                state, fd, what;
  void*              sockp;
  sresp              resp;
  uint32_t           pos;
  CURLcode           result;
  long               code;
  struct seasy*      next; // in the multi
} seasy;
struct smulti {
  uint32_t                magic;
  seasy*                  first;
  curl_socket_callback    sock;
  void*                   sockdata;
  curl_multi_timer_callback timer;
  void*                   timerdata;
  long                    last_timeout;
  CURLMsg                 msg;
  smulti*                 next;
};
static smulti* multis;
static bool    fds[4096];

static seasy* E(CURL* h) {
  seasy* e = (seasy*) h;
  if (!e || e->magic != 0xea51) sim_violation("handle", "curl is called with something which is not an easy handle");
  return e;
}
static smulti* M(CURLM* h) {
  smulti* m = (smulti*) h;
  if (!m || m->magic != 0xc0de) sim_violation("handle", "curl is called with something which is not a multi handle");
  return m;
}
CURLcode curl_global_init(long f) { return CURLE_OK; }
void     curl_global_cleanup(void) {}
CURL*    curl_easy_init(void) {
  seasy* e = calloc(1, sizeof(seasy));
  e->magic = 0xea51;
  e->fd    = -1;
  e->npost = -1;
  return e;
}
const char* curl_easy_strerror(CURLcode c) {
  switch (c) {
    case CURLE_OK: return "No error";
    case CURLE_COULDNT_CONNECT: return "Couldn't connect to server";
    case CURLE_OPERATION_TIMEDOUT: return "Timeout was reached";
    case CURLE_PARTIAL_FILE: return "Transferred a partial file";
    case CURLE_GOT_NOTHING: return "Server returned nothing (no headers, no data)";
    case CURLE_WRITE_ERROR: return "Failed writing received data to disk/application";
    default: return "Error";
  }
}
const char* curl_multi_strerror(CURLMcode c) { return c ? "Invalid handle" : "No error"; }
CURLcode    curl_easy_setopt(CURL* h, CURLoption o, ...) {
  seasy*  e = E(h);
  va_list a;
  va_start(a, o);
  switch (o) {
    case CURLOPT_URL: {
      char* u = va_arg(a, char*);
      free(e->url);
      e->url = u ? strdup(u) : NULL;
      break;
    }
    case CURLOPT_CUSTOMREQUEST: {
      char* u = va_arg(a, char*);
      free(e->method);
      e->method = u ? strdup(u) : NULL;
      break;
    }
    case CURLOPT_POSTFIELDS: e->post = va_arg(a, void*); break;
    case CURLOPT_POSTFIELDSIZE: e->npost = va_arg(a, long); break;
    case CURLOPT_HTTPHEADER: e->headers = va_arg(a, struct curl_slist*); break;
    case CURLOPT_WRITEFUNCTION: e->fn = va_arg(a, curl_write_callback); break;
    case CURLOPT_WRITEDATA: e->fndata = va_arg(a, void*); break;
    case CURLOPT_PRIVATE: e->priv = va_arg(a, void*); break;
    case CURLOPT_TIMEOUT: e->timeout = va_arg(a, long) * 1000; break;
    case CURLOPT_TIMEOUT_MS: e->timeout = va_arg(a, long); break;
    default: break;
  }
  va_end(a);
  return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* h, CURLINFO i, ...) {
  seasy*  e = E(h);
  va_list a;
  va_start(a, i);
  switch (i) {
    case CURLINFO_PRIVATE: *va_arg(a, void**) = e->priv; break;
    case CURLINFO_RESPONSE_CODE: *va_arg(a, long*) = e->code; break;
    case CURLINFO_HTTP_VERSION: *va_arg(a, long*) = CURL_HTTP_VERSION_1_1; break;
    case CURLINFO_NUM_CONNECTS: *va_arg(a, long*) = 1; break;
    case CURLINFO_CONNECT_TIME:
    case CURLINFO_APPCONNECT_TIME: *va_arg(a, double*) = e->resp.connect_ms / 1000.0; break;
    case CURLINFO_EFFECTIVE_URL: *va_arg(a, char**) = e->url; break;
    default: sim_error("curl_easy_getinfo %d is not simulated", i);
  }
  va_end(a);
  return CURLE_OK;
}
static int take_fd(void) {
  for (int i = 100; i < 4096; i++)
    if (!fds[i]) {
      fds[i] = true;
      return i;
    }
  sim_error("no more sockets");
  return -1;
}
static void tell_socket(seasy* e, int what) {
  smulti* m = e->multi;
  if (what == e->what) return;
  e->what = what;
  if (m->sock) m->sock(e, e->fd, what, m->sockdata, e->sockp);
}
static void close_socket(seasy* e) {
  if (e->fd < 0) return;
  if (e->what != CURL_POLL_REMOVE && e->what) tell_socket(e, CURL_POLL_REMOVE);
  fds[e->fd] = false;
  e->fd      = -1;
  e->what    = 0;
  e->sockp   = NULL;
}
static uint64_t m_next(smulti* m, bool sockets) {
  uint64_t t = ~0ull;
  for (seasy* e = m->first; e; e = e->next) {
    if (e->state == E_ADDED && e->due < t) t = e->due;
    if (e->state > E_ADDED && e->state < E_DONE) {
      if (e->expires < t) t = e->expires;
      if (sockets && e->due < t) t = e->due;
    }
  }
  return t;
}
static void update_timer(smulti* m) {
  uint64_t t  = m_next(m, false);
  long     ms = t == ~0ull ? -1 : t > sim_now_ms ? (long) (t - sim_now_ms) : 0;
  if (ms == m->last_timeout && ms != 0) return;
  m->last_timeout = ms;
  if (m->timer) m->timer(m, ms, m->timerdata);
}
static void finish(seasy* e, CURLcode r) {
  e->state  = E_DONE;
  e->result = r;
  scurl_open--;
  close_socket(e);
  sim_log("curl %s -> %d %ld (%u bytes)", e->url, r, e->code, e->pos);
}
static void send_request(seasy* e) {
  size_t n      = e->post ? e->npost >= 0 ? (size_t) e->npost : strlen((char*) e->post) : 0;
  char   accept[200] = {0};
  for (struct curl_slist* s = e->headers; s; s = s->next) {
    if (!strncasecmp(s->data, "Accept:", 7)) snprintf(accept, sizeof(accept), "%s", s->data + 7);
    if (strlen(s->data) > 1000) sim_error("header");
  }
  uint8_t* copy = malloc(n + 1); // the data belong to the caller and are read when they are sent
  if (n) memcpy(copy, e->post, n);
  copy[n] = 0;
  scurl_answer(e->method ? e->method : e->post ? "POST" : "GET", e->url, copy, n, accept, &e->resp);
  free(copy);
}
// continues the transfer of a ready socket
static void work(seasy* e) {
  if (sim_now_ms >= e->expires) return finish(e, CURLE_OPERATION_TIMEDOUT);
  if (sim_now_ms < e->due) return;
  if (e->state == E_CONNECTING) {
    send_request(e);
    if (e->resp.outcome == 1) return finish(e, CURLE_COULDNT_CONNECT);
    e->state = E_WAITING;
    e->due   = e->resp.outcome == 2 ? ~0ull : sim_now_ms + e->resp.delay_ms;
    tell_socket(e, CURL_POLL_IN);
    return;
  }
  if (e->state == E_WAITING) {
    uint32_t left = e->resp.body.n - e->pos, n = left;
    if (e->resp.outcome == 3 && e->pos >= e->resp.body.n / 2) return finish(e, e->pos ? CURLE_PARTIAL_FILE : CURLE_GOT_NOTHING);
    if (n > 1 && sim_chance(150, "response-part")) n = 1 + C(n - 1, "response-part");
    if (n > 16384) n = 16384;
    e->code = e->resp.code;
    if (n && e->fn) {
      char* tmp = malloc(n);
      memcpy(tmp, e->resp.body.d + e->pos, n);
      size_t r = e->fn(tmp, 1, n, e->fndata);
      free(tmp);
      if (r != n) return finish(e, CURLE_WRITE_ERROR);
    }
    e->pos += n;
    if (e->pos >= e->resp.body.n && e->resp.outcome != 3 && !e->resp.stream) return finish(e, CURLE_OK);
    e->due = sim_now_ms + (sim_chance(300, "part-delay") ? C(200, "part-delay") : 0);
    if (e->resp.stream && e->pos >= e->resp.body.n) e->due = ~0ull;
  }
}
static void start(seasy* e) {
  e->t0      = sim_now_ms;
  e->expires = e->timeout ? sim_now_ms + e->timeout : ~0ull;
  e->state   = E_CONNECTING;
  e->fd      = take_fd();
  e->due     = sim_now_ms + (sim_chance(200, "connect-delay") ? C(100, "connect-delay") : 0);
  tell_socket(e, CURL_POLL_OUT);
}
CURLM* curl_multi_init(void) {
  smulti* m       = calloc(1, sizeof(smulti));
  m->magic        = 0xc0de;
  m->last_timeout = -1;
  m->next         = multis;
  multis          = m;
  return m;
}
CURLMcode curl_multi_setopt(CURLM* h, CURLMoption o, ...) {
  smulti* m = M(h);
  va_list a;
  va_start(a, o);
  switch (o) {
    case CURLMOPT_SOCKETFUNCTION: m->sock = va_arg(a, curl_socket_callback); break;
    case CURLMOPT_SOCKETDATA: m->sockdata = va_arg(a, void*); break;
    case CURLMOPT_TIMERFUNCTION: m->timer = va_arg(a, curl_multi_timer_callback); break;
    case CURLMOPT_TIMERDATA: m->timerdata = va_arg(a, void*); break;
    default: break;
  }
  va_end(a);
  return CURLM_OK;
}
CURLMcode curl_multi_add_handle(CURLM* h, CURL* c) {
  smulti* m = M(h);
  seasy*  e = E(c);
  if (e->multi) return CURLM_ADDED_ALREADY;
  e->multi = m;
  e->state = E_ADDED;
  e->due   = sim_now_ms;
  e->pos   = 0;
  e->code  = 0;
  scurl_open++;
  e->next       = NULL;
  seasy** p     = &m->first;
  while (*p) p = &(*p)->next;
  *p = e;
  update_timer(m);
  return CURLM_OK;
}
CURLMcode curl_multi_remove_handle(CURLM* h, CURL* c) {
  smulti* m = M(h);
  seasy*  e = E(c);
  if (e->multi != m) return CURLM_BAD_EASY_HANDLE;
  if (e->state != E_DONE) scurl_open--;
  close_socket(e);
  seasy** p = &m->first;
  while (*p && *p != e) p = &(*p)->next;
  if (*p) *p = e->next;
  e->multi = NULL;
  e->state = E_IDLE;
  update_timer(m);
  return CURLM_OK;
}
void curl_easy_cleanup(CURL* c) {
  if (!c) return;
  seasy* e = E(c);
  if (e->multi) curl_multi_remove_handle(e->multi, e);
  e->magic = 0;
  free(e->url);
  free(e->method);
  free(e);
}
CURLMcode curl_multi_cleanup(CURLM* h) {
  smulti* m = M(h);
  while (m->first) curl_multi_remove_handle(m, m->first);
  smulti** p = &multis;
  while (*p && *p != m) p = &(*p)->next;
  if (*p) *p = m->next;
  m->magic = 0;
  free(m);
  return CURLM_OK;
}
CURLMcode curl_multi_assign(CURLM* h, curl_socket_t s, void* p) {
  smulti* m = M(h);
  for (seasy* e = m->first; e; e = e->next)
    if (e->fd == s) {
      e->sockp = p;
      return CURLM_OK;
    }
  return CURLM_BAD_SOCKET;
}
CURLMsg* curl_multi_info_read(CURLM* h, int* left) {
  smulti* m = M(h);
  int     n = 0;
  seasy*  f = NULL;
  for (seasy* e = m->first; e; e = e->next)
    if (e->state == E_DONE && e->what != -2) {
      if (!f) f = e;
      else n++;
    }
  *left = n;
  if (!f) return NULL;
  f->what            = -2; // reported
  m->msg.msg         = CURLMSG_DONE;
  m->msg.easy_handle = f;
  m->msg.data.result = f->result;
  return &m->msg;
}
static int running(smulti* m) {
  int n = 0;
  for (seasy* e = m->first; e; e = e->next) n += e->state != E_DONE;
  return n;
}
static void expire(smulti* m) {
  for (seasy* e = m->first; e; e = e->next) {
    if (e->state == E_ADDED) start(e);
    else if (e->state > E_ADDED && e->state < E_DONE && sim_now_ms >= e->expires) finish(e, CURLE_OPERATION_TIMEDOUT);
  }
}
CURLMcode curl_multi_socket_action(CURLM* h, curl_socket_t s, int ev, int* run) {
  smulti* m = M(h);
  if (s == CURL_SOCKET_TIMEOUT) m->last_timeout = -2, expire(m);
  else
    for (seasy* e = m->first; e; e = e->next)
      if (e->fd == s && e->state < E_DONE) {
        work(e);
        break;
      }
  update_timer(m);
  if (run) *run = running(m);
  return CURLM_OK;
}
CURLMcode curl_multi_perform(CURLM* h, int* run) {
  smulti* m = M(h);
  expire(m);
  for (seasy* e = m->first; e; e = e->next)
    if (e->state > E_ADDED && e->state < E_DONE) work(e);
  if (run) *run = running(m);
  return CURLM_OK;
}
CURLMcode curl_multi_wait(CURLM* h, struct curl_waitfd* w, unsigned n, int ms, int* numfds) {
  smulti*  m = M(h);
  uint64_t t = m_next(m, true), end = sim_now_ms + ms;
  if (t > end) t = end;
  if (t > sim_now_ms) sim_advance(t - sim_now_ms);
  if (numfds) *numfds = running(m);
  return CURLM_OK;
}
CURLSH*     curl_share_init(void) { return malloc(1); }
CURLSHcode  curl_share_setopt(CURLSH* s, CURLSHoption o, ...) { return CURLSHE_OK; }
CURLSHcode  curl_share_cleanup(CURLSH* s) { return free(s), CURLSHE_OK; }
struct curl_slist* curl_slist_append(struct curl_slist* l, const char* s) {
  struct curl_slist* n = malloc(sizeof(*n));
  n->data              = strdup(s);
  n->next              = NULL;
  if (!l) return n;
  struct curl_slist* p = l;
  while (p->next) p = p->next;
  p->next = n;
  return l;
}
void curl_slist_free_all(struct curl_slist* l) {
  while (l) {
    struct curl_slist* n = l->next;
    free(l->data);
    free(l);
    l = n;
  }
}
// readiness of the sockets
int scurl_ready(int fd, int events) {
  for (smulti* m = multis; m; m = m->next)
    for (seasy* e = m->first; e; e = e->next)
      if (e->fd == fd && e->state > E_ADDED && e->state < E_DONE && e->due <= sim_now_ms) {
        if (e->state == E_CONNECTING && (events & UV_WRITABLE)) return UV_WRITABLE;
        if (e->state == E_WAITING && (events & UV_READABLE)) return UV_READABLE;
      }
  return 0;
}
uint64_t scurl_next(void) {
  uint64_t t = ~0ull;
  for (smulti* m = multis; m; m = m->next)
    for (seasy* e = m->first; e; e = e->next)
      if (e->state > E_ADDED && e->state < E_DONE && e->due > sim_now_ms && e->due < t) t = e->due;
  return t;
}
void scurl_reset(void) {
  multis     = NULL;
  scurl_open = 0;
  memset(fds, 0, sizeof(fds));
}
