#include "suv.h"
#include "../core/sim.h"
#include "sfs.h"
#include <arpa/inet.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
typedef struct sconn sconn;
typedef struct swrite {
  uv_write_t*    req;
  uv_buf_t*      bufs;
  int            n, done, status;
  size_t         off; // in the current buffer
  uv_write_cb    cb;
  struct swrite* next;
} swrite;
typedef struct sh {
  uv_handle_t* h;
  uint64_t     id;
  int          type;
  bool         closing, active;
  uv_close_cb  close_cb;
  // timer
  uv_timer_cb timer_cb;
  uint64_t    due, repeat, order;
  // stream
  sconn*           conn;
  bool             reading, listening;
  uv_alloc_cb      alloc;
  uv_read_cb       read_cb;
  uv_connection_cb conn_cb;
  swrite *         w, *wdone;
  uv_connect_t*    creq;
  uv_connect_cb    ccb;
  uint64_t         cdue;
  int              cstat;
  speer*           cpeer;
  // poll
  int        fd, events;
  uv_poll_cb poll_cb;
  // idle, signal
  uv_idle_cb   idle_cb;
  uv_signal_cb sig_cb;
  int          signum, raised;
  struct sh*   next;
} sh;
struct sconn {
  speer*   peer;
  uint8_t* in;
  size_t   n, cap, pos;
  int      hang; // 0, UV_EOF or error
  bool     closed, hung;
  sh*      owner;
  sconn*   next;
};
typedef struct sact {
  uint64_t     due, order;
  void (*fn)(void*);
  void*        arg;
  struct sact* next;
} sact;
typedef struct swork {
  uv_work_t*       req;
  uv_work_cb       work;
  uv_after_work_cb after;
  uint64_t         due;
  bool             ran;
  struct swork*    next;
} swork;
typedef struct sfsop {
  uv_fs_t*      req;
  uv_fs_cb      cb;
  uint64_t      due, order;
  struct sfsop* next;
} sfsop;

static sh*       handles;
static sconn*    backlog;
static sact*     acts;
static swork*    works;
static sfsop*    fsops;
static uv_loop_t the_loop;
static uint64_t  seq = 1;
static bool      stopped;
int              suv_slow_work;
speer* (*suv_on_connect)(int port, int* delay);

static sh* find(const void* h) {
  for (sh* s = handles; s; s = s->next)
    if ((void*) s->h == h) return s;
  return NULL;
}
static sh* must(const void* h, const char* fn) {
  sh* s = find(h);
  if (!s) sim_violation("handle", "%s is called with a handle which is not initialised or already closed", fn);
  return s;
}
static sh* add(void* h, int type) {
  if (find(h)) sim_violation("handle", "a handle is initialised while it is in use");
  sh* s               = calloc(1, sizeof(sh));
  s->h                = h;
  s->type             = type;
  s->id               = seq++;
  ((uv_handle_t*) h)->type = type;
  ((uv_handle_t*) h)->loop = &the_loop;
  s->next             = handles;
  handles             = s;
  return s;
}
int suv_handles(void) {
  int n = 0;
  for (sh* s = handles; s; s = s->next) n++;
  return n;
}
uv_loop_t* uv_default_loop(void) { return &the_loop; }
int        uv_loop_configure(uv_loop_t* l, uv_loop_option o, ...) { return 0; }
int        uv_loop_close(uv_loop_t* l) { return handles ? UV_EBUSY : 0; }
uint64_t   uv_metrics_idle_time(uv_loop_t* l) { return 0; }
uint64_t   uv_hrtime(void) { return sim_now_ms * 1000000ull; }
uint64_t   uv_now(const uv_loop_t* l) { return sim_now_ms; }
void       uv_sleep(unsigned int ms) { sim_advance(ms); }
void       uv_stop(uv_loop_t* l) { stopped = true; }
int        uv_random(uv_loop_t* l, uv_random_t* r, void* buf, size_t n, unsigned f, uv_random_cb cb) {
  static uint64_t s;
  if (!s) s = sim_stream("uv_random");
  sim_fill(&s, buf, n);
  return 0;
}
int uv_exepath(char* b, size_t* n) { return UV_ENOSYS; }
int uv_translate_sys_error(int e) { return e <= 0 ? e : -e; }
const char* uv_strerror(int e) { return e == UV_EOF ? "end of file" : e == UV_ENOENT ? "no such file or directory" : strerror(-e); }
const char* uv_err_name(int e) { return e == UV_EOF ? "EOF" : "E"; }
uv_buf_t    uv_buf_init(char* b, unsigned int n) { return (uv_buf_t) {.base = b, .len = n}; }
int         uv_ip4_addr(const char* ip, int port, struct sockaddr_in* a) {
  memset(a, 0, sizeof(*a));
  a->sin_family = AF_INET;
  a->sin_port   = htons(port);
  return inet_pton(AF_INET, ip, &a->sin_addr) == 1 ? 0 : UV_EINVAL;
}
int  uv_spawn(uv_loop_t* l, uv_process_t* h, const uv_process_options_t* o) { return UV_ENOSYS; }
int  uv_pipe_init(uv_loop_t* l, uv_pipe_t* h, int ipc) { return add(h, UV_NAMED_PIPE), 0; }
void uv_walk(uv_loop_t* l, uv_walk_cb cb, void* arg) {
  int  n = suv_handles(), k = 0;
  sh** a = calloc(n + 1, sizeof(sh*));
  for (sh* s = handles; s; s = s->next) a[k++] = s;
  for (int i = 0; i < k; i++) cb(a[i]->h, arg);
  free(a);
}
// ---- handles ----
int uv_is_closing(const uv_handle_t* h) {
  sh* s = find(h);
  return !s || s->closing;
}
int uv_is_active(const uv_handle_t* h) {
  sh* s = find(h);
  if (!s || s->closing) return 0;
  if (s->type == UV_TCP || s->type == UV_NAMED_PIPE) return s->reading || s->w || s->wdone || s->creq || s->listening;
  return s->active;
}
void uv_close(uv_handle_t* h, uv_close_cb cb) {
  sh* s = must(h, "uv_close");
  if (s->closing) sim_violation("handle", "uv_close is called twice for the same handle");
  s->closing  = true;
  s->active   = false;
  s->reading  = false;
  s->close_cb = cb;
}
static void closed(sh* s) {
  sh** p = &handles;
  while (*p && *p != s) p = &(*p)->next;
  // requests end before the handle is closed
  if (s->creq) {
    uv_connect_t* r = s->creq;
    s->creq         = NULL;
    s->ccb(r, UV_ECANCELED);
  }
  while (s->wdone || s->w) {
    swrite** q = s->wdone ? &s->wdone : &s->w;
    swrite*  w = *q;
    int      st = s->wdone ? w->status : UV_ECANCELED;
    *q          = w->next;
    if (w->cb) w->cb(w->req, st);
    free(w->bufs);
    free(w);
  }
  p = &handles;
  while (*p && *p != s) p = &(*p)->next;
  *p = s->next;
  if (s->conn) {
    s->conn->closed = true;
    s->conn->owner  = NULL;
    if (s->conn->peer && s->conn->peer->on_close) s->conn->peer->on_close(s->conn->peer);
  }
  if (s->close_cb) s->close_cb(s->h);
  free(s);
}
// ---- timers ----
int uv_timer_init(uv_loop_t* l, uv_timer_t* t) { return add(t, UV_TIMER), 0; }
int uv_timer_start(uv_timer_t* t, uv_timer_cb cb, uint64_t timeout, uint64_t repeat) {
  sh* s = must(t, "uv_timer_start");
  if (s->closing || !cb) return UV_EINVAL;
  s->timer_cb = cb;
  s->due      = sim_now_ms + timeout;
  s->repeat   = repeat;
  s->order    = seq++;
  s->active   = true;
  return 0;
}
int uv_timer_stop(uv_timer_t* t) {
  sh* s     = must(t, "uv_timer_stop");
  s->active = false;
  return 0;
}
int uv_idle_init(uv_loop_t* l, uv_idle_t* h) { return add(h, UV_IDLE), 0; }
int uv_idle_start(uv_idle_t* h, uv_idle_cb cb) {
  sh* s      = must(h, "uv_idle_start");
  s->idle_cb = cb;
  s->active  = true;
  return 0;
}
int uv_idle_stop(uv_idle_t* h) {
  must(h, "uv_idle_stop")->active = false;
  return 0;
}
int uv_signal_init(uv_loop_t* l, uv_signal_t* h) { return add(h, UV_SIGNAL), 0; }
int uv_signal_start(uv_signal_t* h, uv_signal_cb cb, int signum) {
  sh* s     = must(h, "uv_signal_start");
  s->sig_cb = cb;
  s->signum = signum;
  s->active = true;
  return 0;
}
int uv_signal_stop(uv_signal_t* h) {
  must(h, "uv_signal_stop")->active = false;
  return 0;
}
void suv_signal(int signum) {
  for (sh* s = handles; s; s = s->next)
    if (s->type == UV_SIGNAL && s->active && s->signum == signum) s->raised++;
}
// ---- streams ----
int uv_tcp_init(uv_loop_t* l, uv_tcp_t* h) { return add(h, UV_TCP), 0; }
int uv_tcp_bind(uv_tcp_t* h, const struct sockaddr* a, unsigned f) { return 0; }
int uv_listen(uv_stream_t* h, int backlog, uv_connection_cb cb) {
  sh* s        = must(h, "uv_listen");
  s->listening = true;
  s->conn_cb   = cb;
  return 0;
}
int uv_accept(uv_stream_t* srv, uv_stream_t* h) {
  sh* s = must(h, "uv_accept");
  if (!backlog) return UV_EAGAIN;
  s->conn        = backlog;
  backlog        = backlog->next;
  s->conn->next  = NULL;
  s->conn->owner = s;
  if (sim_fault("accept-fails", 3)) return UV_EMFILE;
  return 0;
}
int uv_read_start(uv_stream_t* h, uv_alloc_cb a, uv_read_cb r) {
  sh* s = must(h, "uv_read_start");
  if (s->closing) return UV_EINVAL;
  if (!s->conn) return UV_ENOTCONN;
  if (s->reading) return UV_EALREADY;
  s->alloc   = a;
  s->read_cb = r;
  s->reading = true;
  return 0;
}
int uv_read_stop(uv_stream_t* h) {
  must(h, "uv_read_stop")->reading = false;
  return 0;
}
// hands over some bytes of the first write request
static void write_some(sh* s) {
  swrite* w = s->w;
  sconn*  c = s->conn;
  if (!c || c->closed || (c->hung && (c->hang != UV_EOF || C(2, "epipe")))) { // the peer is gone
    w->status = c && c->hang == UV_ECONNRESET ? UV_ECONNRESET : UV_EPIPE;
  }
  else {
    size_t rest = 0;
    for (int i = w->done; i < w->n; i++) rest += w->bufs[i].len;
    rest -= w->off;
    size_t give = rest;
    if (rest > 1 && sim_chance(sim_faults_on() ? 250 : 60, "short-write")) give = 1 + C(rest > 60000 ? 60000 : rest - 1, "write-part"), sim_fault_count("short-write");
    while (give) {
      uv_buf_t* b = &w->bufs[w->done];
      size_t    k = b->len - w->off;
      if (k > give) k = give;
      if (k) {
        uint8_t* copy = malloc(k);
        memcpy(copy, b->base + w->off, k);
        if (!c->hung && c->peer->on_data) c->peer->on_data(c->peer, copy, k);
        free(copy);
      }
      w->off += k;
      give -= k;
      if (w->off == b->len) w->done++, w->off = 0;
    }
    while (w->done < w->n && w->bufs[w->done].len == 0) w->done++;
    if (w->done < w->n) return;
  }
  s->w       = w->next;
  w->next    = NULL;
  swrite** p = &s->wdone;
  while (*p) p = &(*p)->next;
  *p = w;
}
int uv_write(uv_write_t* req, uv_stream_t* h, const uv_buf_t* bufs, unsigned int n, uv_write_cb cb) {
  sh* s = must(h, "uv_write");
  if (s->closing) return UV_EBADF;
  if (!s->conn) return UV_ENOTCONN;
  for (swrite* w = s->w; w; w = w->next)
    if (w->req == req) sim_violation("handle", "a write request is used again while it is still in progress");
  for (swrite* w = s->wdone; w; w = w->next)
    if (w->req == req) sim_violation("handle", "a write request is used again while it is still in progress");
  swrite* w = calloc(1, sizeof(swrite));
  req->handle = h;
  w->req    = req;
  w->cb     = cb;
  w->n      = n;
  w->bufs   = malloc(sizeof(uv_buf_t) * n);
  memcpy(w->bufs, bufs, sizeof(uv_buf_t) * n);
  swrite** p = &s->w;
  bool     first = !*p;
  while (*p) p = &(*p)->next;
  *p = w;
  if (first && !sim_chance(100, "write-blocks")) write_some(s);
  return 0;
}
static void connect_event(sh* s) {
  uv_connect_t* r = s->creq;
  s->creq         = NULL;
  if (s->cstat == 0) {
    sconn* c = calloc(1, sizeof(sconn));
    c->peer  = s->cpeer;
    c->owner = s;
    s->conn  = c;
    s->cpeer->conn = c;
    if (s->cpeer->on_open) s->cpeer->on_open(s->cpeer);
  }
  s->ccb(r, s->cstat);
}
int uv_tcp_connect(uv_connect_t* req, uv_tcp_t* h, const struct sockaddr* a, uv_connect_cb cb) {
  sh* s = must(h, "uv_tcp_connect");
  if (s->closing || s->creq || s->conn) return UV_EINVAL;
  int    delay = 0;
  speer* p     = suv_on_connect ? suv_on_connect(ntohs(((const struct sockaddr_in*) a)->sin_port), &delay) : NULL;
  req->handle  = (uv_stream_t*) h;
  s->creq      = req;
  s->ccb       = cb;
  s->cstat     = p ? 0 : UV_ECONNREFUSED;
  s->cpeer     = p;
  s->cdue      = delay < 0 ? sim_now_ms + 130000 : sim_now_ms + delay;
  if (delay < 0) s->cstat = UV_ETIMEDOUT;
  return 0;
}
void suv_dial(speer* p) {
  sconn* c = calloc(1, sizeof(sconn));
  c->peer  = p;
  p->conn  = c;
  sconn** q = &backlog;
  while (*q) q = &(*q)->next;
  *q = c;
}
size_t suv_delivered(speer* p) { return p->conn ? p->conn->pos : 0; }
void suv_send(speer* p, const void* d, size_t n) {
  sconn* c = p->conn;
  if (!c || c->closed || c->hung) return;
  if (c->n + n > c->cap) c->in = realloc(c->in, c->cap = (c->n + n) * 2);
  memcpy(c->in + c->n, d, n);
  c->n += n;
}
void suv_hangup(speer* p, int err) {
  sconn* c = p->conn;
  if (!c || c->closed || c->hung) return;
  c->hung = true;
  c->hang = err;
}
bool suv_gone(speer* p) { return p->conn && p->conn->closed; }
// ---- polls ----
int uv_poll_init_socket(uv_loop_t* l, uv_poll_t* h, uv_os_sock_t fd) {
  for (sh* s = handles; s; s = s->next)
    if (s->type == UV_POLL && s->fd == fd && !s->closing && s->active) return UV_EEXIST;
  add(h, UV_POLL)->fd = fd;
  return 0;
}
int uv_poll_start(uv_poll_t* h, int events, uv_poll_cb cb) {
  sh* s = must(h, "uv_poll_start");
  if (s->closing) return UV_EINVAL;
  s->events  = events;
  s->poll_cb = cb;
  s->active  = events != 0;
  return 0;
}
int uv_poll_stop(uv_poll_t* h) {
  must(h, "uv_poll_stop")->active = false;
  return 0;
}
// ---- thread pool ----
int uv_queue_work(uv_loop_t* l, uv_work_t* req, uv_work_cb work, uv_after_work_cb after) {
  swork* w = calloc(1, sizeof(swork));
  w->req   = req;
  w->work  = work;
  w->after = after;
  w->due   = sim_now_ms + C(suv_slow_work ? 3000 : 5, "work-delay");
  w->next  = works;
  works    = w;
  return 0;
}
// ---- file system ----
void uv_fs_req_cleanup(uv_fs_t* r) {
  if (r->fs_type == UV_FS_SCANDIR && r->ptr) {
    sfs_free_list(r->ptr);
    r->ptr = NULL;
  }
  if (r->bufs) free(r->bufs), r->bufs = NULL;
  if (r->path) free((void*) r->path), r->path = NULL;
  if (r->new_path) free((void*) r->new_path), r->new_path = NULL;
}
static int fs_do(uv_fs_t* r) {
  switch (r->fs_type) {
    case UV_FS_OPEN: return r->result = sfs_open(r->path, r->flags);
    case UV_FS_CLOSE: return r->result = sfs_close(r->file);
    case UV_FS_READ:
    case UV_FS_WRITE: {
      ssize_t total = 0;
      int64_t off   = r->off;
      for (unsigned i = 0; i < r->nbufs; i++) {
        ssize_t k = r->fs_type == UV_FS_READ ? sfs_read(r->file, r->bufs[i].base, r->bufs[i].len, off) : sfs_write(r->file, r->bufs[i].base, r->bufs[i].len, off);
        if (k < 0) return r->result = total ? total : k;
        total += k;
        if (off >= 0) off += k;
        if (k < (ssize_t) r->bufs[i].len) break;
      }
      return r->result = total;
    }
    case UV_FS_RENAME: return r->result = sfs_rename(r->path, r->new_path);
    case UV_FS_UNLINK: return r->result = sfs_unlink(r->path);
    case UV_FS_MKDIR: return r->result = sfs_mkdir(r->path);
    case UV_FS_STAT:
    case UV_FS_FSTAT: {
      uint64_t size = 0;
      bool     dir  = false;
      r->result     = r->fs_type == UV_FS_STAT ? sfs_stat(r->path, &size, &dir) : sfs_fstat(r->file, &size);
      memset(&r->statbuf, 0, sizeof(r->statbuf));
      r->statbuf.st_size = size;
      r->statbuf.st_mode = dir ? 0040755 : 0100644;
      r->ptr             = &r->statbuf;
      return r->result;
    }
    case UV_FS_SCANDIR: {
      int n     = 0;
      r->ptr    = sfs_scandir(r->path, &n);
      r->nbufs  = 0;
      return r->result = r->ptr ? n : UV_ENOENT;
    }
    default: return r->result = UV_ENOSYS;
  }
}
static int fs_go(uv_fs_t* r, uv_fs_cb cb) {
  r->cb  = cb;
  r->ptr = r->fs_type == UV_FS_SCANDIR ? NULL : r->ptr;
  if (!cb) return fs_do(r);
  sfsop* o = calloc(1, sizeof(sfsop));
  o->req   = r;
  o->cb    = cb;
  o->due   = sim_now_ms + C(suv_slow_work ? 400 : 4, "fs-delay");
  o->order = seq++;
  sfsop** p = &fsops;
  while (*p) p = &(*p)->next;
  *p = o;
  return 0;
}
#define FS_INIT(t) do { uv_fs_t keep = *r; void* d = r->data; memset(r, 0, sizeof(*r)); r->data = d; r->type = UV_FS; r->fs_type = t; r->loop = l; (void) keep; } while (0)
int uv_fs_open(uv_loop_t* l, uv_fs_t* r, const char* path, int flags, int mode, uv_fs_cb cb) {
  FS_INIT(UV_FS_OPEN);
  r->path  = strdup(path);
  r->flags = flags;
  return fs_go(r, cb);
}
int uv_fs_close(uv_loop_t* l, uv_fs_t* r, uv_file f, uv_fs_cb cb) {
  FS_INIT(UV_FS_CLOSE);
  r->file = f;
  return fs_go(r, cb);
}
static int rw(uv_loop_t* l, uv_fs_t* r, int t, uv_file f, const uv_buf_t* b, unsigned n, int64_t off, uv_fs_cb cb) {
  FS_INIT(t);
  r->file  = f;
  r->nbufs = n;
  r->bufs  = malloc(sizeof(uv_buf_t) * (n ? n : 1));
  memcpy(r->bufs, b, sizeof(uv_buf_t) * n);
  r->off = off;
  return fs_go(r, cb);
}
int uv_fs_read(uv_loop_t* l, uv_fs_t* r, uv_file f, const uv_buf_t b[], unsigned n, int64_t off, uv_fs_cb cb) { return rw(l, r, UV_FS_READ, f, b, n, off, cb); }
int uv_fs_write(uv_loop_t* l, uv_fs_t* r, uv_file f, const uv_buf_t b[], unsigned n, int64_t off, uv_fs_cb cb) { return rw(l, r, UV_FS_WRITE, f, b, n, off, cb); }
#define PATHOP(name, t) \
  { FS_INIT(t); r->path = strdup(path); return fs_go(r, cb); }
int uv_fs_unlink(uv_loop_t* l, uv_fs_t* r, const char* path, uv_fs_cb cb) PATHOP(unlink, UV_FS_UNLINK)
int uv_fs_mkdir(uv_loop_t* l, uv_fs_t* r, const char* path, int mode, uv_fs_cb cb) PATHOP(mkdir, UV_FS_MKDIR)
int uv_fs_stat(uv_loop_t* l, uv_fs_t* r, const char* path, uv_fs_cb cb) PATHOP(stat, UV_FS_STAT)
int uv_fs_scandir(uv_loop_t* l, uv_fs_t* r, const char* path, int flags, uv_fs_cb cb) PATHOP(scandir, UV_FS_SCANDIR)
int uv_fs_fstat(uv_loop_t* l, uv_fs_t* r, uv_file f, uv_fs_cb cb) {
  FS_INIT(UV_FS_FSTAT);
  r->file = f;
  return fs_go(r, cb);
}
int uv_fs_rename(uv_loop_t* l, uv_fs_t* r, const char* a, const char* b, uv_fs_cb cb) {
  FS_INIT(UV_FS_RENAME);
  r->path     = strdup(a);
  r->new_path = strdup(b);
  return fs_go(r, cb);
}
int uv_fs_scandir_next(uv_fs_t* r, uv_dirent_t* e) {
  char** l = r->ptr;
  if (!l || (int) r->nbufs >= r->result) return UV_EOF;
  char* n = l[r->nbufs++];
  e->name = n + 1;
  e->type = n[0] == 'd' ? UV_DIRENT_DIR : UV_DIRENT_FILE;
  return 0;
}
uv_fs_type uv_fs_get_type(const uv_fs_t* r) { return r->fs_type; }
ssize_t    uv_fs_get_result(const uv_fs_t* r) { return r->result; }
void*      uv_fs_get_ptr(const uv_fs_t* r) { return r->ptr; }

// ---- actors ----
void suv_at(uint64_t delay, void (*fn)(void*), void* arg) {
  sact* a  = calloc(1, sizeof(sact));
  a->due   = sim_now_ms + delay;
  a->order = seq++;
  a->fn    = fn;
  a->arg   = arg;
  sact** p = &acts;
  while (*p && (*p)->due <= a->due) p = &(*p)->next;
  a->next = *p;
  *p      = a;
}
static void actors(void) {
  while (acts && acts->due <= sim_now_ms) {
    sact* a = acts;
    acts    = a->next;
    a->fn(a->arg);
    free(a);
  }
}
// ---- the loop ----
enum { E_READ = 1, E_CONN, E_WRITE, E_WDONE, E_CONNECT, E_POLL, E_WORK, E_FS, E_SIGNAL };
typedef struct {
  int      kind;
  uint64_t id;
  void*    p;
} ev;
static bool readable(sh* s) { return s->reading && s->conn && (s->conn->pos < s->conn->n || s->conn->hung); }
static int gather(ev* e, int max) {
  int n = 0;
  for (sh* s = handles; s && n < max - 4; s = s->next) {
    if (s->closing) continue;
    if (s->listening && backlog) e[n++] = (ev) {E_CONN, s->id, s};
    if (readable(s)) e[n++] = (ev) {E_READ, s->id, s};
    if (s->wdone) e[n++] = (ev) {E_WDONE, s->id, s};
    else if (s->w) e[n++] = (ev) {E_WRITE, s->id, s};
    if (s->creq && s->cdue <= sim_now_ms) e[n++] = (ev) {E_CONNECT, s->id, s};
    if (s->type == UV_POLL && s->active && scurl_ready(s->fd, s->events)) e[n++] = (ev) {E_POLL, s->id, s};
    if (s->type == UV_SIGNAL && s->active && s->raised) e[n++] = (ev) {E_SIGNAL, s->id, s};
  }
  for (swork* w = works; w && n < max - 1; w = w->next)
    if (w->due <= sim_now_ms) e[n++] = (ev) {E_WORK, 0, w};
  for (sfsop* o = fsops; o && n < max - 1; o = o->next)
    if (o->due <= sim_now_ms) e[n++] = (ev) {E_FS, 0, o};
  return n;
}
static bool valid(ev* e) { // the handle may have been closed by an earlier callback of this iteration
  if (e->kind == E_WORK) {
    for (swork* w = works; w; w = w->next)
      if (w == e->p) return true;
    return false;
  }
  if (e->kind == E_FS) {
    for (sfsop* o = fsops; o; o = o->next)
      if (o == e->p) return true;
    return false;
  }
  for (sh* s = handles; s; s = s->next)
    if (s == e->p && s->id == e->id) return !s->closing;
  return false;
}
static void do_read(sh* s) {
  sconn*   c = s->conn;
  uv_buf_t b = {0};
  if (c->pos < c->n && !(c->hung && c->hang == UV_ECONNRESET)) {
    size_t avail = c->n - c->pos;
    s->alloc(s->h, 65536, &b);
    if (avail > b.len) avail = b.len;
    if (avail > 1 && sim_chance(sim_faults_on() ? 200 : 50, "short-read")) avail = 1 + C(avail - 1, "read-part"), sim_fault_count("short-read");
    memcpy(b.base, c->in + c->pos, avail);
    c->pos += avail;
    s->read_cb((uv_stream_t*) s->h, avail, &b);
  }
  else {
    s->alloc(s->h, 65536, &b);
    s->reading = false;
    s->read_cb((uv_stream_t*) s->h, c->hang, &b);
  }
}
static void run_event(ev* e) {
  sh* s = e->p;
  switch (e->kind) {
    case E_READ: if (readable(s)) do_read(s); break;
    case E_CONN: if (s->listening && backlog) s->conn_cb((uv_stream_t*) s->h, 0); break;
    case E_WRITE: if (s->w) write_some(s); break;
    case E_WDONE:
      if (s->wdone) {
        swrite* w = s->wdone;
        s->wdone  = w->next;
        uv_write_cb  cb  = w->cb;
        uv_write_t*  req = w->req;
        int          st  = w->status;
        free(w->bufs);
        free(w);
        if (cb) cb(req, st);
      }
      break;
    case E_CONNECT: if (s->creq && s->cdue <= sim_now_ms) connect_event(s); break;
    case E_POLL: {
      int r = s->active ? scurl_ready(s->fd, s->events) : 0;
      if (r) s->poll_cb((uv_poll_t*) s->h, 0, r);
      break;
    }
    case E_SIGNAL:
      if (s->raised && s->active) {
        s->raised--;
        s->sig_cb((uv_signal_t*) s->h, s->signum);
      }
      break;
    case E_WORK: {
      swork* w = e->p;
      if (!w->ran) {
        w->ran = true;
        w->work(w->req);
        w->due = sim_now_ms + C(suv_slow_work ? 20 : 2, "work-done");
        break;
      }
      swork** p = &works;
      while (*p != w) p = &(*p)->next;
      *p = w->next;
      w->after(w->req, 0);
      free(w);
      break;
    }
    case E_FS: {
      sfsop*  o = e->p;
      sfsop** p = &fsops;
      while (*p != o) p = &(*p)->next;
      *p = o->next;
      fs_do(o->req);
      o->cb(o->req);
      free(o);
      break;
    }
  }
}
// quick repeating timers do not determine how far the time jumps
static uint64_t next_time(void) {
  uint64_t t = ~0ull;
  for (sh* s = handles; s; s = s->next) {
    if (s->closing) continue;
    if (s->type == UV_TIMER && s->active && (!s->repeat || s->repeat >= 100) && s->due < t) t = s->due;
    if (s->creq && s->cdue < t) t = s->cdue;
  }
  for (swork* w = works; w; w = w->next)
    if (w->due < t) t = w->due;
  for (sfsop* o = fsops; o; o = o->next)
    if (o->due < t) t = o->due;
  if (acts && acts->due < t) t = acts->due;
  uint64_t c = scurl_next();
  if (c < t) t = c;
  return t;
}
uint64_t suv_next(void) {
  uint64_t t = next_time();
  return t == ~0ull ? t : t > sim_now_ms ? t - sim_now_ms : 0;
}
static void close_phase(void) {
  for (int guard = 0; guard < 10000; guard++) {
    sh* c = NULL; // oldest first
    for (sh* s = handles; s; s = s->next)
      if (s->closing) c = s;
    if (!c) return;
    closed(c);
  }
}
bool suv_iterate(void) {
  bool did = false;
  actors();
  // timers in the order of their due time
  for (int guard = 0; guard < 200; guard++) {
    sh* t = NULL;
    for (sh* s = handles; s; s = s->next)
      if (s->type == UV_TIMER && s->active && !s->closing && s->due <= sim_now_ms && (!t || s->due < t->due || (s->due == t->due && s->order < t->order))) t = s;
    if (!t) break;
    did       = true;
    t->active = false;
    if (t->repeat) {
      t->active = true;
      t->due    = sim_now_ms + t->repeat;
      t->order  = seq++;
    }
    t->timer_cb((uv_timer_t*) t->h);
  }
  for (sh* s = handles; s; s = s->next)
    if (s->type == UV_IDLE && s->active && !s->closing) {
      did = true;
      s->idle_cb((uv_idle_t*) s->h);
      break;
    }
  static ev e[4096];
  int       n = gather(e, 4096);
  if (n) {
    did   = true;
    int k = n == 1 ? 1 : 1 + C(n, "batch");
    for (int i = 0; i < k; i++) {
      int j = i + C(n - i, "event");
      ev  t = e[i];
      e[i]  = e[j];
      e[j]  = t;
      if (valid(&e[i])) run_event(&e[i]);
    }
  }
  close_phase();
  if (did || n) {
    if (sim_chance(150, "time")) sim_advance(1 + C(20, "time"));
    return true;
  }
  // nothing to do: wait for the next event
  uint64_t t = next_time();
  if (t == ~0ull) return false;
  if (t > sim_now_ms) sim_advance(t - sim_now_ms);
  return true;
}
void suv_reset(void) { // the process died: nothing of it continues
  handles = NULL;
  backlog = NULL;
  acts    = NULL;
  works   = NULL;
  fsops   = NULL;
  stopped = false;
}
int uv_run(uv_loop_t* l, uv_run_mode mode) {
  if (mode == UV_RUN_NOWAIT) {
    suv_iterate();
    return suv_handles() ? 1 : 0;
  }
  stopped = false;
  for (int i = 0; i < 200000 && !stopped; i++) {
    bool alive = works || fsops;
    for (sh* s = handles; s; s = s->next)
      if (s->closing || uv_is_active(s->h)) alive = true;
    if (!alive || !suv_iterate()) return 0;
  }
  return 1;
}
