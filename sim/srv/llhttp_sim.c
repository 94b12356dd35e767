// A parser for HTTP requests with the observable behaviour of llhttp 9.2.1: spans are reported per chunk of input, callbacks may pause or fail,
// content_length counts down before the body is reported, and the flags are cleared once the message is complete.
#include "llhttp.h"
#include <ctype.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
enum { F_KEEP = 1, F_CLOSE = 2, F_UPGRADE_CONN = 4, F_CHUNKED = 8, F_UPGRADE = 16, F_CL = 32, F_TRAIL = 128, F_TE = 512 };
enum { S_START, S_METHOD, S_URL_WS, S_URL, S_VERSION, S_LINE_LF, S_FIELD_START, S_FIELD, S_VALUE_WS, S_VALUE, S_VALUE_LF, S_END_LF, S_HEADERS_DONE, S_BODY, S_CHUNK, S_CHUNK_EXT, S_CHUNK_LF, S_CHUNK_BODY, S_CHUNK_CR, S_CHUNK_END_LF, S_DONE, S_AFTER, S_DEAD, S_ERROR };
static const char* METHODS[] = {"DELETE", "GET", "HEAD", "POST", "PUT", "CONNECT", "OPTIONS", "TRACE", "COPY", "LOCK", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH", "SEARCH", "UNLOCK", "BIND", "REBIND", "UNBIND", "ACL", "REPORT", "MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "PATCH", "PURGE"};
#define NM ((int) (sizeof(METHODS) / sizeof(*METHODS)))
void llhttp_settings_init(llhttp_settings_t* s) { memset(s, 0, sizeof(*s)); }
void llhttp_init(llhttp_t* p, llhttp_type_t type, const llhttp_settings_t* s) {
  memset(p, 0, sizeof(*p));
  p->type     = type;
  p->settings = (void*) s;
}
void llhttp_reset(llhttp_t* p) {
  void*   data = p->data;
  void*   s    = p->settings;
  uint8_t t    = p->type;
  memset(p, 0, sizeof(*p));
  p->type     = t;
  p->data     = data;
  p->settings = s;
}
llhttp_errno_t llhttp_get_errno(const llhttp_t* p) { return p->error; }
const char*    llhttp_get_error_reason(const llhttp_t* p) { return p->reason; }
const char*    llhttp_get_error_pos(const llhttp_t* p) { return p->error_pos; }
void           llhttp_set_error_reason(llhttp_t* p, const char* r) { p->reason = r; }
uint8_t        llhttp_get_method(llhttp_t* p) { return p->method; }
uint8_t        llhttp_get_upgrade(llhttp_t* p) { return p->upgrade; }
const char*    llhttp_method_name(llhttp_method_t m) { return (int) m < NM ? METHODS[m] : "UNKNOWN"; }
void           llhttp_pause(llhttp_t* p) {
  if (p->error == HPE_OK) p->error = HPE_PAUSED, p->reason = "Paused";
}
void llhttp_resume(llhttp_t* p) {
  if (p->error == HPE_PAUSED) p->error = HPE_OK;
}
const char* llhttp_errno_name(llhttp_errno_t e) {
  switch (e) {
    case HPE_OK: return "HPE_OK";
    case HPE_INVALID_METHOD: return "HPE_INVALID_METHOD";
    case HPE_INVALID_URL: return "HPE_INVALID_URL";
    case HPE_INVALID_CONSTANT: return "HPE_INVALID_CONSTANT";
    case HPE_INVALID_VERSION: return "HPE_INVALID_VERSION";
    case HPE_INVALID_HEADER_TOKEN: return "HPE_INVALID_HEADER_TOKEN";
    case HPE_INVALID_CONTENT_LENGTH: return "HPE_INVALID_CONTENT_LENGTH";
    case HPE_INVALID_CHUNK_SIZE: return "HPE_INVALID_CHUNK_SIZE";
    case HPE_PAUSED: return "HPE_PAUSED";
    case HPE_PAUSED_UPGRADE: return "HPE_PAUSED_UPGRADE";
    case HPE_USER: return "HPE_USER";
    case HPE_CLOSED_CONNECTION: return "HPE_CLOSED_CONNECTION";
    case HPE_CB_HEADERS_COMPLETE: return "HPE_CB_HEADERS_COMPLETE";
    case HPE_CB_MESSAGE_COMPLETE: return "HPE_CB_MESSAGE_COMPLETE";
    default: return "HPE_OTHER";
  }
}
int llhttp_message_needs_eof(const llhttp_t* p) { return 0; } // requests never do
int llhttp_should_keep_alive(const llhttp_t* p) {
  if (p->http_major > 0 && p->http_minor > 0) {
    if (p->flags & F_CLOSE) return 0;
  }
  else if (!(p->flags & F_KEEP))
    return 0;
  return !llhttp_message_needs_eof(p);
}
llhttp_errno_t llhttp_finish(llhttp_t* p) { return p->error ? p->error : p->st == S_START || p->st == S_AFTER || p->st == S_DEAD ? HPE_OK : HPE_INVALID_EOF_STATE; }

static int fail(llhttp_t* p, const char* pos, int e, const char* why) {
  p->error     = e;
  p->reason    = why;
  p->error_pos = pos;
  p->st        = S_ERROR;
  return e;
}
#define SET ((llhttp_settings_t*) p->settings)
// span callback: the value returned is the error
#define SPAN(cb, from, to)                                       \
  do {                                                           \
    if (SET->cb) {                                               \
      int e_ = SET->cb(p, (from), (size_t) ((to) - (from)));     \
      if (e_) return fail(p, (to), e_, "Span callback error in " #cb); \
    }                                                            \
  } while (0)
#define CALL(cb, code)                                           \
  do {                                                           \
    if (SET->cb) {                                               \
      int e_ = SET->cb(p);                                       \
      if (e_ == HPE_PAUSED) {                                    \
        p->error     = HPE_PAUSED;                               \
        p->reason    = #cb " pause";                             \
        p->error_pos = c;                                        \
        return HPE_PAUSED;                                       \
      }                                                          \
      if (e_) return fail(p, c, code, "`" #cb "` callback error"); \
    }                                                            \
  } while (0)
static int is_tok(int c) { return isalnum(c) || (c && strchr("!#$%&'*+-.^_`|~", c)); }
static int header_done(llhttp_t* p, const char* c) {
  char* v = p->val;
  while (p->nval && (v[p->nval - 1] == ' ' || v[p->nval - 1] == '\t')) p->nval--;
  v[p->nval] = 0;
  if (!strcmp(p->tok, "content-length")) {
    if (p->flags & F_CL) return fail(p, c, HPE_UNEXPECTED_CONTENT_LENGTH, "Content-Length already present");
    if (p->flags & F_CHUNKED) return fail(p, c, HPE_INVALID_CONTENT_LENGTH, "Content-Length can't be present with Transfer-Encoding");
    if (!p->nval) return fail(p, c, HPE_INVALID_CONTENT_LENGTH, "Empty Content-Length");
    uint64_t n = 0;
    for (int i = 0; i < p->nval; i++) {
      if (!isdigit((unsigned char) v[i])) return fail(p, c, HPE_INVALID_CONTENT_LENGTH, "Invalid character in Content-Length");
      if (n > (UINT64_MAX - 9) / 10) return fail(p, c, HPE_INVALID_CONTENT_LENGTH, "Content-Length overflow");
      n = n * 10 + v[i] - '0';
    }
    p->content_length = n;
    p->flags |= F_CL;
  }
  else if (!strcmp(p->tok, "transfer-encoding")) {
    if (p->flags & F_CL) return fail(p, c, HPE_INVALID_TRANSFER_ENCODING, "Transfer-Encoding can't be present with Content-Length");
    p->flags |= F_TE;
    if (p->nval >= 7 && !strcasecmp(v + p->nval - 7, "chunked")) p->flags |= F_CHUNKED;
  }
  else if (!strcmp(p->tok, "connection") || !strcmp(p->tok, "proxy-connection")) {
    char* s = v;
    while (s && *s) {
      while (*s == ' ' || *s == ',') s++;
      size_t n = strcspn(s, ", ");
      if (n == 5 && !strncasecmp(s, "close", 5)) p->flags |= F_CLOSE;
      if (n == 10 && !strncasecmp(s, "keep-alive", 10)) p->flags |= F_KEEP;
      if (n == 7 && !strncasecmp(s, "upgrade", 7)) p->flags |= F_UPGRADE_CONN;
      s += n;
    }
  }
  else if (!strcmp(p->tok, "upgrade"))
    p->flags |= F_UPGRADE;
  p->nval = p->ntok = 0;
  p->tok[0] = p->val[0] = 0;
  return 0;
}
llhttp_errno_t llhttp_execute(llhttp_t* p, const char* data, size_t len) {
  if (p->error != HPE_OK) return p->error;
  const char *c = data, *end = data + len, *s;
  while (1) {
    switch (p->st) {
      case S_DONE: // decides about what follows
        p->content_length = 0;
        p->st             = S_AFTER;
        CALL(on_message_complete, HPE_CB_MESSAGE_COMPLETE);
        break;
      case S_AFTER: {
        if (p->upgrade) {
          p->error     = HPE_PAUSED_UPGRADE;
          p->reason    = "Pause on CONNECT/Upgrade";
          p->error_pos = c;
          p->upgrade   = 0; // continues as if nothing had happened if it is resumed
          return p->error;
        }
        int keep  = llhttp_should_keep_alive(p);
        p->flags  = 0;
        p->finish = 0;
        p->st     = keep ? S_START : S_DEAD;
        break;
      }
      case S_HEADERS_DONE: {
        p->upgrade = (p->flags & F_UPGRADE) && (p->flags & F_UPGRADE_CONN) ? 1 : p->method == HTTP_CONNECT;
        if (SET->on_headers_complete) {
          p->st  = S_CHUNK + 100; // in case of a pause
          int e_ = SET->on_headers_complete(p);
          if (e_ == HPE_PAUSED) {
            p->error = HPE_PAUSED, p->reason = "Paused by on_headers_complete", p->error_pos = c;
            return HPE_PAUSED;
          }
          if (e_ == 2) p->upgrade = 1;
          if (e_ == 1 || e_ == 2) p->flags &= ~(F_CHUNKED | F_CL), p->content_length = 0;
          else if (e_) return fail(p, c, HPE_CB_HEADERS_COMPLETE, "User callback error");
        }
        p->st = S_CHUNK + 100;
        break;
      }
      case S_CHUNK + 100: {
        int has_body = (p->flags & F_CHUNKED) || p->content_length > 0;
        if (p->upgrade && (p->method == HTTP_CONNECT || !has_body)) p->st = S_DONE;
        else if (p->flags & F_CHUNKED) p->st = S_CHUNK, p->chunk = 0, p->sub = 0;
        else if (p->flags & F_TE) return fail(p, c, HPE_INVALID_TRANSFER_ENCODING, "Request has invalid `Transfer-Encoding`");
        else if (p->content_length) p->st = S_BODY;
        else p->st = S_DONE;
        break;
      }
      default:
        if (c == end) return HPE_OK;
        switch (p->st) {
          case S_START:
            if (*c == '\r' || *c == '\n') {
              c++;
              break;
            }
            p->http_major = p->http_minor = 0;
            p->content_length             = 0;
            p->flags                      = 0;
            p->st                         = S_METHOD;
            p->ntok                       = 0;
            CALL(on_message_begin, HPE_CB_MESSAGE_BEGIN);
            break;
          case S_METHOD: {
            s      = c;
            int ok = 1;
            while (c < end && *c != ' ') {
              p->tok[p->ntok++] = *c;
              ok                = 0;
              for (int i = 0; i < NM; i++) ok |= !strncmp(METHODS[i], p->tok, p->ntok);
              if (!ok || p->ntok > 20) return fail(p, c, HPE_INVALID_METHOD, "Invalid method encountered");
              c++;
            }
            if (c > s) SPAN(on_method, s, c);
            if (c == end) return HPE_OK;
            p->tok[p->ntok] = 0;
            ok              = -1;
            for (int i = 0; i < NM; i++)
              if (!strcmp(METHODS[i], p->tok)) ok = i;
            if (ok < 0) return fail(p, c, HPE_INVALID_METHOD, "Invalid method encountered");
            p->method = ok;
            p->st     = S_URL_WS;
            p->ntok   = 0;
            CALL(on_method_complete, HPE_CB_METHOD_COMPLETE);
            break;
          }
          case S_URL_WS:
            if (*c == ' ') c++;
            else if (*c != '/' && *c != '*' && !isalpha((unsigned char) *c)) return fail(p, c, HPE_INVALID_URL, "Unexpected start char in url");
            else p->st = S_URL;
            break;
          case S_URL:
            s = c;
            while (c < end && *c != ' ' && *c != '\r' && *c != '\n' && (unsigned char) *c > 0x20 && *c != 0x7f) c++;
            if (c > s) SPAN(on_url, s, c);
            if (c == end) return HPE_OK;
            if (*c != ' ') return fail(p, c, *c == '\r' || *c == '\n' ? HPE_INVALID_VERSION : HPE_INVALID_URL, "Invalid characters in url");
            c++;
            p->st   = S_VERSION;
            p->ntok = 0;
            CALL(on_url_complete, HPE_CB_URL_COMPLETE);
            break;
          case S_VERSION:
            if (*c == '\r' || *c == '\n') {
              p->tok[p->ntok] = 0;
              if (strcmp(p->tok, "HTTP/1.1") && strcmp(p->tok, "HTTP/1.0")) return fail(p, c, strncmp(p->tok, "HTTP/", 5) ? HPE_INVALID_CONSTANT : HPE_INVALID_VERSION, "Invalid HTTP version");
              p->http_major = p->tok[5] - '0';
              p->http_minor = p->tok[7] - '0';
              if (*c == '\n') return fail(p, c, HPE_CR_EXPECTED, "Expected CRLF after version");
              p->st   = S_LINE_LF;
              p->ntok = 0;
              c++;
              CALL(on_version_complete, HPE_CB_VERSION_COMPLETE);
              break;
            }
            if (p->ntok > 12) return fail(p, c, HPE_INVALID_CONSTANT, "Expected HTTP/");
            p->tok[p->ntok++] = *c++;
            break;
          case S_LINE_LF:
            if (*c != '\n') return fail(p, c, HPE_LF_EXPECTED, "Expected LF");
            c++;
            p->st = S_FIELD_START;
            break;
          case S_FIELD_START:
            if (*c == '\r') {
              c++;
              p->st = S_END_LF;
              break;
            }
            p->st   = S_FIELD;
            p->ntok = 0;
            break;
          case S_FIELD:
            s = c;
            while (c < end && is_tok((unsigned char) *c)) {
              if (p->ntok < 60) p->tok[p->ntok++] = tolower((unsigned char) *c);
              c++;
            }
            if (c > s) SPAN(on_header_field, s, c);
            if (c == end) return HPE_OK;
            if (*c != ':' || !p->ntok) return fail(p, c, HPE_INVALID_HEADER_TOKEN, "Invalid header token");
            p->tok[p->ntok] = 0;
            c++;
            p->st   = S_VALUE_WS;
            p->nval = 0;
            CALL(on_header_field_complete, HPE_CB_HEADER_FIELD_COMPLETE);
            break;
          case S_VALUE_WS:
            if (*c == ' ' || *c == '\t') {
              c++;
              break;
            }
            p->st  = S_VALUE;
            p->sub = 0;
            break;
          case S_VALUE:
            s = c;
            while (c < end && *c != '\r' && *c != '\n' && (*c == '\t' || (unsigned char) *c >= 0x20) && *c != 0x7f) {
              if (p->nval < 60) p->val[p->nval++] = *c;
              c++;
            }
            if (c > s || (c < end && !p->sub)) {
              p->sub = 1;
              SPAN(on_header_value, s, c);
            }
            if (c == end) return HPE_OK;
            if (*c != '\r') return fail(p, c, HPE_INVALID_HEADER_TOKEN, "Invalid header value char");
            c++;
            p->st = S_VALUE_LF;
            break;
          case S_VALUE_LF:
            if (*c != '\n') return fail(p, c, HPE_LF_EXPECTED, "Missing expected LF after header value");
            c++;
            p->st = S_FIELD_START;
            if (header_done(p, c)) return p->error;
            CALL(on_header_value_complete, HPE_CB_HEADER_VALUE_COMPLETE);
            break;
          case S_END_LF:
            if (*c != '\n') return fail(p, c, HPE_LF_EXPECTED, "Expected LF after headers");
            c++;
            p->st = p->flags & F_TRAIL ? S_DONE : S_HEADERS_DONE;
            break;
          case S_BODY: {
            size_t n = (size_t) (end - c);
            s        = c;
            if (n >= p->content_length) {
              n                 = p->content_length;
              p->content_length = 0;
              c += n;
              SPAN(on_body, s, c);
              p->st = S_DONE;
            }
            else {
              p->content_length -= n;
              c = end;
              SPAN(on_body, s, c);
              return HPE_OK;
            }
            break;
          }
          case S_CHUNK: {
            int h = isdigit((unsigned char) *c) ? *c - '0' : isxdigit((unsigned char) *c) ? tolower((unsigned char) *c) - 'a' + 10 : -1;
            if (h < 0) {
              if (!p->sub || (*c != '\r' && *c != ';')) return fail(p, c, HPE_INVALID_CHUNK_SIZE, "Invalid character in chunk size");
              p->st = *c == '\r' ? S_CHUNK_LF : S_CHUNK_EXT;
              c++;
              break;
            }
            if (p->chunk >> 58) return fail(p, c, HPE_INVALID_CHUNK_SIZE, "Chunk size overflow");
            p->chunk          = p->chunk * 16 + h;
            p->content_length = p->chunk;
            p->sub            = 1;
            c++;
            break;
          }
          case S_CHUNK_EXT:
            if (*c++ == '\r') p->st = S_CHUNK_LF;
            break;
          case S_CHUNK_LF:
            if (*c != '\n') return fail(p, c, HPE_LF_EXPECTED, "Expected LF after chunk size");
            c++;
            if (p->chunk) p->st = S_CHUNK_BODY;
            else p->flags |= F_TRAIL, p->st = S_FIELD_START;
            CALL(on_chunk_header, HPE_CB_CHUNK_HEADER);
            break;
          case S_CHUNK_BODY: {
            size_t n = (size_t) (end - c);
            s        = c;
            if (n >= p->content_length) {
              c += p->content_length;
              p->content_length = 0;
              SPAN(on_body, s, c);
              p->st = S_CHUNK_CR;
            }
            else {
              p->content_length -= n;
              c = end;
              SPAN(on_body, s, c);
              return HPE_OK;
            }
            break;
          }
          case S_CHUNK_CR:
            if (*c != '\r') return fail(p, c, HPE_STRICT, "Expected CR after chunk data");
            c++;
            p->st = S_CHUNK_END_LF;
            break;
          case S_CHUNK_END_LF:
            if (*c != '\n') return fail(p, c, HPE_STRICT, "Expected LF after chunk data");
            c++;
            p->st = S_CHUNK, p->chunk = 0, p->sub = 0;
            CALL(on_chunk_complete, HPE_CB_CHUNK_COMPLETE);
            break;
          case S_DEAD:
            if (*c == '\r' || *c == '\n') {
              c++;
              break;
            }
            return fail(p, c, HPE_CLOSED_CONNECTION, "Data after `Connection: close`");
          default: return fail(p, c, HPE_INTERNAL, "state");
        }
    }
  }
}
