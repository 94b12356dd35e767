// small json parser and the semantic comparison of answers
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  const char *p, *e;
  int         depth;
} P;
static void ws(P* s) {
  while (s->p < s->e && (*s->p == ' ' || *s->p == '\n' || *s->p == '\t' || *s->p == '\r')) s->p++;
}
static char* str(P* s) {
  if (s->p >= s->e || *s->p != '"') return NULL;
  wbuf b = {0};
  wb_put(&b, "", 0);
  for (s->p++; s->p < s->e && *s->p != '"'; s->p++) {
    if (*s->p == '\\' && s->p + 1 < s->e) {
      s->p++;
      char c = *s->p;
      if (c == 'u') {
        wb_put(&b, "\\u", 2);
        continue;
      }
      wb_u8(&b, c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c);
    }
    else if ((uint8_t) *s->p < 0x20)
      return NULL; // not allowed in json
    else
      wb_u8(&b, *s->p);
  }
  if (s->p >= s->e) return NULL;
  s->p++;
  return (char*) b.d;
}
static wj* val(P* s) {
  ws(s);
  if (s->p >= s->e || s->depth > 60) return NULL;
  wj* v = calloc(1, sizeof(wj));
  s->depth++;
  if (*s->p == '{' || *s->p == '[') {
    bool o = *s->p == '{';
    v->t   = o ? 'o' : 'a';
    s->p++;
    ws(s);
    if (s->p < s->e && *s->p == (o ? '}' : ']')) {
      s->p++;
      s->depth--;
      return v;
    }
    int cap = 0;
    while (1) {
      if (v->n == cap) {
        cap     = cap * 2 + 4;
        v->v    = realloc(v->v, cap * sizeof(wj*));
        v->keys = realloc(v->keys, cap * sizeof(char*));
      }
      v->keys[v->n] = NULL;
      if (o) {
        ws(s);
        if (!(v->keys[v->n] = str(s))) return NULL;
        ws(s);
        if (s->p >= s->e || *s->p != ':') return NULL;
        s->p++;
      }
      if (!(v->v[v->n] = val(s))) return NULL;
      v->n++;
      ws(s);
      if (s->p >= s->e) return NULL;
      if (*s->p == ',') {
        s->p++;
        continue;
      }
      if (*s->p != (o ? '}' : ']')) return NULL;
      s->p++;
      break;
    }
  }
  else if (*s->p == '"') {
    v->t = 's';
    if (!(v->s = str(s))) return NULL;
  }
  else {
    const char* b = s->p;
    while (s->p < s->e && strchr(",]} \n\t\r", *s->p) == NULL) s->p++;
    int n = s->p - b;
    if (!n) return NULL;
    v->s = strndup(b, n);
    if (!strcmp(v->s, "null"))
      v->t = 'z';
    else if (!strcmp(v->s, "true") || !strcmp(v->s, "false"))
      v->t = 'b';
    else {
      v->t = 'n';
      if (strspn(v->s, "0123456789+-.eE") != (size_t) n) return NULL;
    }
  }
  s->depth--;
  return v;
}
wj* wj_parse(const char* t, int len) {
  P   s = {t, t + len, 0};
  wj* v = val(&s);
  if (!v) return NULL;
  ws(&s);
  return s.p == s.e ? v : NULL;
}
wj* wj_get(wj* o, const char* k) {
  if (!o || o->t != 'o') return NULL;
  for (int i = 0; i < o->n; i++)
    if (!strcmp(o->keys[i], k)) return o->v[i];
  return NULL;
}
wj* wj_at(wj* a, int i) { return a && a->t == 'a' && i >= 0 && i < a->n ? a->v[i] : NULL; }

static bool same_num(const char* a, const char* b) {
  if (strncmp(a, "0x", 2) || strncmp(b, "0x", 2)) return false;
  for (a += 2; *a == '0'; a++) {}
  for (b += 2; *b == '0'; b++) {}
  return !strcmp(a, b);
}
// fields which are numbers, whether or not they are printed with leading zeros
static bool is_num(const char* path) {
  const char* l = strrchr(path, '.');
  return strstr(path, "storageProof") || (l && (!strcmp(l, ".r") || !strcmp(l, ".s")));
}
static char diffbuf[400];
static const char* diff(wj* a, wj* b, char* path, int pl) {
  int l = strlen(path);
  // "no address" is either null or an empty string
  if (b->t == 'z' && a->t == 's' && !strcmp(a->s, "0x")) return NULL;
  if (a->t != b->t) {
    snprintf(diffbuf, sizeof(diffbuf), "%s: %c %.80s instead of %c %.80s", path, a->t, a->s ? a->s : "", b->t, b->s ? b->s : "");
    return diffbuf;
  }
  switch (a->t) {
    case 'o':
      for (int i = 0; i < a->n; i++) {
        wj* w = wj_get(b, a->keys[i]);
        if (!w) continue; // an additional field
        snprintf(path + l, pl - l, ".%s", a->keys[i]);
        const char* d = diff(a->v[i], w, path, pl);
        path[l]       = 0;
        if (d) return d;
      }
      return NULL;
    case 'a':
      if (a->n != b->n) {
        snprintf(diffbuf, sizeof(diffbuf), "%s: %d elements instead of %d", path, a->n, b->n);
        return diffbuf;
      }
      for (int i = 0; i < a->n; i++) {
        snprintf(path + l, pl - l, "[%d]", i);
        const char* d = diff(a->v[i], b->v[i], path, pl);
        path[l]       = 0;
        if (d) return d;
      }
      return NULL;
    case 'z': return NULL;
    default:
      if (strcmp(a->s, b->s) && !(is_num(path) && same_num(a->s, b->s))) {
        snprintf(diffbuf, sizeof(diffbuf), "%s: %.80s instead of %.80s", path, a->s, b->s);
        return diffbuf;
      }
      return NULL;
  }
}
const char* wj_diff(wj* got, wj* want) {
  char path[300] = "";
  return diff(got, want, path, sizeof(path));
}
