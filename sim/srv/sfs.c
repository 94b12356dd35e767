#include "sfs.h"
#include "../core/sim.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
static uint32_t C(uint32_t n, const char* l) { return n > 1 ? sim_choose(n, l) : 0; }
typedef struct {
  char     path[512];
  bool     used, dir;
  uint8_t* d;
  size_t   n;
  int      refs;
} sfile_t;
static sfile_t F[1024];
static struct {
  int     f;
  int64_t pos;
  int     flags;
} D[256];
bool sfs_full, sfs_faults;
static sfile_t* find(const char* p) {
  for (int i = 0; i < 1024; i++)
    if (F[i].used && !strcmp(F[i].path, p)) return F + i;
  return NULL;
}
static void norm(const char* p, char* o) {
  size_t k = 0;
  for (; *p && k < 510; p++)
    if (!(*p == '/' && k && o[k - 1] == '/')) o[k++] = *p;
  if (k > 1 && o[k - 1] == '/') k--;
  o[k] = 0;
  for (char* d; (d = strstr(o, "/..")) && (d[3] == '/' || !d[3]);) { // one level up
    char* e = d;
    while (e > o && *--e != '/');
    memmove(e, d + 3, strlen(d + 3) + 1);
  }
}
void sfs_each(void (*fn)(const char* path, bool dir, const uint8_t* d, size_t n)) {
  for (int i = 0; i < 1024; i++)
    if (F[i].used) fn(F[i].path, F[i].dir, F[i].d, F[i].n);
}
static sfile_t* create(const char* p, bool dir) {
  for (int i = 0; i < 1024; i++)
    if (!F[i].used && !F[i].refs) {
      memset(F + i, 0, sizeof(F[i]));
      F[i].used = true;
      F[i].dir  = dir;
      strcpy(F[i].path, p);
      return F + i;
    }
  return NULL;
}
int sfs_open(const char* path, int flags) {
  char p[512];
  norm(path, p);
  sfile_t* f = find(p);
  if (sfs_faults && sim_fault("open-fails", 10)) return -EMFILE;
  if (!f) {
    if (!(flags & O_CREAT)) return -ENOENT;
    char dirn[512];
    strcpy(dirn, p);
    char* s = strrchr(dirn, '/');
    if (s && s != dirn) {
      *s         = 0;
      sfile_t* d = find(dirn);
      if (!d || !d->dir) return -ENOENT;
    }
    f = create(p, false);
    if (!f) return -ENOSPC;
  }
  else if (f->dir) return -EISDIR;
  if (flags & O_TRUNC) f->n = 0;
  for (int i = 0; i < 256; i++)
    if (!D[i].flags) {
      D[i].f     = f - F;
      D[i].pos   = (flags & O_APPEND) ? (int64_t) f->n : 0;
      D[i].flags = flags | (1 << 30);
      f->refs++;
      return 5000 + i;
    }
  return -EMFILE;
}
static int fdi(int fd) { return fd >= 5000 && fd < 5256 && D[fd - 5000].flags ? fd - 5000 : -1; }
int sfs_close(int fd) {
  int i = fdi(fd);
  if (i < 0) return -EBADF;
  F[D[i].f].refs--;
  D[i].flags = 0;
  return 0;
}
int sfs_seek(int fd, int64_t pos) {
  int i = fdi(fd);
  if (i < 0) return -1;
  D[i].pos = pos;
  return 0;
}
ssize_t sfs_read(int fd, void* b, size_t n, int64_t off) {
  int i = fdi(fd);
  if (i < 0) return -EBADF;
  sfile_t* f = F + D[i].f;
  if (sfs_faults && sim_fault("read-fails", 10)) return -EIO;
  int64_t p = off >= 0 ? off : D[i].pos;
  if (p >= (int64_t) f->n) return 0;
  if (n > f->n - p) n = f->n - p;
  if (n > 1 && sfs_faults && sim_fault("short-file-read", 80)) n = 1 + C(n - 1, "short");
  memcpy(b, f->d + p, n);
  if (off < 0) D[i].pos += n;
  return n;
}
ssize_t sfs_write(int fd, const void* b, size_t n, int64_t off) {
  int i = fdi(fd);
  if (i < 0) return -EBADF;
  sfile_t* f = F + D[i].f;
  if (sfs_full) return -ENOSPC;
  if (sfs_faults && sim_fault("write-fails", 10)) return -EIO;
  if (n > 512 && sfs_faults && sim_fault("short-file-write", 30)) n = 1 + C(n - 1, "short");
  int64_t p = (D[i].flags & O_APPEND) ? (int64_t) f->n : off >= 0 ? off : D[i].pos;
  if (p + n > f->n) {
    f->d = realloc(f->d, p + n);
    if (p > (int64_t) f->n) memset(f->d + f->n, 0, p - f->n);
    f->n = p + n;
  }
  memcpy(f->d + p, b, n);
  if (off < 0) D[i].pos = p + n;
  return n;
}
int sfs_unlink(const char* path) {
  char p[512];
  norm(path, p);
  sfile_t* f = find(p);
  if (!f) return -ENOENT;
  f->used = false;
  return 0;
}
int sfs_rename(const char* a, const char* b) {
  char p[512], q[512];
  norm(a, p);
  norm(b, q);
  sfile_t *f = find(p), *g = find(q);
  if (!f) return -ENOENT;
  if (g && g != f) g->used = false;
  strcpy(f->path, q);
  return 0;
}
int sfs_mkdir(const char* path) {
  char p[512];
  norm(path, p);
  if (find(p)) return -EEXIST;
  if (sfs_full) return -ENOSPC;
  return create(p, true) ? 0 : -ENOSPC;
}
int sfs_stat(const char* path, uint64_t* size, bool* dir) {
  char p[512];
  norm(path, p);
  sfile_t* f = find(p);
  if (!f) return -ENOENT;
  *size = f->n;
  *dir  = f->dir;
  return 0;
}
int sfs_fstat(int fd, uint64_t* size) {
  int i = fdi(fd);
  if (i < 0) return -EBADF;
  *size = F[D[i].f].n;
  return 0;
}
char** sfs_scandir(const char* path, int* n) {
  char p[512];
  norm(path, p);
  sfile_t* d = find(p);
  *n         = 0;
  if (!d || !d->dir) return NULL;
  char** l = calloc(1025, sizeof(char*));
  size_t k = strlen(p);
  for (int i = 0; i < 1024; i++)
    if (F[i].used && !strncmp(F[i].path, p, k) && F[i].path[k] == '/' && !strchr(F[i].path + k + 1, '/')) {
      char* e = malloc(strlen(F[i].path + k) + 2);
      e[0]    = F[i].dir ? 'd' : 'f';
      strcpy(e + 1, F[i].path + k + 1);
      l[(*n)++] = e;
    }
  return l;
}
void sfs_free_list(char** l) {
  for (char** p = l; *p; p++) free(*p);
  free(l);
}
void sfs_put(const char* path, const void* d, size_t n) {
  char p[512];
  norm(path, p);
  sfile_t* f = find(p);
  if (!f) f = create(p, false);
  f->d = realloc(f->d, n + 1);
  memcpy(f->d, d, n);
  f->n = n;
}
const uint8_t* sfs_get(const char* path, size_t* n) {
  char p[512];
  norm(path, p);
  sfile_t* f = find(p);
  if (!f || f->dir) return NULL;
  *n = f->n;
  return f->d ? f->d : (const uint8_t*) "";
}
void sfs_crash(void) { // the process dies: what was written so far stays
  for (int i = 0; i < 256; i++)
    if (D[i].flags) {
      F[D[i].f].refs--;
      D[i].flags = 0;
    }
}
