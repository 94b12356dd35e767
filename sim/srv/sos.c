#define _GNU_SOURCE
// The rest of the operating system for the simulated server: files below /sim/ live in the simulated file system
#include "../core/sim.h"
#include "bytes.h"
#include "sfs.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
int __wrap_system(const char* cmd) { return 0; }
int __wrap_rand(void) {
  static uint64_t s;
  if (!s) s = sim_stream("rand");
  return (int) (sim_rand(&s) & 0x7fffffff);
}
bool verify_zk_proof(bytes_t a, bytes_t b) { return false; }
FILE* __real_fopen(const char* p, const char* m);
typedef struct {
  int fd;
} cookie;
static ssize_t ck_read(void* c, char* b, size_t n) {
  ssize_t r = sfs_read(((cookie*) c)->fd, b, n, -1);
  return r < 0 ? -1 : r;
}
static ssize_t ck_write(void* c, const char* b, size_t n) {
  ssize_t r = sfs_write(((cookie*) c)->fd, b, n, -1);
  return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) {
  static int64_t pos;
  uint64_t       size = 0;
  sfs_fstat(((cookie*) c)->fd, &size);
  if (w == SEEK_END) pos = size + *o;
  else if (w == SEEK_SET)
    pos = *o;
  else
    return -1;
  *o = pos;
  return sfs_seek(((cookie*) c)->fd, pos);
}
static int ck_close(void* c) {
  sfs_close(((cookie*) c)->fd);
  free(c);
  return 0;
}
#include <fcntl.h>
FILE* __wrap_fopen(const char* p, const char* m) {
  if (!strncmp(p, "/proc/", 6)) { // what the process costs is not part of a simulated run
    static char text[] = "1 (colibri) R 1 1 1 0 -1 4194304 100 0 2 0 3 4 0 0 20 0 1 0 500 1000000 250 1\nvoluntary_ctxt_switches:\t5\nnonvoluntary_ctxt_switches:\t6\nrchar: 7\nwchar: 8\nread_bytes: 9\nwrite_bytes: 10\n";
    return strstr(p, "statm") ? fmemopen("1000 250 100 10 0 50 0\n", 23, "r") : fmemopen(text, sizeof(text) - 1, "r");
  }
  if (strncmp(p, "/sim/", 5)) return __real_fopen(p, m);
  int fl = *m == 'r' ? O_RDONLY : *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  int fd = sfs_open(p, fl);
  if (fd < 0) return NULL;
  cookie* c = malloc(sizeof(cookie));
  c->fd     = fd;
  return fopencookie(c, m, (cookie_io_functions_t) {ck_read, ck_write, ck_seek, ck_close});
}
#include <sys/resource.h>
int __wrap_getrusage(int who, struct rusage* u) {
  memset(u, 0, sizeof(*u));
  u->ru_utime.tv_sec = 1;
  return 0;
}
int __real_stat(const char* p, struct stat* s);
int __wrap_stat(const char* p, struct stat* s) {
  if (strncmp(p, "/sim/", 5)) return __real_stat(p, s);
  uint64_t size;
  bool     dir;
  if (sfs_stat(p, &size, &dir) < 0) return -1;
  memset(s, 0, sizeof(*s));
  s->st_size = size;
  s->st_mode = dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  return 0;
}

int __real_mkdir(const char* p, mode_t m);
int __wrap_mkdir(const char* p, mode_t m) {
  if (!strcmp(p, "/sim") || strncmp(p, "/sim/", 5)) {
    if (!strcmp(p, "/sim")) return errno = EEXIST, -1;
    sim_log("mkdir %s", p);
    return errno = EACCES, -1; // nothing outside
  }
  int r = sfs_mkdir(p);
  return r < 0 ? (errno = -r, -1) : 0;
}
int __wrap_remove(const char* p) {
  if (strncmp(p, "/sim/", 5)) return errno = EACCES, -1;
  int r = sfs_unlink(p);
  return r < 0 ? (errno = -r, -1) : 0;
}
int __wrap_rename(const char* a, const char* b) {
  if (strncmp(a, "/sim/", 5) || strncmp(b, "/sim/", 5)) return errno = EACCES, -1;
  int r = sfs_rename(a, b);
  return r < 0 ? (errno = -r, -1) : 0;
}
