// A simulated file system in memory with faults
#ifndef SFS_H
#define SFS_H
#include <stdbool.h>
#include <stdint.h>
#include <sys/types.h>
int     sfs_open(const char* path, int flags);
int     sfs_close(int fd);
int     sfs_seek(int fd, int64_t pos);
ssize_t sfs_read(int fd, void* b, size_t n, int64_t off);
ssize_t sfs_write(int fd, const void* b, size_t n, int64_t off);
int     sfs_unlink(const char* path);
int     sfs_rename(const char* a, const char* b);
int     sfs_mkdir(const char* path);
int     sfs_stat(const char* path, uint64_t* size, bool* dir);
int     sfs_fstat(int fd, uint64_t* size);
char**  sfs_scandir(const char* path, int* n); // entries "f<name>" or "d<name>"
void    sfs_free_list(char** l);
void    sfs_put(const char* path, const void* d, size_t n);
const uint8_t* sfs_get(const char* path, size_t* n); // NULL if missing
void    sfs_each(void (*fn)(const char* path, bool dir, const uint8_t* d, size_t n));
void    sfs_crash(void); // the process dies
extern bool sfs_full, sfs_faults;
#endif
