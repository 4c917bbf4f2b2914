#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
// FAULT=kind[:n]: the n-th (default: every) matching operation on a path containing FAULT_PATH fails with EIO; FAULT_FLAG: only while that file exists
static int hit(const char* kind, const char* path) {
  const char* p = getenv("FAULT_PATH"); const char* f = getenv("FAULT"); const char* g = getenv("FAULT_FLAG"); static int n;
  size_t l = strlen(kind);
  if (!p || !f || !path || !strstr(path, p) || strncmp(f, kind, l) || (f[l] && f[l] != ':') || (g && access(g, F_OK))) return 0;
  ++n;
  if (f[l] == ':' && atoi(f + l + 1) != n) return 0;
  errno = EIO;
  return 1;
}
static int hitfd(const char* kind, int fd) {
  char a[64], b[4096]; snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(a, b, sizeof b - 1); if (k < 0) return 0; b[k] = 0;
  return hit(kind, b);
}
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
int stat(const char* p, struct stat* s) { return hit("stat", p) ? -1 : REAL(stat)(p, s); }
ssize_t read(int fd, void* b, size_t n) { return hitfd("read", fd) ? -1 : REAL(read)(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return hitfd("write", fd) ? -1 : REAL(write)(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n) { return hitfd("write", fd) ? -1 : REAL(writev)(fd, v, n); }
FILE* fopen64(const char* p, const char* m) { return hit("open", p) ? NULL : REAL(fopen64)(p, m); }
FILE* fopen(const char* p, const char* m) { return hit("open", p) ? NULL : REAL(fopen)(p, m); }
int fclose(FILE* f) { int h = hitfd("close", fileno(f)); int r = REAL(fclose)(f); if (h) { errno = EIO; return EOF; } return r; }
