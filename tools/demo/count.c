#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>
// appends a byte to COUNT_FILE for each read of the file COUNT_PATH
static void hit(int fd) {
  const char *p = getenv("COUNT_PATH"), *f = getenv("COUNT_FILE"); char a[64], b[4096];
  snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(a, b, sizeof b - 1); if (k < 0 || !p || !f) return; b[k] = 0;
  if (strcmp(b, p)) return;
  int o = open(f, O_WRONLY | O_APPEND); if (o >= 0) { if (write(o, "r", 1)) {} close(o); }
}
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
ssize_t read(int fd, void* b, size_t n) { hit(fd); return REAL(read)(fd, b, n); }
ssize_t readv(int fd, const struct iovec* v, int n) { hit(fd); return REAL(readv)(fd, v, n); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { hit(fd); return REAL(pread64)(fd, b, n, o); }
