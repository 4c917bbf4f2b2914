#include <errno.h>
#include <stdlib.h>
extern void* __libc_malloc(size_t);
// ALLOC=min:max:n: the n-th request for min to max bytes is refused
void* malloc(size_t k) {
  static size_t lo, hi, n; static int ready, c;
  if (!ready) { ready = 1; char* e = getenv("ALLOC"); if (e) { lo = strtoul(e, &e, 10); hi = strtoul(e + 1, &e, 10); n = strtoul(e + 1, &e, 10); } }
  if (n && k >= lo && k <= hi && (size_t)++c == n) { errno = ENOMEM; return NULL; }
  return __libc_malloc(k);
}
