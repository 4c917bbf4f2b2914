#pragma once
#include <sys/syscall.h>
#include <cerrno>
// system calls that never go through the interposed wrappers
static inline long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static inline long rawret(long r) { if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; } return r; }
static inline void raw_print(int fd, const char* s, size_t n) { raw6(SYS_write, fd, (long)s, (long)n); }
