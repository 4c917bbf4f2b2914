#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
// appends the number of curl handles that were never cleaned up, if any, to EASY_FILE
static int n;
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
void* curl_easy_init(void) { void* h = REAL(curl_easy_init)(); if (h) __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST); return h; }
void curl_easy_cleanup(void* h) { if (h) __atomic_sub_fetch(&n, 1, __ATOMIC_SEQ_CST); REAL(curl_easy_cleanup)(h); }
static __attribute__((destructor)) void end(void) { const char* f = getenv("EASY_FILE"); FILE* o = f && n ? fopen(f, "a") : 0; if (o) { fprintf(o, "%d\n", n); fclose(o); } }
