#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
// nothing leaves this machine: all transfers go to a closed local port, and their failure is reported as a bad certificate.
// VERIFY_FILE gets a line for each attempt to switch off the verification of the server.
#define REAL(f) ((__typeof__(&f))dlsym(RTLD_NEXT, #f))
struct msg { int msg; void* easy; union { void* w; int result; } data; };
int curl_easy_setopt(void* h, int o, ...) {
  va_list a; va_start(a, o); void* v = va_arg(a, void*); va_end(a);
  const char* f = getenv("VERIFY_FILE");
  if (o == 10002) v = "https://127.0.0.1:9/";
  if ((o == 64 || o == 81) && !(long)v && f) { FILE* x = fopen(f, "a"); if (x) { fprintf(x, "%d\n", o); fclose(x); } }
  return REAL(curl_easy_setopt)(h, o, v);
}
struct msg* curl_multi_info_read(void* m, int* q) { struct msg* r = REAL(curl_multi_info_read)(m, q); if (r && r->msg == 1 && r->data.result) r->data.result = 60; return r; }
