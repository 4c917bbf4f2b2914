// Runtime for code compiled with -fsanitize=thread: preemption at memory accesses, step budget and a
// happens-before race detector (vector clocks, byte-precise shadow cells). Not the ThreadSanitizer library.
#include "core.h"
#include "raw.h"
#include <cstdio>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <unordered_map>

#define EXP extern "C" __attribute__((visibility("default")))
uint64_t g_steps = 0;
extern bool g_race_on;
extern double g_p_spurious;
namespace {
constexpr int MAXT = 64;
using VC = uint32_t[MAXT];
VC clk[MAXT];
int ntids = 1;
struct SyncVC { uint32_t v[MAXT]; };
std::unordered_map<const void*, SyncVC>* syncs;
SyncVC fence;

uint64_t next_preempt = ~0ull, step_limit = ~0ull;
double preempt_mean = 0;
constexpr uint64_t FORCED = 200000;

// shadow: open hash of pages of 4096 application bytes
struct Cell { uint32_t epoch; uint8_t tid; uint8_t mask; uint8_t write; uint8_t pad; uintptr_t pc; };
struct Gran { Cell c[3]; uint8_t rr; };
struct Page { uintptr_t key; Gran g[512]; };
constexpr size_t NPAGES = 1 << 16;
Page** pages;
Page* page_of(uintptr_t a, bool make) {
  uintptr_t k = a >> 12; size_t h = mix64(k) & (NPAGES - 1);
  for (size_t i = 0; i < NPAGES; ++i) {
    Page* p = pages[(h + i) & (NPAGES - 1)];
    if (!p) {
      if (!make) return nullptr;
      p = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      p->key = k; pages[(h + i) & (NPAGES - 1)] = p; return p;
    }
    if (p->key == k) return p;
  }
  return nullptr;
}
void describe(uintptr_t pc, char* out, size_t n) {
  Dl_info di;
  if (dladdr(reinterpret_cast<void*>(pc), &di) && di.dli_fname) {
    const char* b = strrchr(di.dli_fname, '/');
    snprintf(out, n, "%s+0x%lx(%s)", b ? b + 1 : di.dli_fname, static_cast<unsigned long>(pc - reinterpret_cast<uintptr_t>(di.dli_fbase)), di.dli_sname ? di.dli_sname : "?");
  } else snprintf(out, n, "0x%lx", static_cast<unsigned long>(pc));
}
void report(uintptr_t addr, int t1, bool w1, uintptr_t pc1, int t2, bool w2, uintptr_t pc2) {
  if (W->race_count++ > 0) return;
  InSim g;
  char a[600], b[600]; describe(pc1, a, sizeof a); describe(pc2, b, sizeof b);
  snprintf(W->race_text, sizeof W->race_text, "data race on 0x%lx: T%d %s at %s / T%d %s at %s", static_cast<unsigned long>(addr), t1, w1 ? "write" : "read", a, t2, w2 ? "write" : "read", b);
  trace("%s", W->race_text);
}
void check(uintptr_t a, size_t n, bool write, uintptr_t pc) {
  const int t = cur_tid(); uint32_t* my = clk[t];
  count(C_P_RACECHECKS);
  while (n) {
    size_t off = a & 7, len = 8 - off; if (len > n) len = n;
    uint8_t mask = static_cast<uint8_t>(((1u << len) - 1) << off);
    Page* p = page_of(a, true);
    Gran& g = p->g[(a >> 3) & 511];
    int slot = -1;
    for (int i = 0; i < 3; ++i) {
      Cell& c = g.c[i];
      if (c.epoch == 0) { if (slot < 0) slot = i; continue; }
      if (c.tid == t) { if (c.mask == mask && (c.write == write || write)) slot = i; else if (c.mask == mask && c.write && !write && c.epoch == my[t]) slot = -2; if (slot == -2) break; continue; }
      if ((c.mask & mask) && (c.write || write) && c.epoch > my[c.tid]) report(a, t, write, pc, c.tid, c.write, c.pc);
    }
    if (slot == -1) { // replace: prefer cells already ordered before us
      for (int i = 0; i < 3 && slot < 0; ++i) if (g.c[i].tid == t || g.c[i].epoch <= my[g.c[i].tid]) { if (!g.c[i].write || write) slot = i; }
      if (slot < 0) { slot = g.rr; g.rr = static_cast<uint8_t>((g.rr + 1) % 3); }
    }
    if (slot >= 0) g.c[slot] = {my[t], static_cast<uint8_t>(t), mask, write, 0, pc};
    a += len; n -= len;
  }
}
void preempt_slow() {
  if (g_steps >= step_limit) end_incarnation(E_STEPS, 0, "step budget exhausted: %llu memory accesses without finishing", (unsigned long long)g_steps);
  if (t_noyield || t_insim) { next_preempt = g_steps + 100; return; }
  bool forced = true;
  if (alive_threads() > 1) {
    if (preempt_mean > 0) { count(C_PREEMPT); sched_point(Y_PREEMPT); forced = false; }
    else sched_point(Y_YIELD);
  }
  uint32_t gap = 0;
  if (alive_threads() > 1 && !forced) {
    if (!W->replaying) { uint64_t r = raw_bits(S_PREEMPT); double u = (static_cast<double>(r >> 11) + 1) * 0x1.0p-53; gap = static_cast<uint32_t>(1 + preempt_mean * -__builtin_log(u)); }
    gap = record_choice(S_PREEMPT, gap);
  }
  next_preempt = g_steps + (gap ? gap : FORCED);
  if (next_preempt > step_limit) next_preempt = step_limit;
}
inline void access(void* p, size_t n, bool w, uintptr_t pc) {
  if (!g_active || t_insim) return;
  if (cur_tid() == 0) return;
  ++g_steps;
  if (g_race_on && ntids > 2) { InSim g; check(reinterpret_cast<uintptr_t>(p), n, w, pc); }
  if (__builtin_expect(g_steps >= next_preempt, 0)) preempt_slow();
}
} // namespace

void race_child_setup(const SchedCfg& c) {
  g_steps = 0; step_limit = c.max_steps; preempt_mean = c.preempt_mean; g_p_spurious = c.p_spurious;
  next_preempt = c.preempt_mean > 0 ? 1 : FORCED;
  g_race_on = c.races;
  memset(clk, 0, sizeof clk); ntids = 1; syncs = new std::unordered_map<const void*, SyncVC>; memset(&fence, 0, sizeof fence);
  for (int i = 0; i < MAXT; ++i) clk[i][i] = 1;
  if (g_race_on) pages = static_cast<Page**>(mmap(nullptr, NPAGES * sizeof(Page*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
}
void vc_init_thread(int c, int p) {
  if (c + 1 > ntids) ntids = c + 1;
  for (int i = 0; i < MAXT; ++i) if (clk[p][i] > clk[c][i]) clk[c][i] = clk[p][i];
  ++clk[c][c]; ++clk[p][p];
}
void vc_join_thread(int p, int c) { for (int i = 0; i < MAXT; ++i) if (clk[c][i] > clk[p][i]) clk[p][i] = clk[c][i]; }
void vc_release(const void* a) {
  if (!g_race_on || cur_tid() == 0) return;
  InSim g; int t = cur_tid(); SyncVC& s = (*syncs)[a];
  for (int i = 0; i < MAXT; ++i) if (clk[t][i] > s.v[i]) s.v[i] = clk[t][i];
  ++clk[t][t];
}
void vc_acquire(const void* a) {
  if (!g_race_on || cur_tid() == 0) return;
  InSim g; int t = cur_tid(); auto it = syncs->find(a); if (it == syncs->end()) return;
  for (int i = 0; i < MAXT; ++i) if (it->second.v[i] > clk[t][i]) clk[t][i] = it->second.v[i];
}
void race_reset_range(const void* p, size_t n) {
  if (ntids <= 2) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~uintptr_t{7}, e = reinterpret_cast<uintptr_t>(p) + n;
  while (a < e) {
    Page* pg = page_of(a, false); uintptr_t pe = (a & ~uintptr_t{4095}) + 4096; if (pe > e) pe = e;
    if (pg) for (uintptr_t x = a; x < pe; x += 8) { Gran& g = pg->g[(x >> 3) & 511]; g.c[0].epoch = g.c[1].epoch = g.c[2].epoch = 0; }
    a = (a & ~uintptr_t{4095}) + 4096;
  }
}

#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) { if (g_active && !t_insim) ++g_steps; }
EXP void __tsan_func_exit() {}
#define RW(N) EXP void __tsan_read##N(void* p) { access(p, N, false, PC); } EXP void __tsan_write##N(void* p) { access(p, N, true, PC); } \
  EXP void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } EXP void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
  EXP void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } EXP void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
EXP void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
EXP void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
EXP void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

static inline void at_point() { if (g_active && !t_insim && cur_tid() > 0) { ++g_steps; if (g_steps >= next_preempt) preempt_slow(); } }
static inline bool is_acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline void pre(const volatile void* a, int m) { at_point(); if (g_active && !t_insim && is_rel(m)) vc_release(const_cast<const void*>(a)); }
static inline void post(const volatile void* a, int m) { if (g_active && !t_insim && is_acq(m)) vc_acquire(const_cast<const void*>(a)); }
#define ATOM(B, T) \
  EXP T __tsan_atomic##B##_load(const volatile T* a, int m) { at_point(); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); post(a, m); return v; } \
  EXP void __tsan_atomic##B##_store(volatile T* a, T v, int m) { pre(a, m); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##B##_exchange(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int m) { pre(a, m); T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int) { pre(a, m); int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int) { pre(a, m); int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, m); return r; } \
  EXP T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int m, int) { pre(a, m); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); post(a, m); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int) { at_point(); if (g_active && !t_insim) { vc_release(&fence); vc_acquire(&fence); } }
EXP void __tsan_atomic_signal_fence(int) {}
#ifdef DST_COV                                            // tools/cov.sh: which lines of the repository do the runs of a property execute?
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/syscall.h>
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() {
  static uint8_t* map; static bool tried; static char app[64];
  if (!tried) { tried = true; int fa = static_cast<int>(syscall(SYS_open, "/tmp/dst.covapp", O_RDONLY)); if (syscall(SYS_read, fa, app, 60) < 0) return; int fd = static_cast<int>(syscall(SYS_open, "/tmp/dst.cov", O_RDWR)); if (fd >= 0) map = static_cast<uint8_t*>(mmap(nullptr, 1 << 23, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); }
  if (!map) return;
  const uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
  static struct { uintptr_t page, base; } cache[1024]; auto& c = cache[pc >> 12 & 1023];
  if (c.page != pc >> 12) { Dl_info i; c.page = pc >> 12; c.base = dladdr(reinterpret_cast<void*>(pc), &i) && strstr(i.dli_fname, app) ? reinterpret_cast<uintptr_t>(i.dli_fbase) : 0; }
  if (c.base && pc - c.base < (1u << 23)) map[pc - c.base] = 1;
}
#endif
