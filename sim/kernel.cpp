#include "core.h"
#include "raw.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <pthread.h>
#include <queue>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>

World* W = nullptr;
Tape*  rec_tape = nullptr;
Tape*  rep_tape = nullptr;
bool   g_active = false;
__thread int t_insim = 0;
__thread int t_noyield = 0;

const char* const stream_names[NSTREAM] = {"WORK", "SCHED", "PREEMPT", "TIME", "NET", "NETF", "DISK", "CRASH"};

const char* const counter_names[] = {
  "runs", "incarnations", "thread_switches", "memory_preemptions", "system_calls", "network_and_timer_events", "thread_stalls", "spurious_wakeups",
  "short_write", "eintr_write", "eio_write", "enospc", "short_read", "eintr_read", "eio_read", "open_error", "close_error", "stat_error",
  "metadata_op_error", "fsync_error", "accept_error",
  "crash", "crash_mid_write",
  "http_status", "http_status_with_body", "http_redirect", "http_204_206", "truncated_content_length", "truncated_chunked", "reset_before_reply", "reset_mid_reply", "empty_reply", "stall_before_reply",
  "stall_mid_body", "stall_in_headers", "garbage_reply", "connection_refused", "idle_close", "slow_reply", "connection_reset_idle", "connect_hang", "name_resolution_failure",
  "origin_requests", "origin_ok_replies", "fragmented_replies", "chunked_replies", "out_of_order_completions",
  "client_connections", "client_requests", "client_responses", "client_aborts", "client_garbage", "client_stalls", "client_pipelined", "client_fragmented", "client_halfclose", "responses_5xx",
  "probe_retry", "probe_reorder", "probe_abort_path", "probe_resume_trim", "probe_resume_search", "probe_resume_clean", "probe_body_over_64k", "probe_multiple_flushes",
  "probe_empty_file", "probe_multiple_chunks", "probe_toc_load", "probe_toc_build", "probe_toc_stale", "probe_low_speed", "probe_fault_hit", "probe_clean_run",
  "probe_history_length", "race_checks", "probe_bound_reached", "answers_ok", "answers_error", "found", "not_found", "exit_success", "exit_failure",
  "allocation_failure", "thread_creation_failure", "descriptor_failure",
  "probe_files_beyond_2_GiB", "probe_downloads_of_more_than_65536_ranges", "other_process_file_operations", "other_process_killed", "database_replaced_meanwhile",
};
static_assert(sizeof(counter_names) / sizeof(*counter_names) == C_MAX);
static_assert(C_MAX <= NCOUNTERS);

// ------------------------------------------------------------------ choices
uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t next_bits(Stream s) {
  W->prng[s] += 0x9e3779b97f4a7c15ull;
  uint64_t z = W->prng[s];
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint32_t replay_next(Stream s) {
  Tape& t = rep_tape[s];
  uint32_t p = W->pos[s];
  uint32_t& c = W->rpos[s];
  while (c < t.n && t.e[c].pos < p) ++c;
  if (c < t.n && t.e[c].pos == p) return t.e[c].val;
  return 0;
}
static void rec(Stream s, uint32_t v) {
  Tape& t = rec_tape[s];
  if (v != 0) {
    if (t.n < MAXTAPE) t.e[t.n++] = {W->pos[s], v}; else t.overflow = 1;
  }
  ++W->pos[s];
}
uint64_t raw_bits(Stream s) { return W->replaying ? 0 : next_bits(s); }
uint32_t record_choice(Stream s, uint32_t v) {
  if (W->replaying) v = replay_next(s);
  rec(s, v);
  return v;
}
uint32_t choose(Stream s, uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v = W->replaying ? replay_next(s) % n : static_cast<uint32_t>(next_bits(s) % n);
  rec(s, v);
  return v;
}
bool flip(Stream s, double p) {
  if (p <= 0) return false;
  uint32_t v;
  if (W->replaying) v = replay_next(s) ? 1 : 0;
  else v = (static_cast<double>(next_bits(s) >> 11) * 0x1.0p-53) < p ? 1 : 0;
  rec(s, v);
  return v != 0;
}
uint32_t weighted(Stream s, std::initializer_list<double> w) {
  uint32_t v = 0, n = static_cast<uint32_t>(w.size());
  if (W->replaying) v = replay_next(s) % n;
  else {
    double sum = 0; for (double x : w) sum += x;
    double u = static_cast<double>(next_bits(s) >> 11) * 0x1.0p-53 * sum;
    for (double x : w) { if (u < x) break; u -= x; ++v; }
    if (v >= n) v = 0;
  }
  rec(s, v);
  return v;
}

// ------------------------------------------------------------------ accounting
void evhash(uint64_t a, uint64_t b) {
  W->evhash = mix64(W->evhash ^ mix64(a * 0x100000001b3ull + b)); ++W->nevents;
}
void faulthash(uint64_t a, uint64_t b) { W->faulthash = mix64(W->faulthash ^ mix64(a * 0x100000001b3ull + b)); }

static __thread int t_cur;
void trace(const char* fmt, ...) {
  if (!W->tracing) return;
  InSim g;
  if (W->tracelen > sizeof(W->trace) - 600) return;
  int64_t rel = W->now - 1'700'000'000ll * SEC;
  int n = snprintf(W->trace + W->tracelen, 64, "%12.6f T%d ", static_cast<double>(rel) / 1e9, t_cur);
  W->tracelen += static_cast<uint32_t>(n);
  va_list ap; va_start(ap, fmt);
  n = vsnprintf(W->trace + W->tracelen, 500, fmt, ap);
  va_end(ap);
  if (n > 499) n = 499;
  W->tracelen += static_cast<uint32_t>(n);
  W->trace[W->tracelen++] = '\n'; W->trace[W->tracelen] = 0;
}

void* shm_alloc(size_t n) {
  n = (n + 63) & ~size_t{63};
  if (W->bump + n > W->bump_end) {
    static const char m[] = "dst: shared arena exhausted\n"; raw_print(2, m, sizeof m - 1);
    raw6(SYS_exit_group, 97);
  }
  void* p = W->bump; W->bump += n; return p;
}

[[noreturn]] void end_incarnation(EndKind k, int code, const char* fmt, ...) {
  ++t_insim;
  W->end_kind = k; W->end_code = code;
  va_list ap; va_start(ap, fmt);
  vsnprintf(W->end_text, sizeof W->end_text, fmt, ap);
  va_end(ap);
  trace("END kind=%d code=%d %s", (int)k, code, W->end_text);
  raw6(SYS_exit_group, 98);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ scheduler
namespace {
enum ThState { T_RUN, T_BLOCK, T_DONE };
struct Th {
  int id = 0; std::atomic<uint32_t> go{0}; int st = T_RUN;
  PredFn pred = nullptr; void* arg = nullptr; int64_t deadline = -1; bool ok = false;
  int64_t stall = 0; uint64_t prio = 0;
  pthread_t real{}; bool joined = false; void* ret = nullptr;
  void* (*fn)(void*) = nullptr; void* fnarg = nullptr;
};
constexpr int MAXTH = 64;
Th* th[MAXTH]; int nth = 0; int alive = 0;
__thread Th* me = nullptr;
SchedCfg cfg;
CrashCfg crashcfg;
uint64_t same_run = 0;
uint64_t nsys = 0;

struct Ev { int64_t t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
std::vector<Ev>& evq = *new std::vector<Ev>; uint64_t evseq = 0;

void fwait(std::atomic<uint32_t>& w) {
  while (w.load(std::memory_order_acquire) == 0) raw6(SYS_futex, (long)&w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  w.store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<uint32_t>& w) {
  w.store(1, std::memory_order_release);
  raw6(SYS_futex, (long)&w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void run_due_events() {
  while (!evq.empty() && evq.front().t <= W->now) {
    std::pop_heap(evq.begin(), evq.end(), EvCmp{});
    Ev e = std::move(evq.back()); evq.pop_back();
    count(C_EVENTS);
    e.fn();
  }
}
bool runnable(Th* t) {
  if (t->st == T_DONE) return false;
  if (t->stall > W->now) return false;
  if (t->st == T_RUN) return true;
  return t->pred(t->arg) || (t->deadline >= 0 && t->deadline <= W->now);
}
void check_time() {
  if (W->now - 1'700'000'000ll * SEC > cfg.max_time)
    end_incarnation(E_TIME, 0, "simulated time limit exceeded (%.0f s)", static_cast<double>(cfg.max_time) / 1e9);
}
// choose who runs next; the caller has set its own state
Th* pick(Th* self, bool force_other, Why y) {
  Th* list[MAXTH];
  for (;;) {
    run_due_events();
    int n = 0;
    bool self_ok = false;
    for (int i = 0; i < nth; ++i) {
      if (!runnable(th[i])) continue;
      if (th[i] == self) { self_ok = true; continue; }
      list[n++] = th[i];
    }
    if (force_other && self && n > 1) {        // cyclic order after self
      std::rotate(list, std::find_if(list, list + n, [&](Th* t) { return t->id > self->id; }), list + n);
    }
    if (self_ok) {
      if (force_other) list[n++] = self;
      else { for (int i = n; i > 0; --i) list[i] = list[i - 1]; list[0] = self; ++n; }
    }
    if (n == 0) {
      int64_t nxt = INT64_MAX;
      if (!evq.empty()) nxt = evq.front().t;
      for (int i = 0; i < nth; ++i) {
        if (th[i]->st == T_DONE) continue;
        if (th[i]->stall > W->now) nxt = std::min(nxt, th[i]->stall);
        else if (th[i]->st == T_BLOCK && th[i]->deadline >= 0) nxt = std::min(nxt, th[i]->deadline);
      }
      if (nxt == INT64_MAX) {
        net_debug_dump();
        end_incarnation(E_DEADLOCK, 0, "deadlock: %d thread(s) blocked, no timer or network event pending", alive);
      }
      if (nxt > W->now) W->now = nxt;
      check_time();
      continue;
    }
    if (n == 1) return list[0];
    uint32_t idx = 0;
    if (!W->replaying) {
      if (cfg.policy == 2) {
        for (int i = 1; i < n; ++i) if (list[i]->prio > list[idx]->prio) idx = static_cast<uint32_t>(i);
        if (raw_bits(S_SCHED) % 100 < 2) list[idx]->prio = raw_bits(S_SCHED) >> 20;
      } else if (cfg.policy == 1) {
        uint64_t r = raw_bits(S_SCHED);
        if (static_cast<double>(r >> 11) * 0x1.0p-53 < cfg.p_switch || !self_ok) idx = static_cast<uint32_t>(raw_bits(S_SCHED) % static_cast<uint64_t>(n));
      }
      if (same_run > 20000 && self_ok && list[idx] == self) idx = (idx + 1) % static_cast<uint32_t>(n);
    }
    idx = record_choice(S_SCHED, idx) % static_cast<uint32_t>(n);
    (void)y;
    return list[idx];
  }
}
void handoff(Th* self, Th* nxt, Why y) {
  if (nxt == self) { ++same_run; return; }
  same_run = 0;
  count(C_SWITCH);
  W->schedhash = mix64(W->schedhash ^ (static_cast<uint64_t>(self ? self->id : 0) << 24 | static_cast<uint64_t>(nxt->id) << 16 | static_cast<uint64_t>(y)));
  evhash(0x51, static_cast<uint64_t>(nxt->id) << 8 | static_cast<uint64_t>(y));
  if (W->tracing) trace("switch T%d -> T%d (why %d)", self ? self->id : 0, nxt->id, (int)y);
  fwake(nxt->go);
  if (self && self->st != T_DONE) { fwait(self->go); }
}
const int64_t stall_tab[] = {0, 1 * MS, 20 * MS, 200 * MS, 900 * MS, 8 * SEC};
} // namespace

int cur_tid() { return me ? me->id : 0; }
int alive_threads() { return alive; }
int64_t now_ns() { return W->now; }
void at_time(int64_t when, std::function<void()> fn) {
  evq.push_back({std::max(when, W->now), evseq++, std::move(fn)});
  std::push_heap(evq.begin(), evq.end(), EvCmp{});
}

void sched_point(Why y) {
  if (!me) return;
  InSim g;
  W->now += 1000;
  {
    uint32_t v = 0;
    if (cfg.p_stall > 0 && !W->replaying && static_cast<double>(raw_bits(S_TIME) >> 11) * 0x1.0p-53 < cfg.p_stall) {
      v = 1 + static_cast<uint32_t>(raw_bits(S_TIME) % static_cast<uint64_t>(cfg.max_stall ? cfg.max_stall : 1));
      if (stall_tab[v] > cfg.stall_budget) v = 0;
    }
    v = record_choice(S_TIME, v) % 6;
    if (v && cfg.p_stall > 0 && stall_tab[v] <= cfg.stall_budget) {
      cfg.stall_budget -= stall_tab[v]; me->stall = W->now + stall_tab[v]; count(C_STALL); trace("stall %lld ms", (long long)(stall_tab[v] / MS));
    }
  }
  check_time();
  if (t_noyield) { me->stall = 0; return; }
  bool force = (y == Y_YIELD);
  Th* n = pick(me, force, y);
  handoff(me, n, y);
}

bool block_until(PredFn pred, void* arg, int64_t deadline, Why y) {
  InSim g;
  for (;;) {
    if (pred(arg)) return true;
    if (deadline >= 0 && deadline <= W->now) return false;
    me->pred = pred; me->arg = arg; me->deadline = deadline; me->st = T_BLOCK;
    Th* n = pick(me, false, y);
    handoff(me, n, y);
    me->st = T_RUN;
  }
}

void sys_enter(const char* name) {
  if (!me) return;
  InSim g;
  count(C_SYSCALLS);
  ++nsys;
  if (nsys > cfg.max_syscalls) end_incarnation(E_STEPS, 0, "system call limit exceeded (%llu)", (unsigned long long)nsys);
  if (crashcfg.at_sys && nsys == crashcfg.at_sys) {
    count(C_CRASH); faulthash(0xC0, nsys);
    evhash(0xC0, nsys);
    end_incarnation(E_CRASH, 0, "killed at system call %llu (%s)", (unsigned long long)nsys, name);
  }
  sched_point(Y_SYS);
}
static uint64_t nvfs = 0;
// returns: -1 no crash; otherwise the number of bytes (of 'len') that still take effect before the crash
int64_t vfs_crash_point(const char* what, uint64_t len) {
  ++nvfs;
  if (!crashcfg.at_vfs || nvfs != crashcfg.at_vfs) return -1;
  uint64_t part = len ? (static_cast<uint64_t>(crashcfg.partial) % (len + 1)) : 0;
  count(part && part < len ? C_CRASH_MIDWRITE : C_CRASH);
  faulthash(0xC1, nvfs); evhash(0xC1, nvfs << 20 | part);
  trace("CRASH at file operation %llu (%s), %llu of %llu bytes applied", (unsigned long long)nvfs, what, (unsigned long long)part, (unsigned long long)len);
  return static_cast<int64_t>(part);
}

// ---- thread life cycle
extern "C" int __real_create_impl(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
namespace {
struct ThreadEnd {           // destroyed after the application's own thread_local objects
  bool armed = false;
  ~ThreadEnd() {
    if (!armed || !g_active) return;
    InSim g;
    Th* self = me;
    vc_release(self);
    self->st = T_DONE; --alive;
    trace("thread T%d ends", self->id);
    Th* n = pick(self, true, Y_EXIT);
    handoff(self, n, Y_EXIT);
    for (;;) raw6(SYS_pause);        // never runs concurrently with the rest again
  }
};
thread_local ThreadEnd t_end;
void* trampoline(void* p) {
  Th* t = static_cast<Th*>(p);
  fwait(t->go);                      // allocates nothing before its turn
  t_end.armed = true;
  me = t; t_cur = t->id;
  t->ret = t->fn(t->fnarg);
  return t->ret;
}
} // namespace

int sim_thread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (me && refuse_thread()) return EAGAIN;
  InSim g;
  if (nth >= MAXTH) end_incarnation(E_INTERNAL, 0, "too many threads");
  Th* t = new Th;
  t->id = nth; t->fn = fn; t->fnarg = arg; t->prio = raw_bits(S_SCHED) >> 20;
  int r = __real_create_impl(&t->real, attr, trampoline, t);
  if (r) { delete t; return r; }
  th[nth++] = t; ++alive;
  vc_init_thread(t->id, me ? me->id : 0);
  if (out) *out = t->real;
  trace("create T%d", t->id);
  return 0;
}
static Th* find_thread(pthread_t p) {
  for (int i = nth - 1; i >= 0; --i) if (th[i] && pthread_equal(th[i]->real, p) && !th[i]->joined) return th[i];
  return nullptr;
}
int sim_thread_join(pthread_t p, void** ret) {
  Th* t = find_thread(p);
  if (!t) return ESRCH;
  if (t == me) return EDEADLK;
  block_on([&] { return t->st == T_DONE; }, -1, Y_JOIN);
  InSim g;
  vc_join_thread(me->id, t->id);
  vc_acquire(t);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
void sim_thread_detach(pthread_t p) { if (Th* t = find_thread(p)) t->joined = true; }

// ---- incarnation
void io_child_setup(const Incarnation& inc);     // interpose.cpp
void race_child_setup(const SchedCfg&);
static const Incarnation* g_inc;
static void* main_thread(void*) {
  const Incarnation& inc = *g_inc;
  std::vector<char*> av;
  static std::vector<std::string> args; args = inc.argv;
  for (auto& a : args) av.push_back(a.data());
  av.push_back(nullptr);
  t_end.armed = false;                        // exit() below runs the thread_local destructors of this thread
  t_insim = 0;
  sched_point(Y_CREATE);
  int rc = inc.main_fn(static_cast<int>(args.size()), av.data());
  if (W->tracing) trace("main returns %d", rc);
  exit(rc);
}

void run_incarnation(const Incarnation& inc) {
  W->end_kind = E_NONE; W->end_code = 0; W->end_text[0] = 0; W->race_count = 0; W->race_text[0] = 0;
  W->io_faults = 0; W->io_faults_lossy = 0; W->ntouch = 0; memset(W->n_alloc_ge, 0, sizeof W->n_alloc_ge); memset(W->n_alloc_late, 0, sizeof W->n_alloc_late); W->opened = 0; W->n_alloc = W->n_thread = W->n_fd = 0; W->res_faults = 0; W->nnet = 0; W->leak[0] = 0;
  W->live = W->live_peak = 0; W->fd_live = W->fd_peak = 0; for (int i = 0; i < 8; ++i) { W->low_live[i] = INT64_MAX; W->low_fd[i] = INT_MAX; }
  W->std_out.size = 0; W->std_err.size = 0;
  int64_t t0 = W->now;
  count(C_INCARNATIONS);
  if (W->tracing) {
    std::string s; for (auto& a : inc.argv) { s += a; s += ' '; }
    trace("=== start: %s", s.c_str());
  }
  // keep simulated time limits relative to this incarnation
  long pid = ::fork();
  if (pid < 0) { W->end_kind = E_INTERNAL; snprintf(W->end_text, sizeof W->end_text, "fork failed"); return; }
  if (pid == 0) {
    raw6(SYS_alarm, 120);                       // backstop against a loop the simulator cannot see
    cfg = inc.sched; crashcfg = inc.crash; g_res = inc.res; g_inc = &inc;
    cfg.max_time += W->now - 1'700'000'000ll * SEC;
    nth = 0; alive = 0; nsys = 0; nvfs = 0; same_run = 0;
    race_child_setup(cfg);
    io_child_setup(inc);
    if (inc.setup) inc.setup();
    // thread 0 stands for "before main"; the application's main thread is T1
    Th* t0th = new Th; t0th->id = 0; t0th->st = T_DONE; th[nth++] = t0th;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20);
    pthread_t pt;
    g_active = true;
    ++t_insim;
    sim_thread_create(&pt, &at, main_thread, nullptr);
    fwake(th[1]->go);
    for (;;) raw6(SYS_pause);
  }
  int status = 0;
  while (raw6(SYS_wait4, pid, (long)&status, 0, 0) == -EINTR) {}
  W->sim_time_total += W->now - t0;
  if (W->end_kind == E_NONE) {
    if (WIFEXITED(status) && WEXITSTATUS(status) == 97) { W->end_kind = E_INTERNAL; snprintf(W->end_text, sizeof W->end_text, "simulator ran out of space"); }
    else if (WIFEXITED(status)) { W->end_kind = E_EXIT; W->end_code = WEXITSTATUS(status); }
    else if (WTERMSIG(status) == SIGALRM || WTERMSIG(status) == SIGKILL) {
      W->end_kind = E_INTERNAL; snprintf(W->end_text, sizeof W->end_text, "wall clock backstop / killed (signal %d)", WTERMSIG(status));
    } else { W->end_kind = E_SIGNAL; W->end_code = WTERMSIG(status); snprintf(W->end_text, sizeof W->end_text, "died from signal %d", W->end_code); }
  }
  evhash(0xE0 + static_cast<uint64_t>(W->end_kind), static_cast<uint64_t>(W->end_code));
  if (W->end_kind == E_EXIT) count(W->end_code == 0 ? C_P_SUCCESS : C_P_FAILURE);
  trace("=== end: kind=%d code=%d %s", W->end_kind, W->end_code, W->end_text);
}
extern "C" __attribute__((visibility("default"), used)) void sim_trace_line(const char* s, size_t n) { if (g_active) trace("app: %.*s", static_cast<int>(n && s[n - 1] == '\n' ? n - 1 : n), s); }
