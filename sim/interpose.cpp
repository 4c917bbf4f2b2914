// pthread, time, randomness, memory and miscellaneous libc functions
#include "core.h"
#include "raw.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/random.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <deque>
#include <csignal>
#include <cerrno>
#include <new>

#define EXP extern "C" __attribute__((visibility("default")))
template <class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

int sim_thread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int sim_thread_join(pthread_t, void**);
void sim_thread_detach(pthread_t);
static inline bool sim_on() { return g_active && t_insim == 0 && cur_tid() > 0; }

extern "C" FILE* real_fopen(const char* p, const char* m) { static auto f = real<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m); }
extern "C" int real_fclose(FILE* x) { static auto f = real<int (*)(FILE*)>("fclose"); return f(x); }
extern "C" int real_fileno(FILE* x) { static auto f = real<int (*)(FILE*)>("fileno"); return f(x); }
extern "C" int __real_create_impl(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return f(t, a, fn, arg);
}

// ------------------------------------------------------------------ threads
EXP int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!sim_on()) return __real_create_impl(t, a, fn, arg);
  sys_enter("pthread_create");
  int r = sim_thread_create(t, a, fn, arg);
  if (r == 0) { int ds = 0; if (a) pthread_attr_getdetachstate(a, &ds); if (ds == PTHREAD_CREATE_DETACHED) sim_thread_detach(*t); sched_point(Y_CREATE); }
  return r;
}
EXP int pthread_join(pthread_t t, void** r) { if (!sim_on()) { static auto f = real<int (*)(pthread_t, void**)>("pthread_join"); return f(t, r); } sys_enter("pthread_join"); return sim_thread_join(t, r); }
EXP int pthread_detach(pthread_t t) { if (!sim_on()) { static auto f = real<int (*)(pthread_t)>("pthread_detach"); return f(t); } InSim g; sim_thread_detach(t); return 0; }
EXP int sched_yield() { if (!sim_on()) return static_cast<int>(raw6(SYS_sched_yield)); sched_point(Y_YIELD); return 0; }

// ------------------------------------------------------------------ mutexes
struct Mx { int owner = 0; int depth = 0; };
template <class T> struct Side {                      // state kept beside application objects, by address
  std::unordered_map<const void*, T>* m = nullptr;
  T& operator[](const void* p) { if (!m) m = new std::unordered_map<const void*, T>; return (*m)[p]; }
  void erase(const void* p) { if (m) m->erase(p); }
};
static Side<Mx> mx;
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int mlock(pthread_mutex_t* m, int64_t deadline) {
  sched_point(Y_LOCK);
  Mx* x; { InSim g; x = &mx[m]; }
  if (x->owner == cur_tid()) {
    if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++x->depth; return 0; }
    if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (x->owner && !block_on([&] { return x->owner == 0; }, deadline, Y_LOCK)) return ETIMEDOUT;
  x->owner = cur_tid(); x->depth = 1;
  vc_acquire(m);
  return 0;
}
static int munlock(pthread_mutex_t* m, bool point) {
  Mx* x; { InSim g; x = &mx[m]; }
  if (x->owner != cur_tid()) {
    if (mkind(m) != PTHREAD_MUTEX_NORMAL) return EPERM;
    if (x->owner == 0) { if (W->race_count++ == 0) snprintf(W->race_text, sizeof W->race_text, "unlock of a mutex that is not locked"); return 0; }
    if (W->race_count++ == 0) snprintf(W->race_text, sizeof W->race_text, "unlock of a mutex owned by another thread");
  }
  if (--x->depth > 0) return 0;
  vc_release(m);
  x->owner = 0;
  if (point) sched_point(Y_UNLOCK);
  return 0;
}
static int64_t mono_off() { return 1'700'000'000ll * SEC - 5000 * SEC; }
static int64_t abs_ns(clockid_t c, const struct timespec* t) {
  int64_t v = t->tv_sec > 4'000'000'000ll ? INT64_MAX / 4 : t->tv_sec * SEC + t->tv_nsec;
  return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? v : v + mono_off();
}
EXP int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  static auto f = real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init"); if (g_active) { InSim g; mx.erase(m); } return f(m, a);
}
EXP int pthread_mutex_destroy(pthread_mutex_t* m) { if (g_active) { InSim g; mx.erase(m); } return 0; }
EXP int pthread_mutex_lock(pthread_mutex_t* m) { if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } return mlock(m, -1); }
EXP int pthread_mutex_unlock(pthread_mutex_t* m) { if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } return munlock(m, true); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  sched_point(Y_LOCK); Mx* x; { InSim g; x = &mx[m]; }
  if (x->owner) { if (x->owner == cur_tid() && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { ++x->depth; return 0; } return EBUSY; }
  x->owner = cur_tid(); x->depth = 1; vc_acquire(m); return 0;
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) { if (!sim_on()) return 0; return mlock(m, abs_ns(CLOCK_REALTIME, t)); }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) { if (!sim_on()) return 0; return mlock(m, abs_ns(c, t)); }
// spin locks behave as mutexes
EXP int pthread_spin_init(pthread_spinlock_t* s, int) { InSim g; mx.erase((const void*)s); return 0; }
EXP int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
EXP int pthread_spin_lock(pthread_spinlock_t* s) { if (!sim_on()) return 0; sched_point(Y_LOCK); Mx* x; { InSim g; x = &mx[(const void*)s]; } block_on([&] { return x->owner == 0; }, -1, Y_LOCK); x->owner = cur_tid(); x->depth = 1; vc_acquire((const void*)s); return 0; }
EXP int pthread_spin_unlock(pthread_spinlock_t* s) { if (!sim_on()) return 0; Mx* x; { InSim g; x = &mx[(const void*)s]; } vc_release((const void*)s); x->owner = 0; sched_point(Y_UNLOCK); return 0; }

// ------------------------------------------------------------------ condition variables
struct Waiter { bool woken = false; };
struct Cv { std::deque<Waiter*> q; };
static Side<Cv> cvs;
extern double g_p_spurious;
double g_p_spurious = 0;
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  sched_point(Y_COND);
  Waiter w; Cv* cv; { InSim g; cv = &cvs[c]; cv->q.push_back(&w); }
  int save = 0; { InSim g; save = mx[m].depth; mx[m].depth = 1; }
  munlock(m, false);
  int64_t spurious = -1;
  { InSim g; if (flip(S_SCHED, g_p_spurious)) { spurious = W->now + static_cast<int64_t>(choose(S_SCHED, 20)) * MS; at_time(spurious, [] {}); } }
  bool ok = block_on([&] { return w.woken || (spurious >= 0 && W->now >= spurious); }, deadline, Y_COND);
  if (!w.woken) {
    InSim g;
    for (auto it = cv->q.begin(); it != cv->q.end(); ++it) if (*it == &w) { cv->q.erase(it); break; }
    if (ok) count(C_SPURIOUS);
  }
  Mx* x; { InSim g; x = &mx[m]; }
  block_on([&] { return x->owner == 0; }, -1, Y_LOCK);
  x->owner = cur_tid(); x->depth = save ? save : 1;
  vc_acquire(m);
  return ok ? 0 : ETIMEDOUT;
}
static void cwake(pthread_cond_t* c, bool all) {
  sched_point(Y_COND);
  { InSim g; Cv& cv = cvs[c];
    while (!cv.q.empty()) {
      size_t i = all ? 0 : choose(S_SCHED, static_cast<uint32_t>(cv.q.size()));
      cv.q[i]->woken = true; cv.q.erase(cv.q.begin() + static_cast<long>(i)); if (!all) break;
    } }
  sched_point(Y_COND);
}
EXP int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { static auto f = real<int (*)(pthread_cond_t*, const pthread_condattr_t*)>("pthread_cond_init"); if (g_active) { InSim g; cvs.erase(c); } return f(c, a); }
EXP int pthread_cond_destroy(pthread_cond_t* c) { if (g_active) { InSim g; cvs.erase(c); } return 0; }
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } return cwait(c, m, -1); }
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (!sim_on()) return ETIMEDOUT; clockid_t k = (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME; return cwait(c, m, abs_ns(k, t)); }
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (!sim_on()) return ETIMEDOUT; return cwait(c, m, abs_ns(k, t)); }
EXP int pthread_cond_signal(pthread_cond_t* c) { if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } cwake(c, false); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t* c) { if (!sim_on()) { if (g_active) return 0; static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); } cwake(c, true); return 0; }

// ------------------------------------------------------------------ rwlocks, once, semaphores, barriers
struct Rw { int writer = 0; int readers = 0; };
static Side<Rw> rws;
static int rlock(const void* r, bool wr, bool tryit) {
  sched_point(Y_LOCK); Rw* x; { InSim g; x = &rws[r]; }
  auto free_ = [&] { return x->writer == 0 && (!wr || x->readers == 0); };
  if (!free_()) { if (tryit) return EBUSY; block_on(free_, -1, Y_LOCK); }
  if (wr) x->writer = cur_tid(); else ++x->readers;
  vc_acquire(r); return 0;
}
#define RWPASS(name, T) { if (g_active) return 0; static auto f = real<int (*)(T)>(name); return f(r); }
EXP int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t* a) { static auto f = real<int (*)(pthread_rwlock_t*, const pthread_rwlockattr_t*)>("pthread_rwlock_init"); if (g_active) { InSim g; rws.erase(r); } return f(r, a); }
EXP int pthread_rwlock_destroy(pthread_rwlock_t* r) { if (g_active) { InSim g; rws.erase(r); } return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* r) { if (!sim_on()) RWPASS("pthread_rwlock_rdlock", pthread_rwlock_t*) return rlock(r, false, false); }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* r) { if (!sim_on()) RWPASS("pthread_rwlock_wrlock", pthread_rwlock_t*) return rlock(r, true, false); }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { if (!sim_on()) RWPASS("pthread_rwlock_tryrdlock", pthread_rwlock_t*) return rlock(r, false, true); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { if (!sim_on()) RWPASS("pthread_rwlock_trywrlock", pthread_rwlock_t*) return rlock(r, true, true); }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* r) { if (!sim_on()) RWPASS("pthread_rwlock_unlock", pthread_rwlock_t*) Rw* x; { InSim g; x = &rws[r]; } vc_release(r); if (x->writer) x->writer = 0; else if (x->readers) --x->readers; sched_point(Y_UNLOCK); return 0; }
struct Once { int st = 0; };
static Side<Once> onces;
EXP int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!sim_on()) { static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return f(o, fn); }
  if (*reinterpret_cast<volatile int*>(o) == 2) { vc_acquire(o); return 0; }      // done before the simulation or by us
  Once* x; { InSim g; x = &onces[o]; }
  if (x->st == 1) block_on([&] { return x->st != 1; }, -1, Y_LOCK);
  if (x->st == 2) { vc_acquire(o); return 0; }
  x->st = 1;
  try { fn(); } catch (...) { x->st = 0; throw; }
  x->st = 2; *reinterpret_cast<volatile int*>(o) = 2; vc_release(o);
  return 0;
}
struct Sm { int v; bool init; };
static Side<Sm> sems;
static Sm& sem_of(sem_t* s) { Sm& x = sems[s]; if (!x.init) { x.init = true; x.v = *reinterpret_cast<int*>(s); } return x; }
EXP int sem_init(sem_t* s, int, unsigned v) { if (g_active) { InSim g; sems[s] = {static_cast<int>(v), true}; } *reinterpret_cast<int*>(s) = static_cast<int>(v); return 0; }
EXP int sem_destroy(sem_t* s) { if (g_active) { InSim g; sems.erase(s); } return 0; }
EXP int sem_post(sem_t* s) { if (!sim_on()) return 0; { InSim g; ++sem_of(s).v; } vc_release(s); sched_point(Y_UNLOCK); return 0; }
static int semwait(sem_t* s, int64_t d, bool tr) { sched_point(Y_LOCK); Sm* x; { InSim g; x = &sem_of(s); } if (x->v <= 0) { if (tr) { errno = EAGAIN; return -1; } if (!block_on([&] { return x->v > 0; }, d, Y_LOCK)) { errno = ETIMEDOUT; return -1; } } --x->v; vc_acquire(s); return 0; }
EXP int sem_wait(sem_t* s) { if (!sim_on()) return 0; return semwait(s, -1, false); }
EXP int sem_trywait(sem_t* s) { if (!sim_on()) return 0; return semwait(s, -1, true); }
EXP int sem_timedwait(sem_t* s, const struct timespec* t) { if (!sim_on()) return 0; return semwait(s, abs_ns(CLOCK_REALTIME, t), false); }
EXP int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (!sim_on()) return 0; return semwait(s, abs_ns(c, t), false); }
EXP int sem_getvalue(sem_t* s, int* v) { InSim g; *v = sem_of(s).v; return 0; }
struct Br { unsigned n = 0, in = 0, gen = 0; };
static Side<Br> brs;
EXP int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { InSim g; brs[b] = {n, 0, 0}; return 0; }
EXP int pthread_barrier_destroy(pthread_barrier_t* b) { InSim g; brs.erase(b); return 0; }
EXP int pthread_barrier_wait(pthread_barrier_t* b) { if (!sim_on()) return 0; sched_point(Y_LOCK); Br* x; { InSim g; x = &brs[b]; } vc_release(b); unsigned gen = x->gen; if (++x->in == x->n) { x->in = 0; ++x->gen; vc_acquire(b); return PTHREAD_BARRIER_SERIAL_THREAD; } block_on([&] { return x->gen != gen; }, -1, Y_LOCK); vc_acquire(b); return 0; }

// ------------------------------------------------------------------ futex (atomic wait / notify, static guards)
struct FxW { const void* a; bool woken; };
static std::deque<FxW*>* fxq;
static long sim_futex(int* a, int op, int val, const struct timespec* ts) {
  if (!fxq) { InSim g; fxq = new std::deque<FxW*>; }
  switch (op & 127) {
  case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
    sched_point(Y_FUTEX);
    if (*reinterpret_cast<volatile int*>(a) != val) { errno = EAGAIN; return -1; }
    int64_t dl = -1; if (ts) { int64_t v = ts->tv_sec * SEC + ts->tv_nsec; dl = (op & 127) == FUTEX_WAIT ? W->now + v : (op & FUTEX_CLOCK_REALTIME) ? v : v + mono_off(); }
    FxW w{a, false}; { InSim g; fxq->push_back(&w); }
    bool ok = block_on([&] { return w.woken; }, dl, Y_FUTEX);
    if (!w.woken) { InSim g; for (auto it = fxq->begin(); it != fxq->end(); ++it) if (*it == &w) { fxq->erase(it); break; } }
    if (!ok) { errno = ETIMEDOUT; return -1; }
    return 0; }
  case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
    long n = 0; { InSim g; for (auto it = fxq->begin(); it != fxq->end() && n < val;) { if ((*it)->a == a) { (*it)->woken = true; it = fxq->erase(it); ++n; } else ++it; } }
    sched_point(Y_FUTEX); return n; }
  default: errno = ENOSYS; return -1;
  }
}
EXP long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (sim_on()) {
    if (n == SYS_futex) return sim_futex(reinterpret_cast<int*>(a), static_cast<int>(b), static_cast<int>(c), reinterpret_cast<const struct timespec*>(d));
    if (n == SYS_getrandom) return getrandom(reinterpret_cast<void*>(a), static_cast<size_t>(b), 0);
    if (n == SYS_gettid) return 4000 + cur_tid();
    if (n == SYS_sched_yield) return sched_yield();
    if (n == SYS_statx) { errno = ENOSYS; return -1; }
    if (n == SYS_membarrier) return 0;
  }
  return rawret(raw6(n, a, b, c, d, e, f));
}
struct Guard { int st = 0; };
static Side<Guard> guards;
extern "C" int __cxa_guard_acquire(long long*); extern "C" void __cxa_guard_release(long long*); extern "C" void __cxa_guard_abort(long long*);
EXP int __cxa_guard_acquire(long long* g) {
  auto* b = reinterpret_cast<volatile char*>(g);
  if (*b) { vc_acquire(g); return 0; }
  if (!sim_on()) { return *b ? 0 : 1; }
  Guard* x; { InSim s; x = &guards[g]; }
  sched_point(Y_LOCK);
  if (x->st == 1) block_on([&] { return x->st != 1; }, -1, Y_LOCK);
  if (*b) { vc_acquire(g); return 0; }
  x->st = 1; return 1;
}
EXP void __cxa_guard_release(long long* g) { *reinterpret_cast<volatile char*>(g) = 1; if (sim_on()) { vc_release(g); InSim s; guards[g].st = 2; } }
EXP void __cxa_guard_abort(long long* g) { if (sim_on()) { InSim s; guards[g].st = 0; } }

// ------------------------------------------------------------------ time
static void to_ts(int64_t v, struct timespec* t) { t->tv_sec = v / SEC; t->tv_nsec = v % SEC; }
EXP int clock_gettime(clockid_t c, struct timespec* t) {
  if (!g_active) return static_cast<int>(rawret(raw6(SYS_clock_gettime, c, (long)t)));
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { to_ts(W->now - 1'700'000'000ll * SEC, t); return 0; }
  W->now += t_insim ? 0 : 50;
  to_ts(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? W->now : W->now - mono_off(), t); return 0;
}
EXP int clock_getres(clockid_t, struct timespec* t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
EXP int gettimeofday(struct timeval* tv, void*) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
EXP time_t time(time_t* o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
EXP clock_t clock() { return g_active ? static_cast<clock_t>((W->now - 1'700'000'000ll * SEC) / 1000) : 0; }
static void sim_sleep(int64_t until) { sys_enter("sleep"); block_on([&] { return W->now >= until; }, until, Y_SLEEP); }
EXP int nanosleep(const struct timespec* t, struct timespec*) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_nanosleep, (long)t, 0))); sim_sleep(W->now + t->tv_sec * SEC + t->tv_nsec); return 0; }
EXP int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec*) { if (!sim_on()) return 0; sim_sleep(fl & TIMER_ABSTIME ? abs_ns(c, t) : W->now + t->tv_sec * SEC + t->tv_nsec); return 0; }
EXP int usleep(useconds_t u) { if (!sim_on()) return 0; sim_sleep(W->now + static_cast<int64_t>(u) * US); return 0; }
EXP unsigned sleep(unsigned s) { if (!sim_on()) return 0; sim_sleep(W->now + static_cast<int64_t>(s) * SEC); return 0; }

// ------------------------------------------------------------------ randomness, identity, environment
static uint64_t rnd_state = 1;
EXP ssize_t getrandom(void* b, size_t n, unsigned) { auto* p = static_cast<unsigned char*>(b); for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) rnd_state = mix64(rnd_state); p[i] = static_cast<unsigned char>(rnd_state >> (8 * (i % 8))); } return static_cast<ssize_t>(n); }
EXP int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
EXP uint32_t arc4random() { uint32_t v; getrandom(&v, 4, 0); return v; }
EXP void arc4random_buf(void* b, size_t n) { getrandom(b, n, 0); }
EXP uint32_t arc4random_uniform(uint32_t n) { return n ? arc4random() % n : 0; }
EXP pid_t getpid() { return g_active ? 4000 : static_cast<pid_t>(raw6(SYS_getpid)); }
EXP int get_nprocs() { return 8; }
EXP int get_nprocs_conf() { return 8; }

// ------------------------------------------------------------------ memory: junk fill, shadow reset
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);
extern "C" size_t malloc_usable_size(void*);
bool g_race_on = false;
ResCfg g_res;
static __thread int t_new;
static void refused(Counter c, const char* what, uint64_t n, uint64_t z) {
  InSim s; count(c); faulthash(0xD0 + static_cast<uint64_t>(c), n); evhash(0xD0 + static_cast<uint64_t>(c), n); ++W->res_faults;
  trace("REFUSED %s %llu (%llu bytes)", what, (unsigned long long)n, (unsigned long long)z);
}
static bool refuse_alloc(size_t n) {
  if (!g_active || t_insim || !cur_tid() || (g_res.cxx && !t_new) || n < g_res.alloc_min || (g_res.late && !W->opened)) return false;
  const uint32_t i = ++W->n_alloc;
  for (int k = 0; k < 6; ++k) if (n >= RES_SIZES[k]) { ++W->n_alloc_ge[k]; if (W->opened) ++W->n_alloc_late[k]; }
  if (!g_res.alloc_at || i < g_res.alloc_at || (g_res.alloc_run && i - g_res.alloc_at >= g_res.alloc_run)) return false;
  refused(C_R_ALLOC, "allocation", i, n); errno = ENOMEM; return true;
}
bool refuse_thread() { const uint32_t i = ++W->n_thread; if (i != g_res.thread_at) return false; refused(C_R_THREAD, "thread", i, 0); return true; }
bool refuse_fd() {
  if (!sim_on()) return false;
  const uint32_t i = ++W->n_fd;
  if (!g_res.fd_at || i < g_res.fd_at || (g_res.fd_run && i - g_res.fd_at >= g_res.fd_run)) return false;
  refused(C_R_FD, "descriptor", i, 0); return true;
}
// what the application holds; memory of the simulator does not count
static inline void held(void* p, int sign) {
  if (!g_active || !p || t_insim || !cur_tid()) return;
  W->live += sign * static_cast<int64_t>(malloc_usable_size(p)); if (W->live > W->live_peak) W->live_peak = W->live;
}
EXP void* malloc(size_t n) {
  if (refuse_alloc(n)) return nullptr;
  void* p = __libc_malloc(n); held(p, 1);
  if (g_active && p && n <= (1u << 22)) { memset(p, 0xA5, n); if (g_race_on) race_reset_range(p, n); }
  return p;
}
EXP void free(void* p) {
  held(p, -1);
  if (g_active && p && t_insim == 0) { size_t n = malloc_usable_size(p); if (n <= 4096) memset(p, 0xDB, n); }
  __libc_free(p);
}
EXP void* calloc(size_t a, size_t b) { if (refuse_alloc(a * b)) return nullptr; void* p = __libc_calloc(a, b); held(p, 1); if (g_active && g_race_on && p) race_reset_range(p, a * b); return p; }
EXP void* realloc(void* p, size_t n) { if (n && refuse_alloc(n)) return nullptr; held(p, -1); void* q = __libc_realloc(p, n); if (q || !n) held(q, 1); else held(p, 1); if (g_active && g_race_on && q) race_reset_range(q, n); return q; }
EXP void* memalign(size_t a, size_t n) { if (refuse_alloc(n)) return nullptr; void* p = __libc_memalign(a, n); held(p, 1); if (g_active && p) { memset(p, 0xA5, n); if (g_race_on) race_reset_range(p, n); } return p; }
// in which eighth of its work the application is; what it holds at its leanest there
void sample_held(uint32_t done, uint32_t total) {
  if (!total || done >= total) return;
  const uint64_t i = uint64_t{done} * 8 / total;
  if (W->live < W->low_live[i]) W->low_live[i] = W->live;
  if (W->fd_live < W->low_fd[i]) W->low_fd[i] = W->fd_live;
}
void* operator new(size_t n) {
  for (;;) {
    ++t_new; void* p = malloc(n ? n : 1); --t_new;
    if (p) return p;
    std::new_handler h = std::get_new_handler(); if (!h) throw std::bad_alloc();
    h();
  }
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
EXP void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
EXP int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
