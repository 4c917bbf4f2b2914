// Driver and workers. dst run | dst replay | dst worker (internal).
#include "prop.h"
#include "raw.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <curl/curl.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::vector<Prop>& props() { static auto& v = *new std::vector<Prop>; return v; }
int g_tier = 0;

struct Ctl {                         // shared between the driver and one worker
  char     prop[16]; char dir[400]; int tier;
  uint64_t seed; int replaying; int tracing;
  Result   res;
  Tape     rec[NSTREAM], rep[NSTREAM];
  uint32_t tracelen; char trace[4 << 20];
};
static Ctl* const CTL = reinterpret_cast<Ctl*>(0x100000000000ull);
static World* const WORLD = reinterpret_cast<World*>(0x200000000000ull);
constexpr size_t ARENA = 6ull << 30;
static Result* RES;

// ------------------------------------------------------------------ inside a run
static void finish(int status) {
  RES->status = status;
  RES->evhash = W->evhash; RES->schedhash = W->schedhash; RES->faulthash = W->faulthash; RES->nevents = W->nevents;
  memcpy(RES->counters, W->counters, sizeof W->counters);
  RES->sim_time = W->sim_time_total;
  RES->tape_n = RES->tape_pos = 0; RES->tape_overflow = 0;
  for (int i = 0; i < NSTREAM; ++i) { RES->tape_n += rec_tape[i].n; RES->tape_pos += W->pos[i]; RES->tape_overflow |= static_cast<int>(rec_tape[i].overflow); }
  if (W->tracing) { memcpy(CTL->trace, W->trace, W->tracelen); CTL->trace[W->tracelen] = 0; CTL->tracelen = W->tracelen; }
  raw6(SYS_exit_group, 0);
  __builtin_unreachable();
}
void violation(const char* cls, const char* fmt, ...) {
  snprintf(RES->cls, sizeof RES->cls, "%s", cls);
  va_list ap; va_start(ap, fmt); vsnprintf(RES->text, sizeof RES->text, fmt, ap); va_end(ap);
  trace("VIOLATION %s: %s", cls, RES->text);
  finish(2); __builtin_unreachable();
}
void sim_error(const char* fmt, ...) {
  snprintf(RES->cls, sizeof RES->cls, "internal");
  va_list ap; va_start(ap, fmt); vsnprintf(RES->text, sizeof RES->text, fmt, ap); va_end(ap);
  finish(3); __builtin_unreachable();
}
void describe_run(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(RES->desc, sizeof RES->desc, fmt, ap); va_end(ap); trace("workload: %s", RES->desc); }
void run_trivial() { RES->trivial = 1; }

static struct { char name[16]; int (*fn)(int, char**); } g_apps[16]; static int g_napps;
int (*app_main(const char* name))(int, char**) { for (int i = 0; i < g_napps; ++i) if (!strcmp(g_apps[i].name, name)) return g_apps[i].fn; sim_error("application %s is not loaded", name); }

static const Prop* find_prop(const char* id) { for (auto& p : props()) if (!strcmp(p.id, id)) return &p; return nullptr; }

[[noreturn]] static void runner(const Prop* p) {
  void* m = ::mmap(WORLD, sizeof(World) + ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != WORLD) { snprintf(RES->text, sizeof RES->text, "cannot map the world"); RES->status = 3; raw6(SYS_exit_group, 1); }
  W = WORLD;
  W->seed = CTL->seed; W->replaying = CTL->replaying; W->tracing = CTL->tracing;
  rec_tape = CTL->rec; rep_tape = CTL->rep;
  for (int i = 0; i < NSTREAM; ++i) { W->prng[i] = mix64(CTL->seed ^ mix64(static_cast<uint64_t>(i) + 0x5151)); rec_tape[i].n = 0; rec_tape[i].overflow = 0; }
  W->now = 1'700'000'000ll * SEC; W->disk_capacity = -1;
  W->bump = reinterpret_cast<uint8_t*>(WORLD) + ((sizeof(World) + 4095) & ~size_t{4095}); W->bump_end = reinterpret_cast<uint8_t*>(WORLD) + sizeof(World) + ARENA;
  vfs_reset();
  count(C_RUNS);
  p->run();
  finish(1); __builtin_unreachable();
}

static int worker(int ctlfd, int rfd, int wfd) {
  void* m = ::mmap(CTL, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, ctlfd, 0);
  if (m != CTL) { perror("worker: mmap"); return 3; }
  RES = &CTL->res; g_tier = CTL->tier;
  const Prop* p = find_prop(CTL->prop);
  if (!p) { fprintf(stderr, "no such property %s\n", CTL->prop); return 3; }
  bool dl = false;
  for (auto a : p->apps) {
    char path[600]; snprintf(path, sizeof path, "%s/app_%s.so", CTL->dir, a);
    void* h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
    snprintf(g_apps[g_napps].name, sizeof g_apps[0].name, "%s", a);
    g_apps[g_napps++].fn = reinterpret_cast<int (*)(int, char**)>(dlsym(h, "main"));
    if (!strcmp(a, "download")) dl = true;
  }
  if (dl) curl_global_init(CURL_GLOBAL_ALL);        // the TLS library's one-off initialisation is kept out of the runs
  signal(SIGPIPE, SIG_IGN);
  char c = 'R';
  if (raw6(SYS_write, wfd, (long)&c, 1) != 1) return 3;
  for (;;) {
    long n = raw6(SYS_read, rfd, (long)&c, 1);
    if (n == -EINTR) continue;
    if (n != 1 || c == 'Q') return 0;
    memset(RES, 0, sizeof *RES);
    long pid = ::fork();
    if (pid == 0) runner(p);
    int st = 0;
    while (raw6(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
    if (RES->status == 0) { RES->status = 3; snprintf(RES->text, sizeof RES->text, "the runner died (status 0x%x)", st); snprintf(RES->cls, sizeof RES->cls, "internal"); }
    c = 'D';
    if (raw6(SYS_write, wfd, (long)&c, 1) != 1) return 3;
  }
}

// ------------------------------------------------------------------ driver
using clk = std::chrono::steady_clock;
static double secs(clk::time_point a) { return std::chrono::duration<double>(clk::now() - a).count(); }
struct Worker { pid_t pid = 0; int to = -1, from = -1; Ctl* ctl = nullptr; bool busy = false; bool ready = false; uint64_t seed = 0; int tag = 0; clk::time_point t0; };
static char self_exe[600]; static std::string self_dir;
static std::string g_prop; static int g_tier_drv = 0;

static Worker* start_worker() {
  auto* w = new Worker;
  int mfd = memfd_create("ctl", 0); if (ftruncate(mfd, sizeof(Ctl))) { perror("ftruncate"); exit(3); }
  w->ctl = static_cast<Ctl*>(::mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED, mfd, 0));
  snprintf(w->ctl->prop, sizeof w->ctl->prop, "%s", g_prop.c_str()); snprintf(w->ctl->dir, sizeof w->ctl->dir, "%s", self_dir.c_str()); w->ctl->tier = g_tier_drv;
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) exit(3);
  w->pid = fork();
  if (w->pid == 0) {
    int x = fcntl(mfd, F_DUPFD, 200), y = fcntl(a[0], F_DUPFD, 200), z = fcntl(b[1], F_DUPFD, 200);
    dup2(x, 20); dup2(y, 21); dup2(z, 22);           // fixed descriptor numbers
    close(x); close(y); close(z);
    struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    setpgid(0, 0);
    char n0[] = "dst", n1[] = "worker"; char* av[] = {n0, n1, nullptr}; char* ev[] = {nullptr};
    // the program name is fixed too: the exec path is not part of the new stack except AT_EXECFN
    execve(self_exe, av, ev); _exit(3);
  }
  close(a[0]); close(b[1]); close(mfd);
  w->to = a[1]; w->from = b[0];
  return w;
}
static void stop_worker(Worker* w) { if (!w) return; if (w->pid > 0) { kill(-w->pid, SIGKILL); kill(w->pid, SIGKILL); waitpid(w->pid, nullptr, 0); } close(w->to); close(w->from); munmap(w->ctl, sizeof(Ctl)); delete w; }
static bool await(Worker* w, double limit) {             // one byte from the worker
  struct pollfd p{w->from, POLLIN, 0};
  int r = poll(&p, 1, static_cast<int>(limit * 1000)); char c;
  return r == 1 && read(w->from, &c, 1) == 1;
}
static void submit(Worker* w, uint64_t seed, bool replay, bool tracing) {
  w->ctl->seed = seed; w->ctl->replaying = replay; w->ctl->tracing = tracing; w->busy = true; w->seed = seed; w->t0 = clk::now();
  char c = 'G'; if (write(w->to, &c, 1) != 1) { fprintf(stderr, "dst: a worker died\n"); exit(3); }
}
static bool run_one(Worker* w, uint64_t seed, bool replay, bool tracing) { submit(w, seed, replay, tracing); bool ok = await(w, 400); w->busy = false; return ok; }

struct TapeSet { std::vector<TapeEntry> s[NSTREAM]; size_t size() const { size_t n = 0; for (auto& v : s) n += v.size(); return n; } };
static TapeSet grab(const Ctl* c) { TapeSet t; for (int i = 0; i < NSTREAM; ++i) t.s[i].assign(c->rec[i].e, c->rec[i].e + c->rec[i].n); return t; }
static void put(Ctl* c, const TapeSet& t) { for (int i = 0; i < NSTREAM; ++i) { c->rep[i].n = static_cast<uint32_t>(t.s[i].size()); std::copy(t.s[i].begin(), t.s[i].end(), c->rep[i].e); } }

static std::string json_str(const char* s) { std::string o = "\""; for (; *s; ++s) { unsigned char ch = static_cast<unsigned char>(*s); if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); } else if (ch < 0x20 || ch > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += static_cast<char>(ch); } return o + "\""; }

static void write_replay(const std::string& path, const TapeSet& t, const Ctl* c, uint64_t seed, size_t orig, bool byseed) {
  FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(3); }
  fprintf(f, "DST-REPLAY 1\nproperty %s\ntier %d\nseed %llu\nmode %s\nclass %s\nevhash %016llx\n", g_prop.c_str(), g_tier_drv, (unsigned long long)seed, byseed ? "seed" : "choices", c->res.cls, (unsigned long long)c->res.evhash);
  std::string txt = c->res.text; for (auto& ch : txt) if (ch == '\n') ch = ' ';
  fprintf(f, "violation %s\nworkload %s\nchoices %zu (of %zu recorded)\n", txt.c_str(), c->res.desc, t.size(), orig);
  for (int i = 0; i < NSTREAM; ++i) { fprintf(f, "stream %s %zu", stream_names[i], t.s[i].size()); for (auto& e : t.s[i]) fprintf(f, " %u:%u", e.pos, e.val); fprintf(f, "\n"); }
  fprintf(f, "trace\n%s", c->trace);
  fclose(f);
}
static bool read_replay(const char* path, TapeSet& t, uint64_t& seed, std::string& cls, uint64_t& ev, bool& byseed) {
  FILE* f = fopen(path, "r"); if (!f) { perror(path); return false; }
  char word[64]; char line[8192];
  if (!fgets(line, sizeof line, f) || strncmp(line, "DST-REPLAY 1", 12)) { fprintf(stderr, "not a replay file\n"); fclose(f); return false; }
  while (fscanf(f, "%63s", word) == 1) {
    if (!strcmp(word, "property")) { char v[64]; if (fscanf(f, "%63s", v) != 1) break; g_prop = v; }
    else if (!strcmp(word, "tier")) { if (fscanf(f, "%d", &g_tier_drv) != 1) break; }
    else if (!strcmp(word, "seed")) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; seed = v; }
    else if (!strcmp(word, "mode")) { char v[64]; if (fscanf(f, "%63s", v) != 1) break; byseed = !strcmp(v, "seed"); }
    else if (!strcmp(word, "class")) { char v[64]; if (fscanf(f, "%63s", v) != 1) break; cls = v; }
    else if (!strcmp(word, "evhash")) { unsigned long long v; if (fscanf(f, "%llx", &v) != 1) break; ev = v; }
    else if (!strcmp(word, "stream")) {
      char v[64]; size_t n; if (fscanf(f, "%63s %zu", v, &n) != 2) break;
      int k = -1; for (int i = 0; i < NSTREAM; ++i) if (!strcmp(v, stream_names[i])) k = i;
      for (size_t i = 0; i < n; ++i) { TapeEntry e; if (fscanf(f, "%u:%u", &e.pos, &e.val) != 2) { fclose(f); return false; } if (k >= 0) t.s[k].push_back(e); }
    } else if (!strcmp(word, "trace")) break;
    else if (!fgets(line, sizeof line, f)) break;
  }
  fclose(f); return true;
}

// ---- minimisation: replay with ever fewer recorded choices, several candidates at a time
static void minimise(std::vector<Worker*>& ws, TapeSet& best, const std::string& cls, double limit) {
  auto t0 = clk::now();
  auto flat = [](const TapeSet& t) { std::vector<std::pair<int, TapeEntry>> v; for (int i = 0; i < NSTREAM; ++i) for (auto& e : t.s[i]) v.push_back({i, e}); return v; };
  auto unflat = [](const std::vector<std::pair<int, TapeEntry>>& v) { TapeSet t; for (auto& [i, e] : v) t.s[i].push_back(e); return t; };
  // candidates are tried in parallel; the first (lowest index) that still fails is taken
  auto try_all = [&](std::vector<TapeSet>& cand) -> int {
    for (size_t base = 0; base < cand.size(); base += ws.size()) {
      if (secs(t0) > limit) return -1;
      size_t n = std::min(ws.size(), cand.size() - base);
      for (size_t i = 0; i < n; ++i) { put(ws[i]->ctl, cand[base + i]); submit(ws[i], 0, true, false); }
      int hit = -1;
      for (size_t i = 0; i < n; ++i) {
        if (!await(ws[i], 400)) { stop_worker(ws[i]); ws[i] = start_worker(); await(ws[i], 60); continue; }
        ws[i]->busy = false;
        auto& r = ws[i]->ctl->res;
        if (hit < 0 && r.status == 2 && cls == r.cls) { hit = static_cast<int>(base + i); cand[base + i] = grab(ws[i]->ctl); }
      }
      if (hit >= 0) return hit;
    }
    return -1;
  };
  // whole streams first
  for (int pass = 0; pass < 2; ++pass)
    for (int s : {S_PREEMPT, S_SCHED, S_TIME, S_NET, S_NETF, S_DISK, S_CRASH, S_WORK}) {
      if (best.s[s].empty()) continue;
      std::vector<TapeSet> c(1, best); c[0].s[s].clear();
      int k = try_all(c); if (k >= 0 && c[0].size() <= best.size()) best = c[0];
    }
  auto cur = flat(best);
  for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1 && secs(t0) < limit;) {
    bool any = false;
    for (size_t at = 0; at < cur.size() && secs(t0) < limit;) {
      std::vector<TapeSet> cand; std::vector<size_t> pos;
      for (size_t k = 0; k < ws.size() && at + k * chunk < cur.size(); ++k) {
        auto v = cur; size_t a = at + k * chunk, b = std::min(v.size(), a + chunk);
        v.erase(v.begin() + static_cast<long>(a), v.begin() + static_cast<long>(b)); cand.push_back(unflat(v)); pos.push_back(a);
      }
      int k = try_all(cand);
      if (k >= 0 && cand[static_cast<size_t>(k)].size() < cur.size()) { cur = flat(cand[static_cast<size_t>(k)]); best = cand[static_cast<size_t>(k)]; any = true; at = std::min(pos[static_cast<size_t>(k)], cur.size()); }
      else at += chunk * ws.size();
    }
    if (chunk == 1) { if (!any) break; } else chunk = (chunk + 1) / 2;
    if (chunk == 1 && cur.size() > 4000) break;
  }
  // smaller values
  for (size_t i = 0; i < cur.size() && secs(t0) < limit; ++i) {
    if (cur[i].second.val <= 1) continue;
    std::vector<TapeSet> cand; for (uint32_t nv : {1u, cur[i].second.val / 2, cur[i].second.val - 1}) { auto v = cur; v[i].second.val = nv; cand.push_back(unflat(v)); }
    int k = try_all(cand); if (k >= 0 && cand[static_cast<size_t>(k)].size() <= cur.size()) { best = cand[static_cast<size_t>(k)]; cur = flat(best); }
  }
}

static int do_replay(const char* path, bool verbose) {
  TapeSet t; uint64_t seed = 0, ev = 0; std::string cls; bool byseed = false;
  if (!read_replay(path, t, seed, cls, ev, byseed)) return 3;
  Worker* w = start_worker(); if (!await(w, 60)) { fprintf(stderr, "dst: worker did not start\n"); return 3; }
  put(w->ctl, t);
  if (!run_one(w, seed, !byseed, true)) { fprintf(stderr, "dst: replay did not finish\n"); stop_worker(w); return 3; }
  auto& r = w->ctl->res; int rc;
  if (verbose) fwrite(w->ctl->trace, 1, w->ctl->tracelen, stdout);
  if (r.status == 2 && cls == r.cls) { printf("replay: violation reproduced (%s): %s\nreplay: event hash %016llx %s the recorded one\n", r.cls, r.text, (unsigned long long)r.evhash, r.evhash == ev ? "equals" : "DIFFERS FROM"); rc = r.evhash == ev ? 1 : 4; }
  else { printf("replay: no such violation (status %d %s %s)\n", r.status, r.cls, r.text); rc = r.status == 3 ? 3 : 0; }
  stop_worker(w); return rc;
}

struct Agg {
  uint64_t runs = 0, nontrivial = 0, rechecks = 0, mismatches = 0, choices = 0; uint64_t counters[NCOUNTERS] = {}; double sim = 0; uint64_t events = 0;
  std::unordered_set<uint64_t> sched, fault, ev; std::vector<std::string> samples; std::set<std::string> known;
};

int main(int argc, char** argv) {
  if (argc >= 2 && !strcmp(argv[1], "worker")) return worker(20, 21, 22);
  // addresses must not differ between processes
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("DST_NOASLR_TRIED")) {
    personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE); setenv("DST_NOASLR_TRIED", "1", 1);
    execv("/proc/self/exe", argv);
  }
  ssize_t n = readlink("/proc/self/exe", self_exe, sizeof self_exe - 1); self_exe[n > 0 ? n : 0] = 0;
  self_dir = self_exe; self_dir.resize(self_dir.rfind('/'));
  signal(SIGPIPE, SIG_IGN);
  uint64_t seed = 1, from = 0; uint64_t maxruns = ~0ull; int jobs = 8; double wall = 30, minlimit = 25; std::string outdir = "."; std::string evid; const char* file = nullptr; bool verbose = false, stopfirst = true; double recheck = 0.02; long one = -1;
  std::string mode = argc >= 2 ? argv[1] : "";
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i]; auto nx = [&] { return argv[++i]; };
    if (a == "--prop") g_prop = nx(); else if (a == "--seed") seed = strtoull(nx(), nullptr, 0); else if (a == "--runs") maxruns = strtoull(nx(), nullptr, 0);
    else if (a == "--jobs") jobs = atoi(nx()); else if (a == "--wall") wall = atof(nx()); else if (a == "--out") outdir = nx(); else if (a == "--evidence") evid = nx();
    else if (a == "--tier") g_tier_drv = !strcmp(nx(), "thorough"); else if (a == "--from") from = strtoull(nx(), nullptr, 0); else if (a == "-v") verbose = true; else if (a == "--keep-going") stopfirst = false;
    else if (a == "--min") minlimit = atof(nx()); else if (a == "--recheck") recheck = atof(nx()); else if (a == "--one") one = atol(nx());
    else file = argv[i];
  }
  if (mode == "list") { for (auto& p : props()) { printf("%s", p.id); for (auto a : p.apps) printf(" %s", a); printf("\n"); } return 0; }
  if (mode == "replay" && file) return do_replay(file, verbose);
  if (mode != "run" || g_prop.empty() || !find_prop(g_prop.c_str())) { fprintf(stderr, "usage: dst run --prop ID --seed N [--runs N] [--jobs J] [--wall S] [--tier quick|thorough] [--out DIR] [--evidence FILE]\n       dst replay FILE [-v]\n       dst list\n"); return 3; }
  auto run_seed = [&](uint64_t i) { return mix64(mix64(seed) + i * 0x9e3779b97f4a7c15ull + mix64(static_cast<uint64_t>(g_prop[1]) << 8 | static_cast<uint64_t>(g_prop[2]))); };
  mkdir(outdir.c_str(), 0755);
  auto t0 = clk::now();
  std::vector<Worker*> ws; for (int i = 0; i < jobs; ++i) ws.push_back(start_worker());
  for (auto w : ws) if (!await(w, 120)) { fprintf(stderr, "dst: worker did not start\n"); return 3; } else w->ready = true;
  if (one >= 0) {
    if (!run_one(ws[0], run_seed(static_cast<uint64_t>(one)), false, true)) { fprintf(stderr, "timeout\n"); for (auto w : ws) stop_worker(w); return 3; }
    auto& r = ws[0]->ctl->res; if (verbose) fwrite(ws[0]->ctl->trace, 1, ws[0]->ctl->tracelen, stdout);
    printf("status %d class %s: %s\nworkload: %s\nevhash %016llx sched %016llx events %llu sim %.3f s tape %llu/%llu%s\n", r.status, r.cls, r.text, r.desc, (unsigned long long)r.evhash, (unsigned long long)r.schedhash, (unsigned long long)r.nevents, static_cast<double>(r.sim_time) / 1e9, (unsigned long long)r.tape_n, (unsigned long long)r.tape_pos, r.tape_overflow ? " OVERFLOW" : "");
    for (int i = 0; i < C_MAX; ++i) if (r.counters[i]) printf("  %s=%llu", counter_names[i], (unsigned long long)r.counters[i]);
    printf("\n"); fflush(stdout); const int st = r.status; for (auto w : ws) stop_worker(w); return st == 1 ? 0 : st == 2 ? 1 : 3;
  }
  Agg ag; uint64_t next = from; int rc = 0; bool stop = false;
  struct Viol { uint64_t idx, seed; std::string cls, text; uint64_t ev; }; std::vector<Viol> viols; std::set<std::string> seen_cls;
  struct Re { uint64_t idx, ev; }; std::vector<Re> pending;      // determinism rechecks, to run on another worker
  uint64_t internal = 0; std::string internal_text;
  std::vector<uint64_t> widx(ws.size(), 0), wre(ws.size(), 0); std::vector<char> wisre(ws.size(), 0);
  for (;;) {
    bool anybusy = false;
    for (size_t i = 0; i < ws.size(); ++i) {
      if (ws[i]->busy) { anybusy = true; continue; }
      if (stop || secs(t0) > wall) continue;
      if (!pending.empty() && (pending.back().idx % ws.size() != i || ws.size() == 1)) { auto r = pending.back(); pending.pop_back(); wisre[i] = 1; widx[i] = r.idx; wre[i] = r.ev; submit(ws[i], run_seed(r.idx), false, false); anybusy = true; continue; }
      if (next - from >= maxruns) continue;
      wisre[i] = 0; widx[i] = next; submit(ws[i], run_seed(next), false, false); ++next; anybusy = true;
    }
    if (!anybusy) break;
    std::vector<struct pollfd> pf; std::vector<size_t> which;
    for (size_t i = 0; i < ws.size(); ++i) if (ws[i]->busy) { pf.push_back({ws[i]->from, POLLIN, 0}); which.push_back(i); }
    poll(pf.data(), pf.size(), 500);
    for (size_t k = 0; k < pf.size(); ++k) {
      Worker*& w = ws[which[k]]; size_t wi = which[k];
      if (!(pf[k].revents & (POLLIN | POLLHUP))) {
        if (secs(w->t0) > 300) { ++internal; internal_text = "a run did not finish within 300 s (index " + std::to_string(widx[wi]) + ")"; stop_worker(w); w = start_worker(); await(w, 60); }
        continue;
      }
      char c; if (read(w->from, &c, 1) != 1) { ++internal; internal_text = "a worker died"; stop_worker(w); w = start_worker(); await(w, 60); continue; }
      w->busy = false;
      Result& r = w->ctl->res;
      if (wisre[wi]) { ++ag.rechecks; if (r.evhash != wre[wi]) { ++ag.mismatches; fprintf(stderr, "dst: NONDETERMINISM at index %llu\n", (unsigned long long)widx[wi]); } continue; }
      if (r.status == 3) { ++internal; internal_text = std::string(r.text) + " (index " + std::to_string(widx[wi]) + ", seed " + std::to_string(w->seed) + ")"; if (internal > 20) stop = true; if (verbose || internal < 4) fprintf(stderr, "dst: simulator error: %s\n", internal_text.c_str()); continue; }
      ++ag.runs; if (!r.trivial) ++ag.nontrivial; ag.sim += static_cast<double>(r.sim_time) / 1e9; ag.events += r.nevents; ag.choices += r.tape_pos;
      for (int j = 0; j < C_MAX; ++j) ag.counters[j] += r.counters[j];
      ag.sched.insert(r.schedhash); ag.fault.insert(r.faulthash); if (!r.trivial) ag.ev.insert(r.evhash);
      if (r.known[0]) ag.known.insert(r.known);
      if (ag.samples.size() < 6 && r.desc[0]) ag.samples.push_back("index " + std::to_string(widx[wi]) + ": " + r.desc);
      if (static_cast<double>(mix64(run_seed(widx[wi]) + 77) >> 11) * 0x1.0p-53 < recheck && pending.size() < 50) pending.push_back({widx[wi], r.evhash});
      if (r.status == 2) {
        if (stopfirst) stop = true;
        if (seen_cls.insert(r.cls).second || stopfirst) { viols.push_back({widx[wi], w->seed, r.cls, r.text, r.evhash}); if (verbose || !stopfirst) fprintf(stderr, "index %llu %s: %s\n", (unsigned long long)widx[wi], r.cls, r.text); }
      }
    }
  }
  double run_wall = secs(t0);
  std::sort(viols.begin(), viols.end(), [](auto& a, auto& b) { return a.idx < b.idx; });
  int confirmed = 0; std::string vlines;
  if (!viols.empty() && minlimit >= 0) {
    for (auto& w : ws) { stop_worker(w); w = start_worker(); } for (auto w : ws) await(w, 60);
    size_t nshow = stopfirst ? 1 : viols.size();
    for (size_t vi = 0; vi < viols.size() && static_cast<size_t>(confirmed) < nshow; ++vi) {
      auto& v = viols[vi];
      // the same seed must give the same execution, twice, and the recorded choices must reproduce it
      if (!run_one(ws[0], v.seed, false, false) || ws[0]->ctl->res.evhash != v.ev || ws[0]->ctl->res.cls != v.cls) { fprintf(stderr, "dst: seed %llu did not repeat (hash %016llx/%016llx class %s)\n", (unsigned long long)v.seed, (unsigned long long)v.ev, (unsigned long long)ws[0]->ctl->res.evhash, ws[0]->ctl->res.cls); rc = 2; continue; }
      TapeSet t = grab(ws[0]->ctl); size_t orig = t.size(); bool ovf = ws[0]->ctl->res.tape_overflow;
      size_t o = ws.size() > 1 ? 1 : 0; put(ws[o]->ctl, t);
      bool ok = run_one(ws[o], v.seed, true, false);
      // more choices than a tape holds: the recorded part may do, otherwise the seed itself is the replay
      bool byseed = ovf && !(ok && ws[o]->ctl->res.status == 2 && v.cls == ws[o]->ctl->res.cls);
      if (!ok && byseed) { stop_worker(ws[o]); ws[o] = start_worker(); await(ws[o], 60); }
      if (!byseed && !ovf && (!ok || ws[o]->ctl->res.evhash != v.ev)) { fprintf(stderr, "dst: the recorded choices of seed %llu did not reproduce it\n", (unsigned long long)v.seed); rc = 2; continue; }
      TapeSet best = t; if (byseed) best = TapeSet{}; else if (minlimit > 0) minimise(ws, best, v.cls, minlimit);
      put(ws[0]->ctl, best); run_one(ws[0], v.seed, !byseed, true);
      if (!byseed && (ws[0]->ctl->res.status != 2 || v.cls != ws[0]->ctl->res.cls)) { best = t; put(ws[0]->ctl, best); run_one(ws[0], v.seed, true, true); }
      std::string path = outdir + "/" + g_prop + "-" + std::to_string(v.seed) + ".replay";
      write_replay(path, best, ws[0]->ctl, v.seed, orig, byseed);
      std::string vt = ws[0]->ctl->res.text;
      // in a fresh process, from the file alone
      pid_t pid = fork(); if (pid == 0) { int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); execl(self_exe, "dst", "replay", path.c_str(), nullptr); _exit(9); }
      int st = 0; waitpid(pid, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "dst: the replay file %s does not reproduce the violation (exit %d)\n", path.c_str(), WEXITSTATUS(st)); rc = 2; continue; }
      ++confirmed;
      printf("violation class %s seed %llu (run %llu), %zu of %zu choices left after minimisation\n  %s\n", v.cls.c_str(), (unsigned long long)v.seed, (unsigned long long)v.idx, best.size(), orig, vt.c_str());
      printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), path.c_str());
    }
    if (confirmed) rc = 1;
  } else if (!viols.empty()) rc = 1;
  for (auto w : ws) stop_worker(w);
  const Prop* p = find_prop(g_prop.c_str());
  if (!evid.empty()) {
    FILE* f = fopen(evid.c_str(), "w"); if (!f) { perror(evid.c_str()); return 3; }
    double h = run_wall / 3600;
    fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"wall_s\": %.1f, \"violations\": %d,\n \"coverage\": {\n", g_prop.c_str(), g_tier_drv ? "thorough" : "quick", (unsigned long long)seed, secs(t0), confirmed);
    fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n", (unsigned long long)ag.runs, ag.ev.size(), json_str(("one evaluation is one simulated run (one seed); distinct: different hash of the whole event sequence (thread switches, network events, disk operations and faults, exits); non-trivial: " + std::string(p->rule)).c_str()).c_str());
    fprintf(f, "  \"samples\": ["); for (size_t i = 0; i < ag.samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json_str(ag.samples[i].c_str()).c_str()); fprintf(f, "],\n");
    fprintf(f, "  \"simulated_runs\": %llu, \"nontrivial_runs\": %llu, \"seeds_per_hour\": %.0f, \"simulated_seconds\": %.1f, \"events\": %llu, \"choices_drawn\": %llu,\n", (unsigned long long)ag.runs, (unsigned long long)ag.nontrivial, static_cast<double>(ag.runs) / h, ag.sim, (unsigned long long)ag.events, (unsigned long long)ag.choices);
    fprintf(f, "  \"distinct_interleavings\": %zu, \"interleaving_measure\": \"hash of the sequence of (from thread, to thread, reason) switches of a run\", \"distinct_fault_sequences\": %zu,\n", ag.sched.size(), ag.fault.size());
    fprintf(f, "  \"determinism_rechecks\": %llu, \"determinism_mismatches\": %llu,\n  \"counts\": {", (unsigned long long)ag.rechecks, (unsigned long long)ag.mismatches);
    bool first = true; for (int i = 0; i < C_MAX; ++i) if (ag.counters[i]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", counter_names[i], (unsigned long long)ag.counters[i]); first = false; }
    fprintf(f, "},\n  \"real_code\": %s,\n  \"simulated\": %s\n },\n", json_str(p->real).c_str(), json_str(p->stub).c_str());
    fprintf(f, " \"assumptions\": [%s]\n}\n", json_str("a clean batch of seeds is evidence, not proof: schedules and faults are sampled").c_str());
    fclose(f);
  }
  for (auto& k : ag.known) printf("%s\n", k.c_str());
  printf("%s: %llu runs (%llu non-trivial, %zu distinct executions, %zu interleavings, %zu fault sequences), %.1f s simulated, %.0f runs/h, %d violation(s), determinism %llu/%llu\n", g_prop.c_str(), (unsigned long long)ag.runs, (unsigned long long)ag.nontrivial, ag.ev.size(), ag.sched.size(), ag.fault.size(), ag.sim, static_cast<double>(ag.runs) / (run_wall / 3600), confirmed, (unsigned long long)(ag.rechecks - ag.mismatches), (unsigned long long)ag.rechecks);
  if (verbose) { for (int i = 0; i < C_MAX; ++i) if (ag.counters[i]) printf("  %s=%llu", counter_names[i], (unsigned long long)ag.counters[i]); printf("\n"); }
  if (rc == 0 && internal) fprintf(stderr, "dst: %llu run(s) gave no verdict, last: %s\n", (unsigned long long)internal, internal_text.c_str());
  if (rc == 0 && internal > std::max<uint64_t>(2, ag.runs / 500)) { fprintf(stderr, "dst: %llu simulator error(s), last: %s\n", (unsigned long long)internal, internal_text.c_str()); return 3; }
  if (rc == 0 && ag.mismatches) return 2;
  return rc;
}
