// Core of the deterministic simulator: choices, virtual time, scheduler, virtual file system, network.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <map>

// ---------------------------------------------------------------- choices
enum Stream : int { S_WORK, S_SCHED, S_PREEMPT, S_TIME, S_NET, S_NETF, S_DISK, S_CRASH, NSTREAM };
extern const char* const stream_names[NSTREAM];

struct TapeEntry { uint32_t pos, val; };
constexpr uint32_t MAXTAPE = 1u << 18;
struct Tape { uint32_t n; uint32_t overflow; TapeEntry e[MAXTAPE]; };

// ---------------------------------------------------------------- world (shared between incarnations)
constexpr int NCOUNTERS = 160;
struct Inode {
  uint8_t* data; uint64_t size, cap; int64_t mtime; uint64_t ino; int nlink; bool dir; bool stream;
  uint32_t mode;
  // a file too big to be kept: the first vsize bytes are computed (see vfs_put_huge), data holds what follows
  uint64_t vsize, vstep; uint32_t vrec; bool vbad;        // vbad: it was written to
  uint64_t rbytes; uint32_t rcalls;                        // read since the counters were cleared
};
struct Dirent { char path[200]; Inode* ino; bool used; };
constexpr int MAXFILES = 96;

struct Touch { char path[200]; char op[12]; };          // mutated paths
constexpr int MAXTOUCH = 64;

enum EndKind : int { E_NONE, E_EXIT, E_SIGNAL, E_CRASH, E_DEADLOCK, E_STEPS, E_TIME, E_DONE, E_RACE, E_INTERNAL };

struct World {
  // choices
  uint64_t seed;
  int      replaying;
  uint64_t prng[NSTREAM];
  uint32_t pos[NSTREAM];
  uint32_t rpos[NSTREAM];          // cursor into the replay tape
  // time and event accounting
  int64_t  now;
  uint64_t evhash, schedhash, faulthash, nevents;
  uint64_t counters[NCOUNTERS];
  int64_t  sim_time_total;
  // file system
  Dirent   files[MAXFILES];
  int      nfiles;
  uint64_t next_ino;
  int64_t  disk_capacity;          // bytes that may still be written, <0: unlimited
  Touch    touch[MAXTOUCH]; int ntouch;
  Inode    std_in, std_out, std_err;
  // outcome of the current incarnation
  int      end_kind; int end_code;
  char     end_text[2048];
  int      race_count; char race_text[2048];
  int      io_faults;              // hard disk faults that fired in this incarnation (not short/EINTR)
  int      io_faults_lossy;        // ... on writes/flush/close/open of files or standard output
  uint32_t n_alloc, n_alloc_ge[6], n_alloc_late[6], opened, n_thread, n_fd; // n_alloc_ge: of at least RES_SIZES bytes
  // allocations, threads and descriptors asked for by the application in this incarnation
  int      res_faults;             // ... that were refused
  // bytes and descriptors held by the application; the least of them in each eighth of the work
  int64_t  live, live_peak, low_live[8]; int fd_live, fd_peak, low_fd[8];
  // plain texts which must not leave the process, and the first place where one did; what the application did on the network
  char     secret[8][64]; int nsecret; char leak[256];
  char     net[24][80]; int nnet;    // listens, connects, resolves
  // the changes to the file system made by a recorded process, and how far another one has come in repeating them
  struct EnvLog* rec; uint32_t env_pos; Inode** env_open;
  // shared bump allocator
  uint8_t* bump; uint8_t* bump_end;
  // human readable trace
  int      tracing; uint32_t tracelen; char trace[4 << 20];
};
extern World* W;
extern Tape*  rec_tape;            // [NSTREAM], recording
extern Tape*  rep_tape;            // [NSTREAM], when replaying

uint32_t choose(Stream s, uint32_t n);                 // uniform in [0,n); 0 is benign
bool     flip(Stream s, double p);                     // true with probability p
uint32_t weighted(Stream s, std::initializer_list<double> w); // index; 0 is benign
uint32_t record_choice(Stream s, uint32_t v);          // v computed by a policy from raw bits
uint64_t raw_bits(Stream s);                           // next raw bits (no recording); 0 when replaying
uint64_t mix64(uint64_t x);

enum Counter : int {
  C_RUNS, C_INCARNATIONS, C_SWITCH, C_PREEMPT, C_SYSCALLS, C_EVENTS, C_STALL, C_SPURIOUS,
  // disk
  C_D_SHORTW, C_D_EINTRW, C_D_EIOW, C_D_ENOSPC, C_D_SHORTR, C_D_EINTRR, C_D_EIOR, C_D_OPEN, C_D_CLOSE, C_D_STAT,
  C_D_META, C_D_FSYNC, C_D_ACCEPT,
  C_CRASH, C_CRASH_MIDWRITE,
  // net
  C_N_STATUS, C_N_STATUS_BODY, C_N_REDIRECT, C_N_204, C_N_TRUNC, C_N_TRUNC_CHUNKED, C_N_RST_BEFORE, C_N_RST_MID, C_N_EMPTY, C_N_STALL_BEFORE,
  C_N_STALL_MID, C_N_STALL_HDR, C_N_GARBAGE, C_N_REFUSED, C_N_IDLECLOSE, C_N_SLOW, C_N_CONNRESET, C_N_CONNECT_HANG, C_N_RESOLVE,
  C_N_REQ, C_N_OK, C_N_FRAG, C_N_CHUNKED, C_N_OOO,
  // client side (server scenarios)
  C_K_CONN, C_K_REQ, C_K_RESP, C_K_ABORT, C_K_GARBAGE, C_K_STALL, C_K_PIPELINE, C_K_FRAG, C_K_HALFCLOSE, C_K_RESP_5XX,
  // probes
  C_P_RETRY, C_P_REORDER, C_P_ABORTPATH, C_P_RESUME_TRIM, C_P_RESUME_SEARCH, C_P_RESUME_CLEAN, C_P_BIGBODY, C_P_MULTIFLUSH,
  C_P_EMPTYFILE, C_P_CHUNKS_MULTI, C_P_TOC_LOAD, C_P_TOC_BUILD, C_P_TOC_STALE, C_P_LOWSPEED, C_P_FAULT_HIT, C_P_CLEANRUN,
  C_P_HISTLEN, C_P_RACECHECKS, C_P_BOUND_REACHED, C_P_ANSWER_OK, C_P_ANSWER_ERR, C_P_FOUND, C_P_NOTFOUND, C_P_SUCCESS, C_P_FAILURE,
  // resources
  C_R_ALLOC, C_R_THREAD, C_R_FD,
  // another process
  C_P_HUGE, C_P_LONG, C_E_OPS, C_E_KILLED, C_E_REPLACED,
  C_MAX
};
extern const char* const counter_names[];
inline void count(Counter c, uint64_t n = 1) { W->counters[c] += n; }

void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sample_held(uint32_t done, uint32_t total);
void evhash(uint64_t a, uint64_t b = 0);
void faulthash(uint64_t a, uint64_t b = 0);

void* shm_alloc(size_t n);

// ---------------------------------------------------------------- simulation inside one incarnation
extern bool g_active;                 // interposers simulate only when set
extern __thread int t_insim;          // >0: this thread is inside the simulator
extern __thread int t_noyield;        // >0: no thread switch here (a libc-internal lock is held)
struct InSim { InSim() { ++t_insim; } ~InSim() { --t_insim; } };

struct SchedCfg {
  int    policy = 0;                  // 0 sequential bias, 1 uniform, 2 priorities (PCT)
  double p_switch = 0;                // at synchronisation points / system calls
  double preempt_mean = 0;            // mean memory accesses between preemptions, 0: never
  double p_stall = 0;
  double p_spurious = 0;
  int    max_stall = 0;               // 0..4 index into the stall table
  int64_t stall_budget = INT64_MAX;   // total stall time per incarnation
  bool   races = false;
  uint64_t max_steps = 400'000'000ull;
  int64_t  max_time  = 6ll * 3600 * 1'000'000'000ll;
  uint64_t max_syscalls = 20'000'000ull;
};
struct DiskCfg {
  bool on = false;
  double p_shortw = 0, p_eintr = 0, p_eiow = 0, p_shortr = 0, p_eior = 0, p_open = 0, p_close = 0, p_stat = 0, p_meta = 0, p_accept = 0;
  int  sticky = 0;                    // eio stays
  int  max_hard = 1;                  // hard faults per incarnation
  int  skip_first = 0;                // let so many eligible operations pass first (drawn)
  uint32_t nth_write = 0;             // fail exactly the n-th eligible write/read/... (1-based), 0: off
  uint32_t nth_read = 0, nth_open = 0, nth_close = 0, nth_stat = 0, nth_meta = 0;
  bool std_streams = false;           // faults also on standard input/output
  char only[64] = "";                 // only paths containing this
};
struct CrashCfg { uint32_t at_vfs = 0; uint32_t at_sys = 0; uint32_t partial = 0; };

constexpr size_t RES_SIZES[6] = {0, 200, 2000, 16000, 64000, 500000};
struct ResCfg {                        // running out of resources; 1-based, 0: off
  uint32_t alloc_at = 0, alloc_run = 1; // the n-th allocation and the following ones (0: all) fail
  bool     late = false;              // only allocations after the first file was opened are counted (the ones before are mostly the command line's)
  size_t   alloc_min = 0;             // only allocations of at least so many bytes are counted
  bool     cxx = false;               // only operator new
  uint32_t thread_at = 0;
  uint32_t fd_at = 0, fd_run = 1;
};
extern ResCfg g_res;
bool refuse_thread(); bool refuse_fd();

struct Incarnation {
  std::vector<std::string> argv;
  int (*main_fn)(int, char**) = nullptr;
  SchedCfg sched; DiskCfg disk; CrashCfg crash; ResCfg res;
  std::function<void()> setup;        // runs in the child before main (actors)
  bool stdin_tty = false;
};
void run_incarnation(const Incarnation& inc);     // in the runner; fills W->end_*
[[noreturn]] void end_incarnation(EndKind k, int code, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

// scheduling
enum Why : int { Y_SYS, Y_LOCK, Y_UNLOCK, Y_COND, Y_CREATE, Y_JOIN, Y_EXIT, Y_YIELD, Y_ATOMIC, Y_PREEMPT, Y_FUTEX, Y_SLEEP, Y_BLOCK };
void sched_point(Why y);
typedef bool (*PredFn)(void*);
// blocks until pred(arg) or virtual deadline (ns, <0: none); true if pred held
bool block_until(PredFn pred, void* arg, int64_t deadline, Why y);
template <class F> bool block_on(F&& f, int64_t deadline, Why y) {
  return block_until([](void* a) -> bool { return (*static_cast<std::remove_reference_t<F>*>(a))(); }, &f, deadline, y);
}
int  cur_tid();
int  alive_threads();
void at_time(int64_t when, std::function<void()> fn);  // event
int64_t now_ns();
void sys_enter(const char* name);                       // accounting, crash points, scheduling point

// race detection / preemption (race.cpp)
void vc_init_thread(int child, int parent);
void vc_join_thread(int parent, int child);
void vc_release(const void* addr);        // sync object at addr := join
void vc_acquire(const void* addr);
void race_reset_range(const void* p, size_t n);
void race_config(bool on);
extern uint64_t g_steps;

// ---------------------------------------------------------------- vfs
Inode* vfs_find(const char* abspath);
Inode* vfs_create(const char* abspath, bool touch = true);
void   vfs_reset();
void   vfs_put(const std::string& path, const void* data, size_t n, int64_t mtime);
bool   vfs_exists(const std::string& path);
std::string vfs_get(const std::string& path);
std::string vfs_stdout(); std::string vfs_stderr();
void   vfs_set_stdin(const void* p, size_t n);
std::vector<std::string> vfs_list();
void   vfs_remove(const std::string& path);
void   inode_reserve(Inode* i, uint64_t n);
// n records of a sorted database of `rec` bytes each, the top 64 bits of their hashes `step` apart, followed by `tail`
void   vfs_put_huge(const std::string& path, uint64_t n, uint64_t step, uint32_t rec, const void* tail, size_t len, int64_t mtime);
void   huge_record(uint64_t j, uint64_t step, uint32_t rec, uint8_t* out);
bool   vfs_huge_intact(const std::string& path, uint64_t bytes);

// ---- another process on the same files: its changes, recorded from a run of its own, happen between the operations of the run
enum EnvKind : int { EV_OPEN, EV_WRITE, EV_RENAME, EV_UNLINK, EV_TRUNC, EV_TIMES, EV_REPLACE };
struct EnvOp { int kind; uint32_t h; char a[120], b[120]; uint64_t off, len; uint8_t* data; int64_t t; };      // h: which open file, 0: by path
constexpr uint32_t MAXENV = 4000;
struct EnvLog { uint32_t n, opens; EnvOp op[MAXENV]; };
struct EnvCfg { std::vector<EnvOp> ops; uint32_t first = 1, gap = 1, burst = 1, jump = 0; };     // after how many file operations the next ones happen
extern EnvCfg g_env;                  // set by the scenario before the run
void env_record(bool on);             // of the next incarnations
std::vector<EnvOp> env_recorded();
void env_start();                     // the other process begins
void env_next();                      // its next operation happens now
void env_finish(bool killed);         // it goes on until its end, or is killed where it is
struct VfsCopy { std::vector<std::pair<std::string, std::string>> f; std::vector<int64_t> t; int64_t now; };
VfsCopy vfs_save();
void vfs_restore(const VfsCopy& c);

// ---------------------------------------------------------------- net
struct Sock;
using SockP = std::shared_ptr<Sock>;
struct Endpoint {                     // simulator-side end of a connection
  virtual ~Endpoint() = default;
  virtual void on_open(const SockP&) {}
  virtual void on_data(const SockP&, const char*, size_t) {}
  virtual void on_fin(const SockP&) {}     // the app side shut down / closed
  virtual void on_reset(const SockP&) {}
};
struct Sock {                         // the application's end
  int  id = 0;
  int  family = 0; int type = 0;
  bool nonblock = false;
  enum St { NEW, CONNECTING, CONNECTED, LISTENING, CLOSED } st = NEW;
  int  so_error = 0;
  std::string rx;                     // bytes readable by the app
  size_t rxoff = 0;
  bool rx_fin = false;                // peer closed its direction
  bool rst = false;
  bool tx_shut = false;
  bool app_closed = false;
  size_t sndbuf = 1 << 16;
  size_t inflight = 0;                // bytes sent by the app and not yet received by the peer
  int64_t last_rx_ev = 0, last_tx_ev = 0;
  int  peer_port = 0, local_port = 0; bool peer_v6 = false;
  std::shared_ptr<Endpoint> ep;
  // listening
  std::vector<SockP> backlog; int listen_port = 0;
  uint64_t kick = 1;                  // increments on every readiness change (edge triggering)
  SockP pair;                         // socketpair / pipe partner
  std::string tail; uint32_t knows = 0; // the last bytes sent; secrets that came from there (bits)
  char local[56] = "";                // bound to
};
// simulator side operations
void ep_deliver(const SockP& s, std::string data, int64_t delay);    // bytes arrive at the app after delay (ordered)
void ep_fin(const SockP& s, int64_t delay);
void ep_rst(const SockP& s, int64_t delay);
SockP sim_connect(int port, std::shared_ptr<Endpoint> ep);          // a client actor connects to an app listener; null if refused
// origin registration: decide on a connect of the app
struct ConnectDecision { int err = 0; int64_t delay = 1'000'000; bool hang = false; std::shared_ptr<Endpoint> ep; };
extern std::function<ConnectDecision(const SockP&)> on_app_connect;
struct ResolveDecision { int err = 0; int64_t delay = 0; bool v6 = false; };
extern std::function<ResolveDecision(const char*)> on_app_resolve;
bool app_listening(int port);
void kick_sock(Sock* s);
void net_debug_dump();

inline constexpr int64_t MS = 1'000'000ll, US = 1000ll, SEC = 1'000'000'000ll;
