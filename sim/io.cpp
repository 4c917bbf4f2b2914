#include "io.h"
#include "raw.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/statvfs.h>
#include <sys/vfs.h>
#include <sys/ioctl.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <sys/select.h>
#include <dirent.h>
#include <unistd.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>

int64_t vfs_crash_point(const char* what, uint64_t len);
DiskCfg g_disk;
#define EXP extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------ in-memory file system
static uint32_t phash(const char* p) { uint64_t h = 7; for (; *p; ++p) h = mix64(h ^ static_cast<unsigned char>(*p)); return static_cast<uint32_t>(h); }
static int64_t coarse(int64_t t) { return t - t % (4 * MS); }

Inode* vfs_find(const char* p) {
  for (int i = 0; i < W->nfiles; ++i) if (W->files[i].used && strcmp(W->files[i].path, p) == 0) return W->files[i].ino;
  return nullptr;
}
static void note_touch(const char* path, const char* op) {
  for (int i = 0; i < W->ntouch; ++i) if (!strcmp(W->touch[i].path, path) && !strcmp(W->touch[i].op, op)) return;
  if (W->ntouch < MAXTOUCH) {
    snprintf(W->touch[W->ntouch].path, sizeof W->touch[0].path, "%s", path);
    snprintf(W->touch[W->ntouch].op, sizeof W->touch[0].op, "%s", op); ++W->ntouch;
  }
}
static Inode* new_inode() {
  Inode* i = static_cast<Inode*>(shm_alloc(sizeof(Inode)));
  memset(i, 0, sizeof *i); i->ino = ++W->next_ino; i->nlink = 1; i->mode = 0644; i->mtime = coarse(W->now);
  return i;
}
static void link_inode(const char* p, Inode* ino) {
  for (int i = 0; i < W->nfiles; ++i) if (!W->files[i].used) { snprintf(W->files[i].path, sizeof W->files[i].path, "%s", p); W->files[i].ino = ino; W->files[i].used = true; return; }
  if (W->nfiles >= MAXFILES) { static const char m[] = "dst: too many files\n"; raw_print(2, m, sizeof m - 1); raw6(SYS_exit_group, 97); }
  Dirent& d = W->files[W->nfiles++];
  snprintf(d.path, sizeof d.path, "%s", p); d.ino = ino; d.used = true;
}
static void unlink_path(const char* p) {
  for (int i = 0; i < W->nfiles; ++i) if (W->files[i].used && !strcmp(W->files[i].path, p)) { W->files[i].used = false; W->files[i].ino->nlink--; }
}
Inode* vfs_create(const char* p, bool) { Inode* i = new_inode(); link_inode(p, i); return i; }
void inode_reserve(Inode* i, uint64_t n) {
  n -= std::min(n, i->vsize);
  if (n <= i->cap) return;
  uint64_t c = std::max<uint64_t>(n, i->cap ? i->cap * 2 : 4096);
  auto* d = static_cast<uint8_t*>(shm_alloc(c));
  if (i->size > i->vsize) memcpy(d, i->data, i->size - i->vsize);
  i->data = d; i->cap = c;
}
static void inode_resize(Inode* i, uint64_t n) {
  if (n < i->vsize) i->vsize = n;
  inode_reserve(i, n);
  if (n > i->size) memset(i->data + (i->size - i->vsize), 0, n - i->size);
  i->size = n;
}
void huge_record(uint64_t j, uint64_t step, uint32_t rec, uint8_t* out) {
  const uint64_t h = step / 2 + j * step; uint64_t m = j * 0x9E3779B97F4A7C15ull + 1;
  for (int b = 0; b < 8; ++b) out[b] = static_cast<uint8_t>(h >> (56 - 8 * b));
  for (uint32_t b = 8; b < rec - 4; ++b) { m ^= m >> 29; m *= 0xBF58476D1CE4E5B9ull; out[b] = static_cast<uint8_t>(m >> 32); }
  const int32_t c = 1 + static_cast<int32_t>((j * 2654435761u) >> 5 & 0x3FFFFFF); memcpy(out + rec - 4, &c, 4);
}
static void inode_bytes(const Inode* i, uint64_t off, uint64_t n, uint8_t* to) {        // within the size
  while (n && off < i->vsize) {
    uint8_t r[32]; huge_record(off / i->vrec, i->vstep, i->vrec, r); const uint64_t at = off % i->vrec, k = std::min({n, i->vrec - at, i->vsize - off});
    memcpy(to, r + at, k); to += k; off += k; n -= k;
  }
  if (n) memcpy(to, i->data + (off - i->vsize), n);
}
void vfs_reset() { W->nfiles = 0; W->next_ino = 0; for (auto p : {"/", "/w", "/tmp"}) { Inode* i = vfs_create(p); i->dir = true; i->mode = 0755; } }
void vfs_put(const std::string& path, const void* data, size_t n, int64_t mtime) {
  std::string p = path[0] == '/' ? path : "/w/" + path;
  for (size_t k = p.find('/', 1); k != std::string::npos; k = p.find('/', k + 1)) { std::string d = p.substr(0, k); if (!vfs_find(d.c_str())) { Inode* di = vfs_create(d.c_str()); di->dir = true; di->mode = 0755; } }
  Inode* i = vfs_find(p.c_str());
  if (!i) i = vfs_create(p.c_str());
  i->size = i->vsize = 0; i->vbad = false; inode_reserve(i, n); if (n) memcpy(i->data, data, n);
  i->size = n; i->mtime = mtime ? mtime : coarse(W->now);
}
void vfs_put_huge(const std::string& path, uint64_t n, uint64_t step, uint32_t rec, const void* tail, size_t len, int64_t mtime) {
  vfs_put(path, tail, len, mtime); Inode* i = vfs_find((path[0] == '/' ? path : "/w/" + path).c_str());
  i->vsize = n * rec; i->vstep = step; i->vrec = rec; i->size = i->vsize + len;
}
bool vfs_huge_intact(const std::string& path, uint64_t bytes) { Inode* i = vfs_find((path[0] == '/' ? path : "/w/" + path).c_str()); return i && !i->vbad && i->vsize == bytes; }
bool vfs_exists(const std::string& path) { return vfs_find((path[0] == '/' ? path : "/w/" + path).c_str()) != nullptr; }
std::string vfs_get(const std::string& path) {
  Inode* i = vfs_find((path[0] == '/' ? path : "/w/" + path).c_str());
  return i ? std::string(reinterpret_cast<char*>(i->data), i->size - i->vsize) : std::string();
}
void vfs_remove(const std::string& path) { unlink_path((path[0] == '/' ? path : "/w/" + path).c_str()); }
std::vector<std::string> vfs_list() {
  std::vector<std::string> v;
  for (int i = 0; i < W->nfiles; ++i) if (W->files[i].used && !W->files[i].ino->dir) v.emplace_back(W->files[i].path);
  std::sort(v.begin(), v.end());
  return v;
}
std::string vfs_stdout() { return {reinterpret_cast<char*>(W->std_out.data), W->std_out.size}; }
std::string vfs_stderr() { return {reinterpret_cast<char*>(W->std_err.data), W->std_err.size}; }
void vfs_set_stdin(const void* p, size_t n) { W->std_in.size = 0; inode_reserve(&W->std_in, n); if (n) memcpy(W->std_in.data, p, n); W->std_in.size = n; }

// ------------------------------------------------------------------ another process on the same files
EnvCfg g_env;
static uint32_t env_wait = 0;
#define env_open (W->env_open)
static EnvOp* env_note(EnvKind k, const char* a) {
  if (!W->rec) return nullptr;
  if (W->rec->n >= MAXENV) { static const char m[] = "dst: too many operations to record\n"; raw_print(2, m, sizeof m - 1); raw6(SYS_exit_group, 97); }
  EnvOp* o = &W->rec->op[W->rec->n++]; memset(o, 0, sizeof *o); o->kind = k; snprintf(o->a, sizeof o->a, "%s", a); return o;
}
void env_record(bool on) { W->rec = nullptr; if (on) { W->rec = static_cast<EnvLog*>(shm_alloc(sizeof(EnvLog))); W->rec->n = W->rec->opens = 0; } }
std::vector<EnvOp> env_recorded() { return W->rec ? std::vector<EnvOp>(W->rec->op, W->rec->op + W->rec->n) : std::vector<EnvOp>(); }
static void env_apply(const EnvOp& o) {
  Inode* i = o.h ? env_open[o.h] : vfs_find(o.a);
  count(C_E_OPS); faulthash(0xE9, static_cast<uint64_t>(o.kind) << 40 | W->env_pos); evhash(0xE9, W->env_pos);
  switch (o.kind) {
  case EV_OPEN: i = vfs_find(o.a); if (!i) i = vfs_create(o.a); else if (o.len) { i->size = i->vsize = 0; i->mtime = coarse(W->now); } env_open[o.h] = i; trace("OTHER PROCESS: open %s", o.a); return;
  case EV_WRITE: if (!i) return; if (o.off + o.len > i->size) inode_resize(i, o.off + o.len); memcpy(i->data + o.off, o.data, o.len); i->mtime = coarse(W->now); trace("OTHER PROCESS: write %s %llu at %llu", o.a, (unsigned long long)o.len, (unsigned long long)o.off); return;
  case EV_RENAME: { i = vfs_find(o.a); trace("OTHER PROCESS: rename %s -> %s%s", o.a, o.b, i ? "" : ": no such file"); if (!i) return; if (vfs_find(o.b)) unlink_path(o.b); for (int k = 0; k < W->nfiles; ++k) if (W->files[k].used && !strcmp(o.a, W->files[k].path)) snprintf(W->files[k].path, sizeof W->files[k].path, "%s", o.b); return; }
  case EV_REPLACE: unlink_path(o.a); i = vfs_create(o.a); inode_resize(i, o.len); memcpy(i->data, o.data, o.len); i->mtime = coarse(W->now + o.t); count(C_E_REPLACED); trace("OTHER PROCESS: moves a new file over %s (%llu bytes)", o.a, (unsigned long long)o.len); return;
  case EV_UNLINK: trace("OTHER PROCESS: unlink %s", o.a); unlink_path(o.a); return;
  case EV_TRUNC: if (i) { inode_resize(i, o.len); i->mtime = coarse(W->now); trace("OTHER PROCESS: truncate %s to %llu", o.a, (unsigned long long)o.len); } return;
  case EV_TIMES: if (i) { i->mtime = o.t == INT64_MIN ? W->now : o.t; trace("OTHER PROCESS: set time of %s", o.a); } return;
  }
}
void env_start() { W->env_pos = 0; env_open = static_cast<Inode**>(shm_alloc(sizeof(Inode*) * (MAXENV + 1))); memset(env_open, 0, sizeof(Inode*) * (MAXENV + 1)); env_wait = std::max(1u, g_env.first); }
static void env_tick() {                  // before a file operation of the process under test
  if (W->env_pos >= g_env.ops.size() || --env_wait) return;
  for (uint32_t n = 1 + (g_env.burst > 1 ? choose(S_TIME, g_env.burst) : 0); n && W->env_pos < g_env.ops.size(); --n) {
    static const int64_t j[] = {0, 9 * MS, 2 * MS, 400 * MS};
    if (g_env.jump) W->now += j[choose(S_TIME, g_env.jump)];
    env_apply(g_env.ops[W->env_pos]); ++W->env_pos;
    if (g_env.jump) W->now += j[choose(S_TIME, g_env.jump)];
  }
  env_wait = 1 + (g_env.gap > 1 ? choose(S_TIME, g_env.gap) : 0);
}
void env_next() { if (W->env_pos < g_env.ops.size()) { env_apply(g_env.ops[W->env_pos]); ++W->env_pos; } }
void env_finish(bool killed) {
  if (killed && W->env_pos < g_env.ops.size()) count(C_E_KILLED);
  for (; !killed && W->env_pos < g_env.ops.size(); ++W->env_pos) env_apply(g_env.ops[W->env_pos]);
  g_env.ops.clear();
}
VfsCopy vfs_save() { VfsCopy c; for (auto& p : vfs_list()) { c.f.push_back({p, vfs_get(p)}); c.t.push_back(vfs_find(p.c_str())->mtime); } c.now = W->now; return c; }
void vfs_restore(const VfsCopy& c) { for (auto& p : vfs_list()) unlink_path(p.c_str()); for (size_t i = 0; i < c.f.size(); ++i) vfs_put(c.f[i].first, c.f[i].second.data(), c.f[i].second.size(), c.t[i]); W->now = c.now; }

// ------------------------------------------------------------------ descriptors
static OFileP* vfds = nullptr;            // [NVFD], slots 0..2 are the standard streams, others start at VFD0
static inline int slot(int fd) { if (fd >= 0 && fd <= 2) return fd; if (fd >= VFD0 && fd < VFD0 + NVFD - 3) return fd - VFD0 + 3; return -1; }
static inline bool sim_on() { return g_active && t_insim == 0 && cur_tid() > 0; }
bool vfd_is(int fd) { return g_active && slot(fd) >= 0; }
OFileP vfd_get(int fd) { int s = slot(fd); if (s < 0 || !vfds) return nullptr; return vfds[s]; }
int vfd_alloc(OFileP f) {
  for (int s = 3; s < NVFD; ++s) if (!vfds[s]) { vfds[s] = std::move(f); if (++W->fd_live > W->fd_peak) W->fd_peak = W->fd_live; return s - 3 + VFD0; }
  errno = EMFILE; return -1;
}
static std::string canon(const char* p, int dirfd = AT_FDCWD) {
  std::string in;
  if (p[0] == '/') in = p;
  else if (dirfd != AT_FDCWD) { auto f = vfd_get(dirfd); in = std::string(f ? f->path : "/w") + "/" + p; }
  else in = std::string("/w/") + p;
  std::vector<std::string> parts; size_t i = 0;
  while (i < in.size()) {
    size_t j = in.find('/', i); if (j == std::string::npos) j = in.size();
    std::string c = in.substr(i, j - i); i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; }
    parts.push_back(c);
  }
  std::string o; for (auto& c : parts) { o += '/'; o += c; }
  return o.empty() ? "/" : o;
}
static bool real_path(const std::string& p, bool write) {
  if (p == "/dev/null") return true;
  if (write) return false;
  for (auto pre : {"/etc/", "/usr/", "/lib", "/proc/", "/sys/", "/dev/", "/opt/", "/run/", "/var/"}) if (p.rfind(pre, 0) == 0) return true;
  return false;
}
static bool parent_ok(const std::string& p) {
  size_t k = p.rfind('/'); std::string d = k == 0 ? "/" : p.substr(0, k);
  Inode* i = vfs_find(d.c_str()); return i && i->dir;
}

// ------------------------------------------------------------------ disk faults
static uint32_t n_hard, n_w, n_r, n_o, n_c, n_s, n_m, n_a;
static bool sticky_w, sticky_r; static int sticky_err;
static bool eligible(const char* path, bool std_stream) {
  if (!g_disk.on) return false;
  if (std_stream) return g_disk.std_streams;
  return !g_disk.only[0] || strstr(path, g_disk.only);
}
static bool hard(Stream, double p, uint32_t nth, uint32_t& ctr) {
  ++ctr;
  if (static_cast<int>(n_hard) >= g_disk.max_hard) return false;
  bool f = nth ? ctr == nth : flip(S_DISK, p);
  if (f) ++n_hard;
  return f;
}
static void io_fault(Counter c, const char* what, const char* path, bool lossy) {
  count(c); ++W->io_faults; if (lossy) ++W->io_faults_lossy;
  faulthash(static_cast<uint64_t>(c), phash(path)); evhash(0xD15C, static_cast<uint64_t>(c));
  trace("DISK FAULT %s on %s", what, path);
}
[[noreturn]] static void crash_now(const char* what) { end_incarnation(E_CRASH, 0, "killed in %s", what); }

// ------------------------------------------------------------------ files
// is one of the secrets in what goes out, perhaps begun by what went out before
static void watch_secrets(std::string& tail, const char* d, size_t n, const char* where, uint32_t knows) {
  tail.append(d, n);
  for (int i = 0; i < W->nsecret; ++i) if (!(knows >> i & 1) && !W->leak[0] && tail.find(W->secret[i]) != std::string::npos) { snprintf(W->leak, sizeof W->leak, "'%s' %s", W->secret[i], where); trace("leak: %s", W->leak); }
  if (tail.size() > 64) tail.erase(0, tail.size() - 64);
}
static ssize_t file_write(const OFileP& f, const struct iovec* iov, int cnt) {
  sys_enter("write"); InSim g; env_tick();
  if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  uint64_t n = 0; for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
  if (n == 0) return 0;
  const bool is_err = f->ino == &W->std_err;
  if (!is_err && eligible(f->path, f->std_stream)) {
    if (sticky_w) { errno = sticky_err; trace("write %s: error persists", f->path); return -1; }
    if (hard(S_DISK, g_disk.p_eiow, g_disk.nth_write, n_w)) {
      int k = static_cast<int>(choose(S_DISK, 3)); int e = k == 0 ? EIO : k == 1 ? ENOSPC : EFBIG;
      io_fault(e == ENOSPC ? C_D_ENOSPC : C_D_EIOW, e == ENOSPC ? "ENOSPC" : e == EIO ? "EIO" : "EFBIG", f->path, true);
      if (g_disk.sticky || g_disk.p_shortw > 0) { sticky_w = true; sticky_err = e; }
      errno = e; return -1;
    }
    if (!f->std_stream && flip(S_DISK, g_disk.p_eintr)) { count(C_D_EINTRW); faulthash(C_D_EINTRW, n_w); trace("EINTR on write %s", f->path); errno = EINTR; return -1; }
    if (n > 1 && flip(S_DISK, g_disk.p_shortw)) {
      uint64_t m = 1 + choose(S_DISK, static_cast<uint32_t>(n - 1)); count(C_D_SHORTW); faulthash(C_D_SHORTW, m);
      trace("short write %s: %llu of %llu", f->path, (unsigned long long)m, (unsigned long long)n); n = m;
    }
  }
  if (f->flags & O_APPEND) f->off = f->ino->size;
  if (!is_err && (!f->std_stream || g_disk.std_streams) && W->disk_capacity >= 0) {
    uint64_t end = f->off + n; uint64_t growth = end > f->ino->size ? end - f->ino->size : 0;
    if (growth > static_cast<uint64_t>(W->disk_capacity)) {
      uint64_t over = growth - static_cast<uint64_t>(W->disk_capacity);
      if (over >= n) { io_fault(C_D_ENOSPC, "ENOSPC (disk full)", f->path, true); errno = ENOSPC; return -1; }
      n -= over; count(C_D_SHORTW);
      trace("short write %s: %llu (disk nearly full)", f->path, (unsigned long long)n);
      growth -= over;
    }
    W->disk_capacity -= static_cast<int64_t>(growth);
  }
  int64_t cp = -1;
  if (!f->std_stream) cp = vfs_crash_point("write", n);
  uint64_t todo = cp >= 0 ? static_cast<uint64_t>(cp) : n;
  f->lastw_from = f->off; f->wrote = true;
  uint64_t end = f->off + todo;
  if (W->nsecret) { std::string all; for (int i = 0; i < cnt && all.size() < todo; ++i) all.append(static_cast<const char*>(iov[i].iov_base), std::min<uint64_t>(todo - all.size(), iov[i].iov_len)); char w[240]; snprintf(w, sizeof w, "written to %s", f->std_stream ? f->ino == &W->std_err ? "standard error" : "standard output" : f->path); watch_secrets(f->tail, all.data(), all.size(), w, 0); }
  if (todo) {
    if (end > f->ino->size) inode_resize(f->ino, end);
    uint64_t left = todo, o = f->off;
    for (int i = 0; i < cnt && left; ++i) {
      uint64_t k = std::min<uint64_t>(left, iov[i].iov_len), lost = o < f->ino->vsize ? std::min(k, f->ino->vsize - o) : 0;
      if (lost) f->ino->vbad = true;
      if (k > lost) memcpy(f->ino->data + (o + lost - f->ino->vsize), static_cast<const char*>(iov[i].iov_base) + lost, k - lost);
      o += k; left -= k;
    }
    f->off = end;
    f->ino->mtime = coarse(W->now);
  }
  if (!f->std_stream) { note_touch(f->path, "write"); evhash(0x77, todo); }
  if (!f->std_stream && todo) if (EnvOp* e = env_note(EV_WRITE, f->path)) { e->h = f->envh; e->off = f->lastw_from; e->len = todo; e->data = static_cast<uint8_t*>(shm_alloc(todo)); memcpy(e->data, f->ino->data + f->lastw_from, todo); }
  if (cp >= 0) crash_now("write");
  if (!f->std_stream) trace("write %s %llu -> size %llu", f->path, (unsigned long long)todo, (unsigned long long)f->ino->size);
  return static_cast<ssize_t>(todo);
}
static ssize_t file_read(const OFileP& f, void* buf, size_t n, int64_t at) {
  sys_enter("read"); InSim g; env_tick();
  if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (f->ino->dir) { errno = EISDIR; return -1; }
  uint64_t off = at >= 0 ? static_cast<uint64_t>(at) : f->off;
  if (eligible(f->path, f->std_stream)) {
    if (sticky_r) { errno = EIO; return -1; }
    if (hard(S_DISK, g_disk.p_eior, g_disk.nth_read, n_r)) {
      io_fault(C_D_EIOR, "EIO (read)", f->path, false); if (g_disk.sticky) sticky_r = true; errno = EIO; return -1;
    }
    if (!f->std_stream && flip(S_DISK, g_disk.p_eintr)) { count(C_D_EINTRR); faulthash(C_D_EINTRR, n_r); errno = EINTR; return -1; }
  }
  uint64_t av = off < f->ino->size ? f->ino->size - off : 0;
  uint64_t k = std::min<uint64_t>(av, n);
  if (k > 1 && eligible(f->path, f->std_stream) && flip(S_DISK, g_disk.p_shortr)) {
    k = 1 + choose(S_DISK, static_cast<uint32_t>(std::min<uint64_t>(k - 1, 1u << 30))); count(C_D_SHORTR); faulthash(C_D_SHORTR, k);
    trace("short read %s: %llu", f->path, (unsigned long long)k);
  }
  if (k) { inode_bytes(f->ino, off, k, static_cast<uint8_t*>(buf)); f->ino->rbytes += k; ++f->ino->rcalls; }
  if (at < 0) f->off = off + k;
  evhash(0x52, k);
  return static_cast<ssize_t>(k);
}
static int file_open(const char* path, int flags, mode_t mode, int dirfd) {
  sys_enter("open"); InSim g; env_tick();
  std::string p = canon(path, dirfd);
  const int acc = flags & O_ACCMODE;
  if (real_path(p, acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))) {
    if (p == "/dev/null") { auto f = std::make_shared<OFile>(); f->kind = FK::NUL; f->flags = flags; return vfd_alloc(f); }
    return static_cast<int>(rawret(raw6(SYS_openat, AT_FDCWD, (long)p.c_str(), flags, mode)));
  }
  if (p == "/dev/stdout" || p == "/dev/stderr" || p == "/dev/stdin") { auto f = vfd_get(p == "/dev/stdin" ? 0 : p == "/dev/stdout" ? 1 : 2); return vfd_alloc(f); }
  if (eligible(p.c_str(), false) && hard(S_DISK, g_disk.p_open, g_disk.nth_open, n_o)) {
    static const int errs[] = {EIO, EACCES, EMFILE, ENFILE, ENOMEM};
    int e = errs[choose(S_DISK, 5)]; if (acc != O_RDONLY && choose(S_DISK, 4) == 1) e = ENOSPC;
    io_fault(C_D_OPEN, "open error", p.c_str(), acc != O_RDONLY);
    errno = e; return -1;
  }
  Inode* ino = vfs_find(p.c_str());
  if (ino && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (ino && ino->dir && acc != O_RDONLY) { errno = EISDIR; return -1; }
  if (ino && !ino->dir && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
  if (!ino) {
    if (!(flags & O_CREAT) || !parent_ok(p)) { errno = ENOENT; return -1; }
    if (W->disk_capacity == 0 && choose(S_DISK, 2) == 1) { io_fault(C_D_ENOSPC, "ENOSPC (create)", p.c_str(), true); errno = ENOSPC; return -1; }
    if (vfs_crash_point("create", 0) >= 0) crash_now("create");
    ino = vfs_create(p.c_str()); note_touch(p.c_str(), "create"); evhash(0xC7, phash(p.c_str()));
  } else if ((flags & O_TRUNC) && acc != O_RDONLY) {
    if (vfs_crash_point("open-truncate", 0) >= 0) crash_now("open-truncate");
    if (W->disk_capacity >= 0) W->disk_capacity += static_cast<int64_t>(ino->size);
    ino->size = ino->vsize = 0; ino->mtime = coarse(W->now); note_touch(p.c_str(), "truncate"); evhash(0xC8, phash(p.c_str()));
  }
  auto f = std::make_shared<OFile>();
  f->ino = ino; f->flags = flags; snprintf(f->path, sizeof f->path, "%s", p.c_str());
  int fd = vfd_alloc(f);
  W->opened = 1;
  if (acc != O_RDONLY) if (EnvOp* e = env_note(EV_OPEN, p.c_str())) { f->envh = e->h = ++W->rec->opens; e->len = (flags & O_TRUNC) != 0; }
  trace("open %s flags %x -> %d", p.c_str(), static_cast<unsigned>(flags), fd);
  return fd;
}

static void sock_app_close(const SockP& s);
static int do_close(int fd) {
  sys_enter("close"); InSim g; env_tick();
  int s = slot(fd);
  if (s < 0 || !vfds[s]) { errno = EBADF; return -1; }
  OFileP f = std::move(vfds[s]); vfds[s] = nullptr; if (s > 2) --W->fd_live;
  int rc = 0;
  if (f.use_count() == 1) {
    if (f->kind == FK::SOCK) sock_app_close(f->sock);
    if (f->kind == FK::FILE && !f->std_stream && (f->flags & O_ACCMODE) != O_RDONLY && f->wrote && f->ino->nlink > 0 &&
        eligible(f->path, false) && hard(S_DISK, g_disk.p_close, g_disk.nth_close, n_c)) {
      // deferred write-back error reported at close: the last write is lost
      io_fault(C_D_CLOSE, "close error (last write lost)", f->path, true);
      if (f->lastw_from < f->ino->size) { f->ino->size = f->lastw_from; f->ino->vsize = std::min(f->ino->vsize, f->lastw_from); }
      errno = EIO; rc = -1;
    }
  }
  return rc;
}
static void fill_stat(struct stat* st, Inode* i, FK k = FK::FILE) {
  memset(st, 0, sizeof *st);
  st->st_dev = 77; st->st_blksize = 4096; st->st_nlink = 1; st->st_uid = 0;
  if (i) {
    st->st_ino = i->ino; st->st_size = static_cast<off_t>(i->size); st->st_blocks = static_cast<blkcnt_t>((i->size + 511) / 512);
    st->st_mode = i->dir ? (S_IFDIR | 0755) : (S_IFREG | i->mode); if (i->stream) st->st_mode = S_IFIFO | 0600;
    st->st_mtim.tv_sec = i->mtime / SEC; st->st_mtim.tv_nsec = i->mtime % SEC; st->st_ctim = st->st_atim = st->st_mtim;
    st->st_nlink = static_cast<nlink_t>(i->nlink);
  } else st->st_mode = (k == FK::SOCK ? S_IFSOCK : S_IFCHR) | 0600;
}
static int path_stat(const char* path, struct stat* st, int dirfd) {
  sys_enter("stat"); InSim g; env_tick();
  std::string p = canon(path, dirfd);
  if (real_path(p, false) && !vfs_find(p.c_str())) return static_cast<int>(rawret(raw6(SYS_newfstatat, AT_FDCWD, (long)p.c_str(), (long)st, 0)));
  if (eligible(p.c_str(), false) && hard(S_DISK, g_disk.p_stat, g_disk.nth_stat, n_s)) {
    static const int errs[] = {EIO, EACCES, ENOMEM, EOVERFLOW};
    int e = errs[choose(S_DISK, 4)]; io_fault(C_D_STAT, "stat error", p.c_str(), false); errno = e; return -1;
  }
  Inode* i = vfs_find(p.c_str());
  if (!i) { errno = ENOENT; return -1; }
  fill_stat(st, i); return 0;
}
static int fd_stat(int fd, struct stat* st) {
  sys_enter("fstat"); InSim g; env_tick();
  auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
  if (f->kind == FK::FILE && eligible(f->path, f->std_stream) && hard(S_DISK, g_disk.p_stat, g_disk.nth_stat, n_s)) { io_fault(C_D_STAT, "fstat error", f->path, false); errno = EIO; return -1; }
  fill_stat(st, f->ino, f->kind); return 0;
}
static bool meta_fault(const char* what, const char* p) {
  if (!(eligible(p, false) && hard(S_DISK, g_disk.p_meta, g_disk.nth_meta, n_m))) return false;
  static const int errs[] = {EIO, EACCES, EROFS, ENOSPC};
  int e = errs[choose(S_DISK, 4)]; io_fault(C_D_META, what, p, true); errno = e; return true;
}
static int ino_truncate(Inode* i, const char* p, off_t n, uint32_t h = 0) {
  if (n < 0) { errno = EINVAL; return -1; }
  if (meta_fault("truncate error", p)) return -1;
  if (vfs_crash_point("truncate", 0) >= 0) crash_now("truncate");
  if (W->disk_capacity >= 0) {
    int64_t d = static_cast<int64_t>(i->size) - n; if (W->disk_capacity + d < 0) { errno = ENOSPC; return -1; } W->disk_capacity += d;
  }
  trace("truncate %s %llu -> %lld", p, (unsigned long long)i->size, (long long)n);
  inode_resize(i, static_cast<uint64_t>(n)); i->mtime = coarse(W->now); note_touch(p, "truncate"); evhash(0x7C, static_cast<uint64_t>(n));
  if (EnvOp* e = env_note(EV_TRUNC, p)) { e->h = h; e->len = static_cast<uint64_t>(n); }
  return 0;
}
static int do_rename(const char* a, int afd, const char* b, int bfd) {
  sys_enter("rename"); InSim g; env_tick();
  std::string p = canon(a, afd), q = canon(b, bfd);
  if (meta_fault("rename error", p.c_str())) return -1;
  Inode* i = vfs_find(p.c_str());
  if (!i || !parent_ok(q)) { errno = ENOENT; return -1; }
  Inode* j = vfs_find(q.c_str());
  if (j && j->dir != i->dir) { errno = j->dir ? EISDIR : ENOTDIR; return -1; }
  if (real_path(q, true)) { errno = EROFS; return -1; }
  if (vfs_crash_point("rename", 0) >= 0) crash_now("rename");
  note_touch(p.c_str(), "rename-from"); note_touch(q.c_str(), "rename-to"); evhash(0x4E, phash(q.c_str()));
  trace("rename %s -> %s", p.c_str(), q.c_str());
  if (EnvOp* e = env_note(EV_RENAME, p.c_str())) snprintf(e->b, sizeof e->b, "%s", q.c_str());
  if (p == q || i == j) return 0;
  if (j) { if (W->disk_capacity >= 0) W->disk_capacity += static_cast<int64_t>(j->size); unlink_path(q.c_str()); }
  for (int k = 0; k < W->nfiles; ++k) if (W->files[k].used && p == W->files[k].path) snprintf(W->files[k].path, sizeof W->files[k].path, "%s", q.c_str());
  return 0;
}
static int do_unlink(const char* path, int dfd, bool dir) {
  sys_enter("unlink"); InSim g; env_tick();
  std::string p = canon(path, dfd);
  Inode* i = vfs_find(p.c_str());
  if (!i) { errno = ENOENT; return -1; }
  if (i->dir != dir) { errno = dir ? ENOTDIR : EISDIR; return -1; }
  if (meta_fault("unlink error", p.c_str())) return -1;
  if (vfs_crash_point("unlink", 0) >= 0) crash_now("unlink");
  note_touch(p.c_str(), "unlink"); evhash(0x4D, phash(p.c_str())); trace("unlink %s", p.c_str()); env_note(EV_UNLINK, p.c_str());
  if (W->disk_capacity >= 0) W->disk_capacity += static_cast<int64_t>(i->size);
  unlink_path(p.c_str());
  return 0;
}

// ------------------------------------------------------------------ sockets
std::function<ConnectDecision(const SockP&)> on_app_connect;
std::function<ResolveDecision(const char*)> on_app_resolve;
static int next_sock_id = 1, next_port = 40000;
static std::vector<SockP>* listeners;
void kick_sock(Sock* s) { ++s->kick; }
static bool sk_readable(const Sock& s) {
  if (s.st == Sock::LISTENING) return !s.backlog.empty();
  return s.rx.size() > s.rxoff || s.rx_fin || s.rst || s.so_error;
}
static bool sk_writable(const Sock& s) {
  if (s.so_error || s.rst) return true;
  return s.st == Sock::CONNECTED && !s.tx_shut && s.inflight < s.sndbuf;
}
static uint32_t sk_mask(const Sock& s) {
  uint32_t m = 0;
  if (sk_readable(s)) m |= EPOLLIN;
  if (sk_writable(s)) m |= EPOLLOUT;
  if (s.rx_fin || s.rst) m |= EPOLLRDHUP;
  if (s.rst || s.so_error || (s.rx_fin && s.tx_shut)) m |= EPOLLHUP;
  if (s.so_error || s.rst) m |= EPOLLERR;
  return m;
}
void net_debug_dump() {
  if (!W->tracing || !vfds) return;
  for (int i = 3; i < NVFD; ++i) if (vfds[i] && vfds[i]->kind == FK::SOCK) {
    auto& s = *vfds[i]->sock; trace("  fd %d sock %d st %d rx %zu fin %d rst %d inflight %zu", i - 3 + VFD0, s.id, s.st, s.rx.size() - s.rxoff, s.rx_fin, s.rst, s.inflight);
  }
}
void ep_deliver(const SockP& s, std::string data, int64_t delay) {
  int64_t t = std::max(s->last_rx_ev, W->now + delay); s->last_rx_ev = t;
  at_time(t, [s, d = std::move(data)] {
    if (s->app_closed || s->rst) return;
    if (s->rxoff > 65536 && s->rxoff * 2 > s->rx.size()) { s->rx.erase(0, s->rxoff); s->rxoff = 0; }
    s->rx += d; kick_sock(s.get()); evhash(0xDA, d.size() << 16 | static_cast<uint64_t>(s->id));
  });
}
void ep_fin(const SockP& s, int64_t delay) {
  int64_t t = std::max(s->last_rx_ev, W->now + delay); s->last_rx_ev = t;
  at_time(t, [s] { if (!s->app_closed) { s->rx_fin = true; kick_sock(s.get()); evhash(0xDB, static_cast<uint64_t>(s->id)); } });
}
void ep_rst(const SockP& s, int64_t delay) {
  int64_t t = std::max(s->last_rx_ev, W->now + delay); s->last_rx_ev = t;
  at_time(t, [s] { if (!s->app_closed) { s->rst = true; s->so_error = ECONNRESET; s->ep.reset(); kick_sock(s.get()); evhash(0xDC, static_cast<uint64_t>(s->id)); } });
}
bool app_listening(int port) { if (listeners) for (auto& l : *listeners) if (l->listen_port == port && !l->app_closed) return true; return false; }
SockP sim_connect(int port, std::shared_ptr<Endpoint> ep) {
  if (listeners) for (auto& l : *listeners) if (l->listen_port == port && !l->app_closed) {
    auto s = std::make_shared<Sock>(); s->id = next_sock_id++; s->family = l->family; s->type = SOCK_STREAM; s->st = Sock::CONNECTED;
    s->local_port = port; s->peer_port = next_port++; s->ep = std::move(ep);
    l->backlog.push_back(s); kick_sock(l.get());
    return s;
  }
  return nullptr;
}
static void sock_app_close(const SockP& s) {
  if (s->app_closed) return;
  s->app_closed = true;
  trace("close socket %d", s->id);
  evhash(0xCC, static_cast<uint64_t>(s->id));
  if (s->pair) { auto p = s->pair; p->rx_fin = true; p->tx_shut = true; kick_sock(p.get()); p->pair.reset(); s->pair.reset(); return; }
  if (s->st == Sock::LISTENING) { for (auto& b : s->backlog) if (b->ep) { auto e = b->ep; at_time(W->now, [b, e] { e->on_reset(b); }); } return; }
  if (s->ep) {
    auto e = s->ep; bool unread = s->rx.size() > s->rxoff;
    int64_t t = std::max(s->last_tx_ev, W->now + 100 * US); s->last_tx_ev = t;
    at_time(t, [s, e, unread] { if (unread) e->on_reset(s); else e->on_fin(s); });
    s->ep.reset();
  }
}
static void note_net(const char* what, const char* addr, int port) { if (W->nnet < 24) snprintf(W->net[W->nnet++], sizeof W->net[0], "%s %s:%d", what, addr, port); }
static void addr_text(const struct sockaddr* a, char* b, size_t n) {
  if (a->sa_family == AF_INET6) inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6*>(a)->sin6_addr, b, static_cast<socklen_t>(n));
  else if (a->sa_family != AF_INET) snprintf(b, n, "family %d", a->sa_family);
  else inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(a)->sin_addr, b, static_cast<socklen_t>(n));
}
static ssize_t sock_send(const OFileP& f, const struct iovec* iov, int cnt, int flags) {
  sys_enter("send");
  SockP s = f->sock;
  const bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  auto ready = [&] { return s->rst || s->so_error || s->tx_shut || s->st != Sock::CONNECTED || s->inflight < s->sndbuf || (s->pair && s->pair->rx.size() - s->pair->rxoff < s->sndbuf); };
  if (!ready()) { if (nb) { errno = EAGAIN; return -1; } block_on(ready, -1, Y_BLOCK); }
  InSim g;
  if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
  if (s->rst || s->tx_shut || (!s->pair && !s->ep && s->st == Sock::CONNECTED)) { errno = EPIPE; return -1; }
  if (s->st != Sock::CONNECTED) { errno = ENOTCONN; return -1; }
  uint64_t n = 0; for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
  if (n == 0) return 0;
  uint64_t space = s->pair ? s->sndbuf : s->sndbuf - s->inflight;
  uint64_t k = std::min(n, space);
  if (!s->pair && k > 1 && flip(S_NET, 0.02)) k = 1 + choose(S_NET, static_cast<uint32_t>(k - 1));
  std::string d; d.reserve(k);
  for (int i = 0; i < cnt && d.size() < k; ++i) d.append(static_cast<const char*>(iov[i].iov_base), std::min<uint64_t>(k - d.size(), iov[i].iov_len));
  if (s->pair) { s->pair->rx += d; kick_sock(s->pair.get()); vc_release(s->pair.get()); return static_cast<ssize_t>(k); }
  if (W->nsecret) { char w[40]; snprintf(w, sizeof w, "sent on socket %d", s->id); watch_secrets(s->tail, d.data(), d.size(), w, s->knows); }
  s->inflight += k; trace("send socket %d %llu bytes", s->id, (unsigned long long)k);
  int64_t lat = 200 * US + static_cast<int64_t>(choose(S_NET, 8)) * 300 * US;
  int64_t t = std::max(s->last_tx_ev, W->now + lat); s->last_tx_ev = t;
  evhash(0x5E, k << 16 | static_cast<uint64_t>(s->id));
  auto e = s->ep;
  at_time(t, [s, e, d = std::move(d)] {
    s->inflight -= d.size(); kick_sock(s.get());
    if (!s->rst) e->on_data(s, d.data(), d.size());
  });
  return static_cast<ssize_t>(k);
}
static ssize_t sock_recv(const OFileP& f, const struct iovec* iov, int cnt, int flags) {
  sys_enter("recv");
  SockP s = f->sock;
  const bool nb = s->nonblock || (flags & MSG_DONTWAIT);
  auto ready = [&] { return sk_readable(*s) || s->st == Sock::NEW; };
  if (!ready()) { if (nb) { errno = EAGAIN; return -1; } block_on(ready, -1, Y_BLOCK); }
  InSim g;
  uint64_t av = s->rx.size() - s->rxoff;
  if (av == 0) {
    if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
    if (s->rst) return 0;
    if (s->rx_fin) return 0;
    errno = ENOTCONN; return -1;
  }
  uint64_t n = 0; for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
  uint64_t k = std::min(n, av);
  if (!s->pair && k > 1 && flip(S_NET, 0.03)) k = 1 + choose(S_NET, static_cast<uint32_t>(k - 1));
  uint64_t done = 0;
  for (int i = 0; i < cnt && done < k; ++i) { uint64_t m = std::min<uint64_t>(k - done, iov[i].iov_len); memcpy(iov[i].iov_base, s->rx.data() + s->rxoff + done, m); done += m; }
  if (!(flags & MSG_PEEK)) s->rxoff += k;
  if (s->rxoff == s->rx.size()) { s->rx.clear(); s->rxoff = 0; }
  if (s->pair) vc_acquire(s.get());
  trace("recv socket %d -> %llu bytes", s->id, (unsigned long long)k);
  evhash(0x5F, k << 16 | static_cast<uint64_t>(s->id));
  return static_cast<ssize_t>(k);
}
static void fill_addr(const Sock& s, int port, struct sockaddr* a, socklen_t* l) {
  if (s.family == AF_INET6) {
    struct sockaddr_in6 x; memset(&x, 0, sizeof x); x.sin6_family = AF_INET6; x.sin6_port = htons(static_cast<uint16_t>(port)); x.sin6_addr = in6addr_loopback;
    memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x;
  } else {
    struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(static_cast<uint16_t>(port)); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &x, std::min<size_t>(*l, sizeof x)); *l = sizeof x;
  }
}

// ------------------------------------------------------------------ polling
static uint32_t of_mask(OFile& f) {
  switch (f.kind) {
  case FK::SOCK: return sk_mask(*f.sock);
  case FK::EVENTFD: return (f.counter ? EPOLLIN : 0u) | EPOLLOUT;
  case FK::TIMERFD: return f.expiry >= 0 && f.expiry <= W->now ? EPOLLIN : 0u;
  case FK::FILE: case FK::NUL: return EPOLLIN | EPOLLOUT;
  case FK::EPOLL: for (auto& it : f.items) if (auto o = it.f.lock(); o && (of_mask(*o) & (it.events | EPOLLERR | EPOLLHUP))) return EPOLLIN; return 0;
  default: return 0;
  }
}
static uint64_t of_kick(OFile& f) { if (f.kind == FK::SOCK) return f.sock->kick; if (f.kind == FK::TIMERFD) return (f.expiry >= 0 && f.expiry <= W->now) ? f.kick * 2 + 1 : f.kick * 2; return f.kick; }
static int ep_collect(OFile& ep, struct epoll_event* ev, int max, bool consume) {
  int n = 0; size_t cnt = ep.items.size();
  for (size_t j = 0; j < cnt; ++j) { if (ep.items[j].f.expired()) { ep.items.erase(ep.items.begin() + static_cast<long>(j)); --j; --cnt; } }
  if (cnt == 0) return 0;
  // which are ready
  std::vector<std::pair<size_t, uint32_t>> rd;
  for (size_t i = 0; i < cnt; ++i) {
    auto& it = ep.items[i]; if (it.disabled) continue;
    auto o = it.f.lock(); uint32_t m = of_mask(*o) & (it.events | EPOLLERR | EPOLLHUP); if (!m) continue;
    if ((it.events & EPOLLET) && it.seen == of_kick(*o)) continue;
    rd.emplace_back(i, m);
    if (!consume) return 1;
  }
  if (rd.empty()) return 0;
  if (rd.size() > 1) {
    size_t r = choose(S_NET, static_cast<uint32_t>(rd.size())); std::rotate(rd.begin(), rd.begin() + static_cast<long>(r), rd.end());
    if (flip(S_NET, 0.15)) max = std::min<int>(max, 1 + static_cast<int>(choose(S_NET, static_cast<uint32_t>(rd.size()))));
  }
  for (auto [i, m] : rd) {
    if (n >= max) break;
    auto& it = ep.items[i]; auto o = it.f.lock();
    ev[n].events = m; ev[n].data.u64 = it.data; ++n;
    it.seen = of_kick(*o);
    if (it.events & EPOLLONESHOT) it.disabled = true;
    vc_acquire(o.get());
  }
  return n;
}
static int64_t ep_timer_deadline(OFile& ep) {
  int64_t d = -1;
  for (auto& it : ep.items) if (auto o = it.f.lock(); o && o->kind == FK::TIMERFD && o->expiry >= 0 && o->expiry > W->now && (d < 0 || o->expiry < d)) d = o->expiry;
  return d;
}
static int do_epoll_wait(int efd, struct epoll_event* ev, int max, int timeout_ms) {
  sys_enter("epoll_wait");
  OFileP ep = vfd_get(efd); if (!ep || ep->kind != FK::EPOLL) { errno = EBADF; return -1; }
  int64_t deadline = timeout_ms < 0 ? -1 : W->now + static_cast<int64_t>(timeout_ms) * MS;
  if (timeout_ms != 0) for (;;) {
    int64_t td; { InSim g; td = ep_timer_deadline(*ep); }
    int64_t d = deadline; if (td >= 0 && (d < 0 || td < d)) d = td;
    bool r = block_on([&] { return ep_collect(*ep, nullptr, 1, false) > 0; }, d, Y_BLOCK);
    if (r || (deadline >= 0 && W->now >= deadline)) break;
  }
  InSim g;
  int n = ep_collect(*ep, ev, max, true);
  trace("epoll_wait(timeout %d) -> %d", timeout_ms, n);
  evhash(0xE9, static_cast<uint64_t>(n));
  return n;
}
static int do_poll(struct pollfd* p, nfds_t n, int timeout_ms) {
  sys_enter("poll");
  auto scan = [&]() -> int {
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) {
      p[i].revents = 0; if (p[i].fd < 0) continue;
      auto f = vfd_get(p[i].fd); if (!f) { p[i].revents = POLLNVAL; ++c; continue; }
      uint32_t m = of_mask(*f); short r = 0;
      if ((m & EPOLLIN) && (p[i].events & (POLLIN | POLLRDNORM))) r |= static_cast<short>(p[i].events & (POLLIN | POLLRDNORM));
      if ((m & EPOLLOUT) && (p[i].events & (POLLOUT | POLLWRNORM))) r |= static_cast<short>(p[i].events & (POLLOUT | POLLWRNORM));
      if (m & EPOLLERR) r |= POLLERR;
      if (m & EPOLLHUP) r |= POLLHUP;
      p[i].revents = r; if (r) ++c;
    }
    return c;
  };
  int64_t deadline = timeout_ms < 0 ? -1 : W->now + static_cast<int64_t>(timeout_ms) * MS;
  if (timeout_ms != 0) block_on([&] { return scan() > 0; }, deadline, Y_BLOCK);
  InSim g;
  return scan();
}

// ------------------------------------------------------------------ interposed functions: files
EXP int open(const char* path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_openat, AT_FDCWD, (long)path, flags, m)));
  return file_open(path, flags, m, AT_FDCWD);
}
EXP int open64(const char* path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_openat, AT_FDCWD, (long)path, flags, m)));
  return file_open(path, flags, m, AT_FDCWD);
}
EXP int openat(int d, const char* path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_openat, d, (long)path, flags, m)));
  return file_open(path, flags, m, d);
}
EXP int openat64(int d, const char* path, int flags, ...) {
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_openat, d, (long)path, flags, m)));
  return file_open(path, flags, m, d);
}
EXP int creat(const char* path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
EXP int creat64(const char* path, mode_t m) { return open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
EXP int close(int fd) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_close, fd)));
  return do_close(fd);
}
static ssize_t of_write(const OFileP& f, const struct iovec* v, int c) {
  if (!f) { errno = EBADF; return -1; }
  switch (f->kind) {
  case FK::FILE: return file_write(f, v, c);
  case FK::SOCK: return sock_send(f, v, c, 0);
  case FK::EVENTFD: { sys_enter("eventfd_write"); InSim g; uint64_t x; memcpy(&x, v[0].iov_base, 8); f->counter += x; ++f->kick; vc_release(f.get()); return 8; }
  case FK::NUL: { ssize_t n = 0; for (int i = 0; i < c; ++i) n += static_cast<ssize_t>(v[i].iov_len); return n; }
  default: errno = EINVAL; return -1;
  }
}
static ssize_t of_read(const OFileP& f, const struct iovec* v, int c) {
  if (!f) { errno = EBADF; return -1; }
  switch (f->kind) {
  case FK::FILE: { ssize_t t = 0; for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = file_read(f, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if (static_cast<size_t>(r) < v[i].iov_len) break; } return t; }
  case FK::SOCK: return sock_recv(f, v, c, 0);
  case FK::EVENTFD: {
    sys_enter("eventfd_read");
    if (f->counter == 0) { if (f->nonblock) { errno = EAGAIN; return -1; } block_on([&] { return f->counter != 0; }, -1, Y_BLOCK); }
    InSim g; uint64_t x = f->sema ? 1 : f->counter; f->counter -= x; memcpy(v[0].iov_base, &x, 8); vc_acquire(f.get()); return 8; }
  case FK::TIMERFD: {
    sys_enter("timerfd_read");
    if (!(f->expiry >= 0 && f->expiry <= W->now)) { if (f->nonblock) { errno = EAGAIN; return -1; } block_on([&] { return f->expiry >= 0 && f->expiry <= W->now; }, f->expiry, Y_BLOCK); }
    InSim g; uint64_t x = 1; if (f->interval > 0) f->expiry += f->interval; else f->expiry = -1; ++f->kick; memcpy(v[0].iov_base, &x, 8); return 8; }
  case FK::NUL: return 0;
  default: errno = EINVAL; return -1;
  }
}
EXP ssize_t write(int fd, const void* b, size_t n) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_write, fd, (long)b, (long)n));
  struct iovec v{const_cast<void*>(b), n}; return of_write(vfd_get(fd), &v, 1);
}
EXP ssize_t read(int fd, void* b, size_t n) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_read, fd, (long)b, (long)n));
  struct iovec v{b, n}; return of_read(vfd_get(fd), &v, 1);
}
EXP ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
EXP ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_writev, fd, (long)v, c));
  return of_write(vfd_get(fd), v, c);
}
EXP ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_readv, fd, (long)v, c));
  return of_read(vfd_get(fd), v, c);
}
EXP ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_pread64, fd, (long)b, (long)n, o));
  auto f = vfd_get(fd); if (!f || f->kind != FK::FILE) { errno = EBADF; return -1; } return file_read(f, b, n, o);
}
EXP ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
EXP ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_pwrite64, fd, (long)b, (long)n, o));
  auto f = vfd_get(fd); if (!f || f->kind != FK::FILE) { errno = EBADF; return -1; }
  uint64_t save = f->off; f->off = static_cast<uint64_t>(o); struct iovec v{const_cast<void*>(b), n}; ssize_t r = file_write(f, &v, 1); f->off = save; return r;
}
EXP ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
EXP off_t lseek(int fd, off_t o, int wh) {
  if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_lseek, fd, o, wh));
  InSim g; auto f = vfd_get(fd); if (!f || f->kind != FK::FILE) { errno = f ? ESPIPE : EBADF; return -1; }
  if (f->std_stream) { errno = ESPIPE; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<int64_t>(f->off) : static_cast<int64_t>(f->ino->size);
  if (base + o < 0) { errno = EINVAL; return -1; }
  f->off = static_cast<uint64_t>(base + o); return static_cast<off_t>(f->off);
}
EXP off64_t lseek64(int fd, off64_t o, int wh) { return lseek(fd, o, wh); }
EXP int stat(const char* p, struct stat* st) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0))); return path_stat(p, st, AT_FDCWD); }
EXP int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
EXP int lstat(const char* p, struct stat* st) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW))); return path_stat(p, st, AT_FDCWD); }
EXP int lstat64(const char* p, struct stat64* st) { return lstat(p, reinterpret_cast<struct stat*>(st)); }
EXP int fstat(int fd, struct stat* st) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_fstat, fd, (long)st))); return fd_stat(fd, st); }
EXP int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
EXP int fstatat(int d, const char* p, struct stat* st, int fl) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_newfstatat, d, (long)p, (long)st, fl)));
  if (!*p && (fl & AT_EMPTY_PATH)) return fstat(d, st);
  return path_stat(p, st, d);
}
EXP int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, reinterpret_cast<struct stat*>(st), fl); }
EXP int access(const char* p, int) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_faccessat, AT_FDCWD, (long)p, 0)));
  struct stat st; return path_stat(p, &st, AT_FDCWD);
}
EXP int faccessat(int d, const char* p, int m, int fl) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_faccessat, d, (long)p, m, fl)));
  struct stat st; return path_stat(p, &st, d);
}
EXP int euidaccess(const char* p, int m) { return access(p, m); }
EXP int truncate(const char* p, off_t n) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_truncate, (long)p, n)));
  sys_enter("truncate"); InSim g; env_tick(); std::string q = canon(p); Inode* i = vfs_find(q.c_str()); if (!i) { errno = ENOENT; return -1; } return ino_truncate(i, q.c_str(), n);
}
EXP int truncate64(const char* p, off64_t n) { return truncate(p, n); }
EXP int ftruncate(int fd, off_t n) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_ftruncate, fd, n)));
  sys_enter("ftruncate"); InSim g; env_tick(); auto f = vfd_get(fd); if (!f || f->kind != FK::FILE) { errno = EBADF; return -1; } return ino_truncate(f->ino, f->path, n, f->envh);
}
EXP int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
EXP int fallocate(int fd, int, off_t o, off_t l) { if (!sim_on() || !vfd_is(fd)) { errno = EOPNOTSUPP; return -1; } auto f = vfd_get(fd); if (static_cast<uint64_t>(o + l) > f->ino->size) return ftruncate(fd, o + l); return 0; }
EXP int posix_fallocate(int fd, off_t o, off_t l) { return fallocate(fd, 0, o, l) ? errno : 0; }
EXP int posix_fadvise(int, off_t, off_t, int) { return 0; }
EXP int posix_fadvise64(int, off64_t, off64_t, int) { return 0; }
EXP int fsync(int fd) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_fsync, fd)));
  sys_enter("fsync"); InSim g; auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
  if (meta_fault("fsync error", f->path)) { count(C_D_FSYNC); errno = EIO; return -1; }
  return 0;
}
EXP int fdatasync(int fd) { return fsync(fd); }
EXP void sync() {}
EXP int rename(const char* a, const char* b) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_rename, (long)a, (long)b))); return do_rename(a, AT_FDCWD, b, AT_FDCWD); }
EXP int renameat(int ad, const char* a, int bd, const char* b) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_renameat, ad, (long)a, bd, (long)b))); return do_rename(a, ad, b, bd); }
EXP int unlink(const char* p) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_unlink, (long)p))); return do_unlink(p, AT_FDCWD, false); }
EXP int unlinkat(int d, const char* p, int fl) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_unlinkat, d, (long)p, fl))); return do_unlink(p, d, fl & AT_REMOVEDIR); }
EXP int rmdir(const char* p) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_rmdir, (long)p))); return do_unlink(p, AT_FDCWD, true); }
EXP int remove(const char* p) {
  if (!sim_on()) { int r = static_cast<int>(rawret(raw6(SYS_unlink, (long)p))); return r; }
  Inode* i; { InSim g; i = vfs_find(canon(p).c_str()); }
  return do_unlink(p, AT_FDCWD, i && i->dir);
}
EXP int mkdir(const char* p, mode_t m) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_mkdir, (long)p, m)));
  sys_enter("mkdir"); InSim g; std::string q = canon(p); if (vfs_find(q.c_str())) { errno = EEXIST; return -1; } if (!parent_ok(q) || real_path(q, false)) { errno = ENOENT; return -1; }
  Inode* i = vfs_create(q.c_str()); i->dir = true; note_touch(q.c_str(), "mkdir"); return 0;
}
EXP int link(const char* a, const char* b) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_link, (long)a, (long)b)));
  sys_enter("link"); InSim g; std::string p = canon(a), q = canon(b); Inode* i = vfs_find(p.c_str()); if (!i) { errno = ENOENT; return -1; } if (vfs_find(q.c_str())) { errno = EEXIST; return -1; }
  link_inode(q.c_str(), i); i->nlink++; note_touch(q.c_str(), "create"); return 0;
}
EXP int symlink(const char* a, const char* b) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_symlink, (long)a, (long)b))); errno = EPERM; return -1; }
EXP ssize_t readlink(const char* p, char* b, size_t n) { if (!sim_on()) return rawret(raw6(SYS_readlink, (long)p, (long)b, (long)n)); InSim g; std::string q = canon(p); if (real_path(q, false)) return rawret(raw6(SYS_readlink, (long)p, (long)b, (long)n)); errno = vfs_find(q.c_str()) ? EINVAL : ENOENT; return -1; }
EXP int chmod(const char* p, mode_t m) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_chmod, (long)p, m))); InSim g; std::string q = canon(p); Inode* i = vfs_find(q.c_str()); if (!i) { errno = ENOENT; return -1; } note_touch(q.c_str(), "chmod"); i->mode = m & 07777; return 0; }
EXP int fchmod(int fd, mode_t m) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_fchmod, fd, m))); return 0; }
EXP int fchmodat(int d, const char* p, mode_t m, int) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_fchmodat, d, (long)p, m))); return chmod(p, m); }
static int set_times(Inode* i, const struct timespec* ts) {
  int64_t t = W->now; if (ts && ts[1].tv_nsec == UTIME_OMIT) return 0; if (ts && ts[1].tv_nsec != UTIME_NOW) t = ts[1].tv_sec * SEC + ts[1].tv_nsec; i->mtime = t; return 0;
}
static int set_times_noted(Inode* i, const char* p, uint32_t h, const struct timespec* ts) {
  if (EnvOp* e = env_note(EV_TIMES, p)) { e->h = h; e->t = !ts || ts[1].tv_nsec == UTIME_NOW ? INT64_MIN : ts[1].tv_sec * SEC + ts[1].tv_nsec; if (ts && ts[1].tv_nsec == UTIME_OMIT) --W->rec->n; }
  return set_times(i, ts);
}
EXP int utimensat(int d, const char* p, const struct timespec ts[2], int fl) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_utimensat, d, (long)p, (long)ts, fl)));
  InSim g; std::string q = canon(p, d); Inode* i = vfs_find(q.c_str()); if (!i) { errno = ENOENT; return -1; } note_touch(q.c_str(), "utimens"); return set_times_noted(i, q.c_str(), 0, ts);
}
EXP int futimens(int fd, const struct timespec ts[2]) { if (!sim_on() || !vfd_is(fd)) { errno = ENOSYS; return -1; } InSim g; auto f = vfd_get(fd); note_touch(f->path, "utimens"); return set_times_noted(f->ino, f->path, f->envh, ts); }
EXP char* getcwd(char* b, size_t n) { if (!sim_on()) { long r = raw6(SYS_getcwd, (long)b, (long)n); if (r < 0) { errno = static_cast<int>(-r); return nullptr; } return b; } if (!b) b = static_cast<char*>(malloc(n ? n : 16)); snprintf(b, n ? n : 16, "/w"); return b; }
EXP char* realpath(const char* p, char* r) { if (!sim_on()) { errno = ENOSYS; return nullptr; } InSim g; std::string q = canon(p); if (!vfs_find(q.c_str())) { errno = ENOENT; return nullptr; } if (!r) r = static_cast<char*>(malloc(PATH_MAX)); snprintf(r, PATH_MAX, "%s", q.c_str()); return r; }
EXP int isatty(int fd) { if (!sim_on() || !vfd_is(fd)) { char t[64]; return raw6(SYS_ioctl, fd, TCGETS, (long)t) == 0; } errno = ENOTTY; return 0; }
EXP int statvfs(const char*, struct statvfs* s) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = 1 << 28; s->f_bfree = s->f_bavail = W && W->disk_capacity >= 0 ? static_cast<fsblkcnt_t>(W->disk_capacity / 4096) : 1 << 27; return 0; }
EXP int statvfs64(const char* p, struct statvfs64* s) { return statvfs(p, reinterpret_cast<struct statvfs*>(s)); }
EXP int statfs(const char*, struct statfs* s) { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_blocks = 1 << 28; s->f_bfree = s->f_bavail = 1 << 27; return 0; }
EXP int flock(int, int) { return 0; }
EXP ssize_t copy_file_range(int, off64_t*, int, off64_t*, size_t, unsigned) { errno = ENOSYS; return -1; }
EXP ssize_t sendfile(int o, int i, off_t* off, size_t n) {
  if (!sim_on()) return rawret(raw6(SYS_sendfile, o, i, (long)off, (long)n));
  char buf[4096]; size_t k = std::min(n, sizeof buf); ssize_t r = off ? pread(i, buf, k, *off) : read(i, buf, k); if (r <= 0) return r; ssize_t w = write(o, buf, static_cast<size_t>(r)); if (w > 0 && off) *off += w; return w;
}
EXP ssize_t sendfile64(int o, int i, off64_t* off, size_t n) { return sendfile(o, i, off, n); }
EXP void* mmap(void* a, size_t l, int pr, int fl, int fd, off_t o) {
  if (!sim_on() || (fl & MAP_ANONYMOUS) || !vfd_is(fd)) { long r = raw6(SYS_mmap, (long)a, (long)l, pr, fl, fd, o); if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return MAP_FAILED; } return (void*)r; }
  sys_enter("mmap"); InSim g; auto f = vfd_get(fd);
  if (!f || f->kind != FK::FILE || (pr & PROT_WRITE && fl & MAP_SHARED)) { errno = EACCES; return MAP_FAILED; }
  if (eligible(f->path, false) && hard(S_DISK, g_disk.p_eior, g_disk.nth_read, n_r)) { io_fault(C_D_EIOR, "mmap error", f->path, false); errno = EIO; return MAP_FAILED; }
  long r = raw6(SYS_mmap, (long)a, (long)l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0); if (r < 0 && r > -4096) { errno = ENOMEM; return MAP_FAILED; }
  uint64_t av = static_cast<uint64_t>(o) < f->ino->size ? f->ino->size - static_cast<uint64_t>(o) : 0; if (av) inode_bytes(f->ino, static_cast<uint64_t>(o), std::min<uint64_t>(av, l), reinterpret_cast<uint8_t*>(r));
  return (void*)r;
}
EXP void* mmap64(void* a, size_t l, int pr, int fl, int fd, off64_t o) { return mmap(a, l, pr, fl, fd, o); }
EXP int dup(int fd) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_dup, fd))); InSim g; auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; } return vfd_alloc(f); }
EXP int dup2(int a, int b) { if (!sim_on() || !vfd_is(a)) return static_cast<int>(rawret(raw6(SYS_dup2, a, b))); InSim g; auto f = vfd_get(a); int s = slot(b); if (!f || s < 0) { errno = EBADF; return -1; } vfds[s] = f; return b; }

struct SimDir { OFileP f; struct dirent de; int fd = -1; };
EXP DIR* opendir(const char* p) {
  if (!sim_on()) { errno = ENOSYS; return nullptr; }
  sys_enter("opendir"); InSim g; std::string q = canon(p); Inode* i = vfs_find(q.c_str()); if (!i || !i->dir) { errno = i ? ENOTDIR : ENOENT; return nullptr; }
  auto* d = new SimDir; d->f = std::make_shared<OFile>(); d->f->kind = FK::DIRH; snprintf(d->f->path, sizeof d->f->path, "%s", q.c_str());
  std::string pre = q == "/" ? "/" : q + "/";
  for (int k = 0; k < W->nfiles; ++k) if (W->files[k].used) { std::string n = W->files[k].path; if (n.rfind(pre, 0) == 0 && n.size() > pre.size() && n.find('/', pre.size()) == std::string::npos) d->f->names.push_back(n.substr(pre.size())); }
  return reinterpret_cast<DIR*>(d);
}
EXP DIR* fdopendir(int fd) { auto f = vfd_get(fd); if (!f) { errno = EBADF; return nullptr; } DIR* d = opendir(f->path); if (d) reinterpret_cast<SimDir*>(d)->fd = fd; return d; }
EXP struct dirent* readdir(DIR* dd) { auto* d = reinterpret_cast<SimDir*>(dd); if (d->f->npos >= d->f->names.size()) return nullptr; memset(&d->de, 0, sizeof d->de); auto& n = d->f->names[d->f->npos++]; d->de.d_ino = 1; d->de.d_type = DT_UNKNOWN; snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n.c_str()); return &d->de; }
EXP struct dirent64* readdir64(DIR* d) { return reinterpret_cast<struct dirent64*>(readdir(d)); }
EXP int closedir(DIR* dd) { auto* d = reinterpret_cast<SimDir*>(dd); int fd = d->fd; delete d; if (fd >= 0) close(fd); return 0; }
EXP int dirfd(DIR* dd) { auto* d = reinterpret_cast<SimDir*>(dd); if (d->fd < 0) d->fd = open(d->f->path, O_RDONLY | O_DIRECTORY); return d->fd; }
EXP int __open_2(const char* p, int fl) { return open(p, fl); }
EXP int __open64_2(const char* p, int fl) { return open(p, fl); }
EXP int __openat_2(int d, const char* p, int fl) { return openat(d, p, fl); }
EXP int __openat64_2(int d, const char* p, int fl) { return openat(d, p, fl); }
EXP int mkstemp(char* t) { if (!sim_on()) { errno = ENOSYS; return -1; } size_t n = strlen(t); for (int k = 0; k < 1000; ++k) { snprintf(t + n - 6, 7, "s%05d", k); int fd = open(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; } errno = EEXIST; return -1; }
EXP int mkstemp64(char* t) { return mkstemp(t); }

// ------------------------------------------------------------------ stdio on virtual files
struct FileMap { FILE* f; int fd; };
static FileMap* fmap; static int nfmap;
static ssize_t ck_read(void* c, char* b, size_t n) { int fd = static_cast<int>(reinterpret_cast<intptr_t>(c)); int s = t_insim; t_insim = 0; ++t_noyield; ssize_t r = read(fd, b, n); --t_noyield; t_insim = s; return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  int fd = static_cast<int>(reinterpret_cast<intptr_t>(c)); int s = t_insim; t_insim = 0; ++t_noyield; size_t done = 0;
  while (done < n) { ssize_t r = write(fd, b + done, n - done); if (r < 0) { if (errno == EINTR) continue; break; } done += static_cast<size_t>(r); }
  --t_noyield; t_insim = s; return static_cast<ssize_t>(done < n && done == 0 ? 0 : done);
}
static int ck_seek(void* c, off64_t* o, int wh) { int fd = static_cast<int>(reinterpret_cast<intptr_t>(c)); off_t r = lseek(fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int fd = static_cast<int>(reinterpret_cast<intptr_t>(c)); int s = t_insim; t_insim = 0; ++t_noyield; int r = fd <= 2 ? 0 : close(fd); --t_noyield; t_insim = s; return r; }
static FILE* cookie(int fd, const char* mode) {
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
  if (f && nfmap < 512) fmap[nfmap++] = {f, fd};
  return f;
}
extern "C" FILE* real_fopen(const char*, const char*); extern "C" int real_fclose(FILE*); extern "C" int real_fileno(FILE*);
static FILE* sim_fopen(const char* p, const char* m) {
  int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(m, 'x')) fl |= O_EXCL;
  int fd = open(p, fl, 0666); if (fd < 0) return nullptr;
  if (!vfd_is(fd)) { InSim g; FILE* f = fdopen(fd, m); return f; }
  InSim g; return cookie(fd, m);
}
EXP FILE* fopen(const char* p, const char* m) { if (!sim_on()) return real_fopen(p, m); return sim_fopen(p, m); }
EXP FILE* fopen64(const char* p, const char* m) { if (!sim_on()) return real_fopen(p, m); return sim_fopen(p, m); }
EXP int fclose(FILE* f) {
  if (!g_active) return real_fclose(f);
  int e = real_fclose(f);
  for (int i = 0; i < nfmap; ++i) if (fmap[i].f == f) { fmap[i] = fmap[--nfmap]; break; }
  return e;
}
EXP int fileno(FILE* f) { if (g_active) for (int i = 0; i < nfmap; ++i) if (fmap[i].f == f) return fmap[i].fd; return real_fileno(f); }
EXP int fileno_unlocked(FILE* f) { return fileno(f); }

// ------------------------------------------------------------------ interposed functions: sockets
EXP int socket(int d, int t, int p) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_socket, d, t, p)));
  sys_enter("socket"); if (refuse_fd()) { errno = EMFILE; return -1; } InSim g; auto f = std::make_shared<OFile>(); f->kind = FK::SOCK; f->sock = std::make_shared<Sock>();
  f->sock->id = next_sock_id++; f->sock->family = d; f->sock->type = t & 0xf; f->sock->nonblock = t & SOCK_NONBLOCK;
  if (d != AF_INET && d != AF_INET6 && d != AF_UNIX) { errno = EAFNOSUPPORT; return -1; }
  return vfd_alloc(f);
}
static SockP sk(int fd) { auto f = vfd_get(fd); return f && f->kind == FK::SOCK ? f->sock : nullptr; }
EXP int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_connect, fd, (long)a, l)));
  sys_enter("connect"); SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; }
  {
    InSim g;
    if (s->st == Sock::CONNECTING) { errno = EALREADY; return -1; }
    if (s->st == Sock::CONNECTED) { errno = EISCONN; return -1; }
    s->peer_port = a->sa_family == AF_INET6 ? ntohs(reinterpret_cast<const sockaddr_in6*>(a)->sin6_port) : ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    s->peer_v6 = a->sa_family == AF_INET6; s->family = a->sa_family;
    if (s->type == SOCK_DGRAM) { s->st = Sock::CONNECTED; s->local_port = next_port++; return 0; }
    s->local_port = next_port++;
    { char b[56] = ""; addr_text(a, b, sizeof b); note_net("connect", b, s->peer_port); }
    ConnectDecision d; if (on_app_connect) d = on_app_connect(s); else d.err = ECONNREFUSED;
    s->st = Sock::CONNECTING;
    trace("connect socket %d port %d v6=%d -> err %d hang %d", s->id, s->peer_port, s->peer_v6, d.err, d.hang);
    if (d.hang) { d.err = ETIMEDOUT; d.delay = 131 * SEC; }      // the kernel gives up after its SYN retransmissions
    at_time(W->now + d.delay, [s, d] {
      if (s->app_closed) return;
      if (d.err) { s->so_error = d.err; s->st = Sock::NEW; }
      else { s->st = Sock::CONNECTED; s->ep = d.ep; s->last_rx_ev = s->last_tx_ev = W->now; if (s->ep) s->ep->on_open(s); }
      kick_sock(s.get()); evhash(0xC0C0, static_cast<uint64_t>(d.err));
    });
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
  }
  block_on([&] { return s->st != Sock::CONNECTING; }, -1, Y_BLOCK);
  if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
  return 0;
}
EXP int bind(int fd, const struct sockaddr* a, socklen_t l) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_bind, fd, (long)a, l)));
  sys_enter("bind"); InSim g; SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; }
  s->local_port = a->sa_family == AF_INET6 ? ntohs(reinterpret_cast<const sockaddr_in6*>(a)->sin6_port) : ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port); addr_text(a, s->local, sizeof s->local); return 0;
}
EXP int listen(int fd, int) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_listen, fd, 5))); sys_enter("listen"); InSim g; SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; } s->st = Sock::LISTENING; s->listen_port = s->local_port; listeners->push_back(s); note_net("listen", s->local, s->listen_port); trace("listening on %s:%d", s->local, s->listen_port); return 0; }
EXP int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_accept4, fd, (long)a, (long)l, fl)));
  sys_enter("accept"); SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; }
  if (s->backlog.empty()) { if (s->nonblock) { errno = EAGAIN; return -1; } block_on([&] { return !s->backlog.empty(); }, -1, Y_BLOCK); }
  if (g_disk.on && g_disk.p_accept > 0 && hard(S_DISK, g_disk.p_accept, 0, n_a)) { InSim g; io_fault(C_D_ACCEPT, "no descriptors (accept)", "socket", false); errno = choose(S_DISK, 2) ? EMFILE : ENFILE; return -1; }
  InSim g; SockP c = s->backlog.front(); s->backlog.erase(s->backlog.begin());
  c->nonblock = fl & SOCK_NONBLOCK; auto f = std::make_shared<OFile>(); f->kind = FK::SOCK; f->sock = c; int r = vfd_alloc(f);
  if (a && l) fill_addr(*c, c->peer_port, a, l);
  evhash(0xACC, static_cast<uint64_t>(c->id)); trace("accept socket %d -> fd %d", c->id, r);
  return r;
}
EXP int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
EXP ssize_t send(int fd, const void* b, size_t n, int fl) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_sendto, fd, (long)b, (long)n, fl, 0, 0)); auto f = vfd_get(fd); if (!f || f->kind != FK::SOCK) { errno = ENOTSOCK; return -1; } struct iovec v{const_cast<void*>(b), n}; return sock_send(f, &v, 1, fl); }
EXP ssize_t recv(int fd, void* b, size_t n, int fl) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_recvfrom, fd, (long)b, (long)n, fl, 0, 0)); auto f = vfd_get(fd); if (!f || f->kind != FK::SOCK) { errno = ENOTSOCK; return -1; } struct iovec v{b, n}; return sock_recv(f, &v, 1, fl); }
EXP ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
EXP ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_sendto, fd, (long)b, (long)n, fl, (long)a, l)); return send(fd, b, n, fl); }
EXP ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_recvfrom, fd, (long)b, (long)n, fl, (long)a, (long)l)); return recv(fd, b, n, fl); }
EXP ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_sendmsg, fd, (long)m, fl)); auto f = vfd_get(fd); if (!f || f->kind != FK::SOCK) { errno = ENOTSOCK; return -1; } return sock_send(f, m->msg_iov, static_cast<int>(m->msg_iovlen), fl); }
EXP ssize_t recvmsg(int fd, struct msghdr* m, int fl) { if (!sim_on() || !vfd_is(fd)) return rawret(raw6(SYS_recvmsg, fd, (long)m, fl)); auto f = vfd_get(fd); if (!f || f->kind != FK::SOCK) { errno = ENOTSOCK; return -1; } m->msg_flags = 0; m->msg_controllen = 0; return sock_recv(f, m->msg_iov, static_cast<int>(m->msg_iovlen), fl); }
EXP int shutdown(int fd, int how) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_shutdown, fd, how)));
  sys_enter("shutdown"); InSim g; SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; } if (s->st != Sock::CONNECTED) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !s->tx_shut) { s->tx_shut = true; kick_sock(s.get()); if (s->ep) { auto e = s->ep; int64_t t = std::max(s->last_tx_ev, W->now + 100 * US); s->last_tx_ev = t; at_time(t, [s, e] { e->on_fin(s); }); } }
  if (how != SHUT_WR) { s->rx_fin = true; kick_sock(s.get()); }
  return 0;
}
EXP int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_getsockopt, fd, lv, o, (long)v, (long)l)));
  InSim g; SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; }
  int x = 0; if (lv == SOL_SOCKET && o == SO_ERROR) { x = s->so_error; s->so_error = 0; } else if (lv == SOL_SOCKET && o == SO_TYPE) x = s->type; else if (lv == SOL_SOCKET && (o == SO_SNDBUF || o == SO_RCVBUF)) x = 65536;
  if (v && l && *l >= sizeof x) { memcpy(v, &x, sizeof x); *l = sizeof x; } return 0;
}
EXP int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_setsockopt, fd, lv, o, (long)v, l))); return 0; }
EXP int getsockname(int fd, struct sockaddr* a, socklen_t* l) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_getsockname, fd, (long)a, (long)l))); InSim g; SockP s = sk(fd); if (!s) { errno = ENOTSOCK; return -1; } fill_addr(*s, s->local_port, a, l); return 0; }
EXP int getpeername(int fd, struct sockaddr* a, socklen_t* l) { if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_getpeername, fd, (long)a, (long)l))); InSim g; SockP s = sk(fd); if (!s || s->st != Sock::CONNECTED) { errno = ENOTCONN; return -1; } fill_addr(*s, s->peer_port, a, l); return 0; }
static int mkpair(int fds[2], int flags, int fam) {
  InSim g;
  auto a = std::make_shared<OFile>(), b = std::make_shared<OFile>(); a->kind = b->kind = FK::SOCK; a->sock = std::make_shared<Sock>(); b->sock = std::make_shared<Sock>();
  for (auto& f : {a, b}) { f->sock->id = next_sock_id++; f->sock->family = fam; f->sock->st = Sock::CONNECTED; f->sock->type = SOCK_STREAM; f->sock->nonblock = flags & (SOCK_NONBLOCK | O_NONBLOCK); }
  a->sock->pair = b->sock; b->sock->pair = a->sock;
  fds[0] = vfd_alloc(a); fds[1] = vfd_alloc(b); return 0;
}
EXP int socketpair(int d, int t, int p, int fds[2]) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_socketpair, d, t, p, (long)fds))); sys_enter("socketpair"); if (refuse_fd()) { errno = EMFILE; return -1; } return mkpair(fds, t, AF_UNIX); }
EXP int pipe2(int fds[2], int fl) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_pipe2, (long)fds, fl))); sys_enter("pipe"); if (refuse_fd()) { errno = EMFILE; return -1; } return mkpair(fds, fl, AF_UNIX); }
EXP int pipe(int fds[2]) { return pipe2(fds, 0); }
EXP int eventfd(unsigned int c, int fl) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_eventfd2, c, fl))); sys_enter("eventfd"); if (refuse_fd()) { errno = EMFILE; return -1; } InSim g; auto f = std::make_shared<OFile>(); f->kind = FK::EVENTFD; f->counter = c; f->sema = fl & EFD_SEMAPHORE; f->nonblock = fl & EFD_NONBLOCK; return vfd_alloc(f); }
EXP int eventfd_write(int fd, eventfd_t v) { return write(fd, &v, 8) == 8 ? 0 : -1; }
EXP int eventfd_read(int fd, eventfd_t* v) { return read(fd, v, 8) == 8 ? 0 : -1; }
static int64_t mono_off() { return 1'700'000'000ll * SEC - 5000 * SEC; }
EXP int timerfd_create(clockid_t c, int fl) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_timerfd_create, c, fl))); sys_enter("timerfd"); if (refuse_fd()) { errno = EMFILE; return -1; } InSim g; auto f = std::make_shared<OFile>(); f->kind = FK::TIMERFD; f->nonblock = fl & TFD_NONBLOCK; f->flags = c; return vfd_alloc(f); }
EXP int timerfd_settime(int fd, int fl, const struct itimerspec* n, struct itimerspec* o) {
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_timerfd_settime, fd, fl, (long)n, (long)o)));
  sys_enter("timerfd_settime"); InSim g; auto f = vfd_get(fd); if (!f || f->kind != FK::TIMERFD) { errno = EINVAL; return -1; } if (o) memset(o, 0, sizeof *o);
  int64_t v = n->it_value.tv_sec * SEC + n->it_value.tv_nsec; f->interval = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
  if (v == 0) f->expiry = -1; else if (fl & TFD_TIMER_ABSTIME) f->expiry = f->flags == CLOCK_REALTIME ? v : v + mono_off(); else f->expiry = W->now + v;
  ++f->kick; if (f->expiry >= 0) { int64_t e = f->expiry; at_time(e, [] {}); }
  return 0;
}
EXP int epoll_create1(int fl) { if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_epoll_create1, fl))); sys_enter("epoll_create"); if (refuse_fd()) { errno = EMFILE; return -1; } InSim g; auto f = std::make_shared<OFile>(); f->kind = FK::EPOLL; return vfd_alloc(f); }
EXP int epoll_create(int) { return epoll_create1(0); }
EXP int epoll_ctl(int e, int op, int fd, struct epoll_event* ev) {
  if (!sim_on() || !vfd_is(e)) return static_cast<int>(rawret(raw6(SYS_epoll_ctl, e, op, fd, (long)ev)));
  sys_enter("epoll_ctl"); InSim g; auto ep = vfd_get(e); auto f = vfd_get(fd); if (!ep || !f || ep->kind != FK::EPOLL) { errno = EBADF; return -1; }
  if (f->kind == FK::FILE) { errno = EPERM; return -1; }
  auto it = std::find_if(ep->items.begin(), ep->items.end(), [&](EpItem& i) { return i.fd == fd && i.f.lock() == f; });
  vc_release(f.get());
  trace("epoll_ctl %s fd %d events %x", op == EPOLL_CTL_ADD ? "add" : op == EPOLL_CTL_DEL ? "del" : "mod", fd, ev ? ev->events : 0);
  if (op == EPOLL_CTL_ADD) { if (it != ep->items.end()) { errno = EEXIST; return -1; } ep->items.push_back({fd, f, ev->events, ev->data.u64, 0, false}); ++ep->kick; return 0; }
  if (it == ep->items.end()) { errno = ENOENT; return -1; }
  if (op == EPOLL_CTL_DEL) { ep->items.erase(it); return 0; }
  it->events = ev->events; it->data = ev->data.u64; it->seen = 0; it->disabled = false; return 0;
}
EXP int epoll_wait(int e, struct epoll_event* ev, int n, int t) { if (!sim_on() || !vfd_is(e)) return static_cast<int>(rawret(raw6(SYS_epoll_wait, e, (long)ev, n, t))); return do_epoll_wait(e, ev, n, t); }
EXP int epoll_pwait(int e, struct epoll_event* ev, int n, int t, const sigset_t* s) { if (!sim_on() || !vfd_is(e)) return static_cast<int>(rawret(raw6(SYS_epoll_pwait, e, (long)ev, n, t, (long)s, 8))); return do_epoll_wait(e, ev, n, t); }
EXP int epoll_pwait2(int e, struct epoll_event* ev, int n, const struct timespec* ts, const sigset_t*) {
  int t = -1; if (ts) { int64_t ns = ts->tv_sec * SEC + ts->tv_nsec; t = static_cast<int>((ns + MS - 1) / MS); } return epoll_wait(e, ev, n, t);
}
EXP int poll(struct pollfd* p, nfds_t n, int t) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_poll, (long)p, (long)n, t)));
  return do_poll(p, n, t);
}
EXP int __poll_chk(struct pollfd* p, nfds_t n, int t, size_t) { return poll(p, n, t); }
// libevent falls back to this when it is refused the descriptor or the memory for better
EXP int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  if (!sim_on()) return static_cast<int>(rawret(raw6(SYS_select, n, (long)r, (long)w, (long)e, (long)t)));
  auto bit = [](fd_set* s, int i) { return s && reinterpret_cast<unsigned long*>(s)[i / 64] >> (i % 64) & 1; };
  auto set = [](fd_set* s, int i) { reinterpret_cast<unsigned long*>(s)[i / 64] |= 1ul << (i % 64); };
  std::vector<struct pollfd> p;
  { InSim g; for (int i = 0; i < n; ++i) if (bit(r, i) || bit(w, i) || bit(e, i)) p.push_back({i, static_cast<short>((bit(r, i) ? POLLIN : 0) | (bit(w, i) ? POLLOUT : 0)), 0}); }
  do_poll(p.data(), p.size(), t ? static_cast<int>((t->tv_sec * SEC + t->tv_usec * US + MS - 1) / MS) : -1);
  InSim g; int c = 0;
  for (auto s : {r, w, e}) if (s) memset(s, 0, static_cast<size_t>((n + 63) / 64) * 8);
  for (auto& x : p) {
    if (x.revents & POLLNVAL) { errno = EBADF; c = -1; break; }
    if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { set(r, x.fd); ++c; }
    if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { set(w, x.fd); ++c; }
  }
  std::vector<struct pollfd>().swap(p);
  return c;
}
EXP int pselect(int n, fd_set* r, fd_set* w, fd_set* e, const struct timespec* ts, const sigset_t*) { struct timeval t; if (ts) { t.tv_sec = ts->tv_sec; t.tv_usec = (ts->tv_nsec + 999) / 1000; } return select(n, r, w, e, ts ? &t : nullptr); }
EXP int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return poll(p, n, ts ? static_cast<int>((ts->tv_sec * SEC + ts->tv_nsec + MS - 1) / MS) : -1); }
EXP int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_fcntl, fd, cmd, arg)));
  InSim g; auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
  switch (cmd) {
  case F_GETFL: return (f->kind == FK::SOCK ? O_RDWR | (f->sock->nonblock ? O_NONBLOCK : 0) : f->flags & ~(O_CREAT | O_TRUNC | O_EXCL)) | (f->nonblock ? O_NONBLOCK : 0);
  case F_SETFL: if (f->kind == FK::SOCK) f->sock->nonblock = arg & O_NONBLOCK; else f->nonblock = arg & O_NONBLOCK; return 0;
  case F_DUPFD: case F_DUPFD_CLOEXEC: return vfd_alloc(f);
  default: return 0;
  }
}
EXP int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
EXP int ioctl(int fd, unsigned long rq, ...) {
  va_list a; va_start(a, rq); long arg = va_arg(a, long); va_end(a);
  if (!sim_on() || !vfd_is(fd)) return static_cast<int>(rawret(raw6(SYS_ioctl, fd, (long)rq, arg)));
  InSim g; auto f = vfd_get(fd); if (!f) { errno = EBADF; return -1; }
  if (rq == FIONBIO) { bool on = *reinterpret_cast<int*>(arg); if (f->kind == FK::SOCK) f->sock->nonblock = on; else f->nonblock = on; return 0; }
  if (rq == FIONREAD) { int n = 0; if (f->kind == FK::SOCK) n = static_cast<int>(f->sock->rx.size() - f->sock->rxoff); else if (f->kind == FK::FILE) n = f->off < f->ino->size ? static_cast<int>(std::min<uint64_t>(f->ino->size - f->off, INT_MAX)) : 0; *reinterpret_cast<int*>(arg) = n; return 0; }
  errno = ENOTTY; return -1;
}
// name resolution: the loopback names, and what the scenario knows
static bool sim_on_res() { return g_active && t_insim == 1 && cur_tid() > 0; }
EXP int getaddrinfo(const char* node, const char* svc, const struct addrinfo* h, struct addrinfo** res) {
  InSim g;
  int port = svc ? atoi(svc) : 0; int fam = h ? h->ai_family : AF_UNSPEC; int flags = h ? h->ai_flags : 0;
  bool passive = !node && (flags & AI_PASSIVE);
  struct in_addr v4{}; struct in6_addr v6{}; bool h4 = false, h6 = false;
  if (!node) { h4 = h6 = true; v4.s_addr = htonl(passive ? INADDR_ANY : INADDR_LOOPBACK); v6 = passive ? in6addr_any : in6addr_loopback; }
  else if (inet_pton(AF_INET, node, &v4) == 1) h4 = true;
  else if (inet_pton(AF_INET6, node, &v6) == 1) h6 = true;
  else if (!(flags & AI_NUMERICHOST) && (!strcmp(node, "localhost") || !strcmp(node, "ip6-localhost"))) { h4 = h6 = true; v4.s_addr = htonl(INADDR_LOOPBACK); v6 = in6addr_loopback; }
  else if (on_app_resolve && !(flags & AI_NUMERICHOST) && sim_on_res()) {
    ResolveDecision d; { InSim g2; note_net("resolve", node, port); d = on_app_resolve(node); }
    --t_insim; sys_enter("getaddrinfo"); if (d.delay) { const int64_t t = W->now + d.delay; block_on([t] { return W->now >= t; }, t, Y_SLEEP); } ++t_insim;
    evhash(0x6A1, static_cast<uint64_t>(-d.err));
    if (d.err) return d.err;
    h4 = true; v4.s_addr = htonl(INADDR_LOOPBACK); h6 = d.v6; v6 = in6addr_loopback;
  }
  if (fam == AF_INET) h6 = false;
  if (fam == AF_INET6) h4 = false;
  if (!h4 && !h6) return EAI_NONAME;
  struct addrinfo *head = nullptr, **tail = &head;
  auto add = [&](int f) {
    size_t sl = f == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
    auto* ai = static_cast<struct addrinfo*>(calloc(1, sizeof(struct addrinfo) + sl)); ai->ai_family = f; ai->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM; ai->ai_protocol = h ? h->ai_protocol : 0; ai->ai_addrlen = static_cast<socklen_t>(sl); ai->ai_addr = reinterpret_cast<struct sockaddr*>(ai + 1);
    if (f == AF_INET) { auto* s = reinterpret_cast<sockaddr_in*>(ai->ai_addr); s->sin_family = AF_INET; s->sin_port = htons(static_cast<uint16_t>(port)); s->sin_addr = v4; }
    else { auto* s = reinterpret_cast<sockaddr_in6*>(ai->ai_addr); s->sin6_family = AF_INET6; s->sin6_port = htons(static_cast<uint16_t>(port)); s->sin6_addr = v6; }
    *tail = ai; tail = &ai->ai_next;
  };
  if (h6) add(AF_INET6);
  if (h4) add(AF_INET);
  *res = head; return 0;
}
EXP void freeaddrinfo(struct addrinfo* a) { while (a) { auto* n = a->ai_next; free(a); a = n; } }

// ------------------------------------------------------------------ per incarnation
void io_child_setup(const Incarnation& inc) {
  g_disk = inc.disk; n_hard = n_w = n_r = n_o = n_c = n_s = n_m = n_a = 0; sticky_w = sticky_r = false;
  vfds = new OFileP[NVFD]; fmap = new FileMap[512]; nfmap = 0; listeners = new std::vector<SockP>;
  next_sock_id = 1; next_port = 40000;
  auto std_of = [](Inode* i, int fl, const char* n) { auto f = std::make_shared<OFile>(); f->ino = i; f->flags = fl; f->std_stream = true; i->stream = true; snprintf(f->path, sizeof f->path, "%s", n); return f; };
  vfds[0] = std_of(&W->std_in, O_RDONLY, "<stdin>"); vfds[1] = std_of(&W->std_out, O_WRONLY | O_APPEND, "<stdout>"); vfds[2] = std_of(&W->std_err, O_WRONLY | O_APPEND, "<stderr>");
  FILE* in = cookie(0, "r"); FILE* out = cookie(1, "w"); FILE* err = cookie(2, "w");
  setvbuf(in, nullptr, _IOFBF, 4096); setvbuf(out, nullptr, _IOFBF, 4096); setvbuf(err, nullptr, _IONBF, 0);
  stdin = in; stdout = out; stderr = err;
  std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(in));
  std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(out));
  std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(err));
  std::clog.rdbuf(std::cerr.rdbuf());
}
