// C01 - C08: hibp-download against the simulated range server, disk, clock and scheduler.
#include "origin.h"
#include "tools.h"
#include <cstdio>

namespace {
const char* const REAL = "hibp_download with all of its repository sources, libcurl, libevent, fmt, libstdc++";
const char* const STUB = "range server, TCP/loopback sockets, DNS, epoll/timers, clock, file system, thread scheduling (real threads, released one at a time), process kill";
const char* const OUT = "/w/out.bin";

struct Dl {
  Kind kind = K_SHA1; bool txt = false; uint32_t base = 0, n = 0, par = 1; int diag = 0;
  std::vector<RangeData> data; std::vector<size_t> ends;      // ends[i]: records up to and including range i
  Recs all; std::string expect; OriginCfg oc; Opt opt; size_t nrec() const { return all.size(); }
  int rec() const { return txt ? 0 : rlen(kind); }
  uint32_t limit() const { return base + n; }
};
enum Size { SZ_SMALL, SZ_ANY, SZ_MULTIFLUSH };

void gen_data(Dl& d, Size sz, uint32_t nmin = 1) {
  Rng g(choose(S_WORK, 1u << 20));
  const uint32_t density = sz == SZ_MULTIFLUSH ? 3 : sz == SZ_ANY ? pickw(S_WORK, {{8, 0}, {1.5, 1}, {0.4, 2}, {0.5, 3}}) : 0;
  if (d.n == 0) {
    if (density == 3) d.n = 8 + choose(S_WORK, 30);
    else d.n = pickw(S_WORK, {{1, 3}, {0.5, 1}, {0.7, 2}, {2, 5}, {2, 9}, {2, 17}, {1, 40}, {0.3, 130}, {0.04, 300}, {0.015, 1100}});
  }
  if (d.n < nmin) d.n = nmin;
  const Kind sk = d.kind == K_NTLM ? K_NTLM : K_SHA1;
  const double p_empty = choose(S_WORK, 4) == 3 ? 0.2 : 0;
  const uint32_t style = choose(S_WORK, 4);
  for (uint32_t i = 0; i < d.n; ++i) {
    RangeData r; r.prefix = d.base + i;
    uint32_t m = 1 + g.below(12);
    if (density == 1) m = 100 + g.below(300); else if (density == 3) m = 500 + g.below(700);
    else if (density == 2 && i == d.n / 2) m = 1900 + g.below(600);      // one body of more than 64 kB
    if (g.p(p_empty)) m = 0;
    Recs v;
    for (uint32_t k = 0; k < m; ++k) {
      Rec x{}; for (int j = 0; j < 20; j += 4) { uint32_t w = static_cast<uint32_t>(g.next() >> 20); memcpy(x.h + j, &w, 4); }
      if (k == 0 && g.p(0.1)) memset(x.h, 0, 20);
      if (k == 1 && g.p(0.1)) memset(x.h, 0xFF, 20);
      if (k > 1 && g.p(0.05)) relative(g, x, v[g.below(k)], d.kind);
      x.h[0] = static_cast<uint8_t>(r.prefix >> 12); x.h[1] = static_cast<uint8_t>(r.prefix >> 4); x.h[2] = static_cast<uint8_t>((r.prefix & 15) << 4 | (x.h[2] & 15));
      x.c = draw_count(g); v.push_back(x);
    }
    distinct(v, sk);               // truncated hashes may be equal
    r.recs = v; r.body = make_body(v, sk, style);
    d.all.insert(d.all.end(), v.begin(), v.end()); d.ends.push_back(d.all.size());
    d.data.push_back(std::move(r));
  }
  if (d.all.size() > 10000) count(C_P_MULTIFLUSH);
  d.expect = d.txt ? text(d.all, sk) : bin(d.all, d.kind);
  d.oc.kind = sk; d.oc.data = &d.data; d.oc.quota.assign(d.n, 0);
}
void draw_format(Dl& d, bool allow_txt) {
  d.kind = static_cast<Kind>(pickw(S_WORK, {{2, 0}, {1, 1}, {1, 2}}));
  d.txt = allow_txt && choose(S_WORK, 4) == 3;
}
void draw_par(Dl& d) {
  static const uint32_t t[] = {1, 2, 3, 5, 9, 20, 300};
  d.par = t[pickw(S_WORK, {{1, 0}, {2, 1}, {2, 2}, {2, 3}, {1, 4}, {1, 5}, {1.5, 6}})];
}
void draw_run(Dl& d, bool races = false) {
  d.opt.sched = draw_sched(races);
  if (d.nrec() > 3000 && d.opt.sched.preempt_mean > 0) d.opt.sched.preempt_mean = std::max(d.opt.sched.preempt_mean, 20000.0);
  if (races && d.nrec() > 1500 && d.opt.sched.preempt_mean > 0) d.opt.sched.preempt_mean = std::max(d.opt.sched.preempt_mean, 3000.0);
  d.diag = static_cast<int>(choose(S_WORK, 3));         // 0 progress meter, 1 none, 2 debug
  if (d.diag == 2 && d.n > 60) d.diag = 0;
  d.oc.v6 = choose(S_WORK, 4) == 3;
  d.oc.prod = choose(S_WORK, 4) == 3;
}
void draw_kinds(Dl& d, bool stalls = true) {
  // swarm: a random subset of the fault kinds
  std::vector<uint8_t> all; for (int i = F_STATUS; i < F_MAX; ++i) if (stalls || i < F_STALL_BEFORE) all.push_back(static_cast<uint8_t>(i));
  uint32_t m = 1 + choose(S_WORK, 4);
  if (choose(S_WORK, 3) == 0) { d.oc.kinds = all; return; }
  for (uint32_t i = 0; i < m; ++i) d.oc.kinds.push_back(all[choose(S_WORK, static_cast<uint32_t>(all.size()))]);
}
// failures that five retries of each range absorb
void draw_tolerable(Dl& d, int intensity) {
  draw_kinds(d);
  if (choose(S_WORK, 3) == 2) { d.oc.conn_budget = 1 + static_cast<int>(choose(S_WORK, 3)); d.oc.p_conn = 0.3; }
  static const double ps[] = {0.08, 0.3, 0.7};
  const double p = ps[intensity ? choose(S_WORK, 3) : 0];
  for (uint32_t i = 0; i < d.n; ++i) if (flip(S_WORK, p)) d.oc.quota[i] = static_cast<uint8_t>(1 + choose(S_WORK, static_cast<uint32_t>(5 - d.oc.conn_budget)));
}
std::vector<std::string> args(const Dl& d, bool resume = false, bool force = false) {
  std::vector<std::string> a{"out.bin"}; if (!d.oc.prod) a.push_back("--testing");
  if (d.limit() != 0x100000 || d.n % 2) { a.push_back("--limit"); a.push_back(std::to_string(d.limit())); }      // all of them is the default
  if (d.par != 300 || d.n % 2) { a.push_back("--parallel-max"); a.push_back(std::to_string(d.par)); }   // 300 is the default
  if (d.kind == K_NTLM) a.push_back("--ntlm"); else if (d.kind == K_T64) a.push_back("--sha1t64");
  if (d.txt) a.push_back("--txt-out");
  if (d.diag == 1) a.push_back("--no-progress"); else if (d.diag == 2) a.push_back("--debug");
  if (resume) a.push_back("--resume");
  if (force) a.push_back("--force");
  return a;
}
struct Span { int64_t sim; };
Span go(Dl& d, const std::vector<std::string>& a) {
  origin_log_new(d.data);
  d.opt.setup = [&d] { origin_install(d.oc); };
  int64_t t0 = W->now;
  run_app("download", a, d.opt);
  if (OL->bad && OL->n) {}
  return {W->now - t0};
}
std::string describe(const Dl& d) {
  uint32_t hot = 0, dead = 0, tot = 0; for (auto q : d.oc.quota) { if (q == 255) ++dead; else if (q) { ++hot; tot += q; } }
  std::string k; for (auto f : d.oc.kinds) { if (k.size() > 60) { k += ".."; break; } k += std::string(k.empty() ? "" : ",") + fault_names[f]; }
  char b[380]; snprintf(b, sizeof b, "%s%s%s, ranges %05X+%u, %zu records, parallel %u, %s; failures %u on %u ranges, %u dead ranges, connection budget %d%s [%s]; policy %d switch %.2f preempt %.0f%s%s", kind_name(d.kind), d.txt ? " text" : "", d.oc.prod ? " public endpoint" : "", d.base, d.n, d.nrec(), d.par,
    d.diag == 2 ? "debug" : d.diag ? "quiet" : "progress", tot, hot, dead, d.oc.conn_budget, d.oc.conn_dead ? " then refused" : "", k.c_str(), d.opt.sched.policy, d.opt.sched.p_switch, d.opt.sched.preempt_mean, d.opt.sched.p_stall > 0 ? " stalls" : "", d.opt.disk.on ? " disk faults" : "");
  return b;
}
// generous but finite: every failed attempt may take the low-speed limit, every unanswered connect libcurl's connect timeout
int64_t time_bound() {
  uint64_t f = 0; for (uint32_t i = 0; i < OL->n; ++i) f += OL->r[i].faults;
  return (120 + 30 * static_cast<int64_t>(f + OL->conn_faults) + 330 * static_cast<int64_t>(OL->conn_hangs)) * SEC + static_cast<int64_t>(OL->requests) * 5 * SEC;
}
uint32_t first_missing(const Dl& d) { for (uint32_t i = 0; i < d.n; ++i) if (!OL->r[i].ok_done) return i; return d.n; }
// the output is a record-aligned prefix holding nothing from or after the first range that was never received
void check_prefix(const Dl& d, const char* cls, bool aligned, bool use_missing, size_t initial = 0) {
  std::string f = vfs_get(OUT);
  size_t maxrec = d.nrec();
  if (use_missing) { uint32_t m = first_missing(d); maxrec = m == 0 ? 0 : d.ends[m - 1]; if (maxrec < initial) maxrec = initial; }
  if (f.size() > d.expect.size() || d.expect.compare(0, f.size(), f) != 0) violation(cls, "the output is not a prefix of the correct one: %s (%s)", db_diff(f, d.expect, d.rec()).c_str(), end_desc().c_str());
  if (d.txt) {
    if (aligned && !f.empty() && f.back() != '\n') violation(cls, "the text output ends inside a line after %zu bytes (%s)", f.size(), end_desc().c_str());
    size_t lines = static_cast<size_t>(std::count(f.begin(), f.end(), '\n'));
    if (lines > maxrec || (lines == maxrec && !f.empty() && f.back() != '\n' && use_missing)) violation(cls, "the output holds %zu records, but only %zu were received before the failed range (%s)", lines, maxrec, end_desc().c_str());
  } else {
    size_t r = static_cast<size_t>(rlen(d.kind));
    if (aligned && f.size() % r) violation(cls, "the output ends inside a record (%zu bytes) (%s)", f.size(), end_desc().c_str());
    if (f.size() > maxrec * r) violation(cls, "the output holds %zu bytes, but only %zu records were received before the failed range (%s)", f.size(), maxrec, end_desc().c_str());
  }
}
void check_exact(const Dl& d, const char* cls) {
  std::string f = vfs_get(OUT);
  if (!vfs_exists(OUT)) violation(cls, "exit 0, but there is no output file");
  if (f != d.expect) violation(cls, "exit 0, but the output is wrong: %s", db_diff(f, d.expect, d.rec()).c_str());
}
void check_attempts(const Dl& d) {
  for (uint32_t i = 0; i < OL->n; ++i) if (OL->r[i].counted > 6) violation("too-many-attempts", "range %05X was attempted %u times", d.base + i, OL->r[i].counted);
}
void probe_counts(const Dl& d) {
  bool retry = false; for (uint32_t i = 0; i < OL->n; ++i) if (OL->r[i].attempts > 1) retry = true;
  if (retry) count(C_P_RETRY);
  if (OL->max_active >= d.par || OL->max_active >= d.n) count(C_P_BOUND_REACHED);
}

// more ranges than 16 bits can count
bool draw_long(Dl& d) { if (choose(S_WORK, 2000) != 1999) return false; d.n = 65536 + choose(S_WORK, 3000); return true; }
void calm_long(Dl& d) { d.opt.sched = SchedCfg{}; d.par = std::max(d.par, 20u); d.diag = 1; d.oc.p_idleclose = 0; d.opt.sched.max_steps = 800'000'000ull; count(C_P_LONG); }
// ------------------------------------------------------------------ C01
void c01() {
  Dl d; draw_format(d, true);
  const int mode = static_cast<int>(pickw(S_WORK, {{6, 0}, {1, 1}, {d.txt ? 0.0 : 2.0, 2}}));        // fresh, --force over an old file, --resume of a part
  if (mode == 2) { static const uint32_t bases[] = {0, 0xE, 0xFA, 0xFF8, 0xFFF0, 0x56789, 0xFFFFF}; d.base = bases[choose(S_WORK, 7)]; if (d.base == 0xFFFFF) { d.n = 2 + choose(S_WORK, 20); d.base = 0x100000 - d.n; } }
  const bool longrun = mode == 0 && draw_long(d);
  gen_data(d, longrun ? SZ_SMALL : SZ_ANY, mode == 2 ? 2 : 1); draw_par(d); draw_run(d);
  if (longrun) calm_long(d); else if (choose(S_WORK, 2)) draw_tolerable(d, 0);
  if (choose(S_WORK, 4) == 3) d.opt.disk = draw_soft_disk();
  if (mode == 1) { std::string old(1 + choose(S_WORK, static_cast<uint32_t>(2 * d.expect.size() + 2)), 'x'); vfs_put(OUT, old.data(), old.size(), 0); }
  if (mode == 2) { if (d.nrec() == 0) { run_trivial(); return; } const size_t initial = 1 + choose(S_WORK, static_cast<uint32_t>(d.nrec())); vfs_put(OUT, d.expect.data(), initial * static_cast<size_t>(rlen(d.kind)), 0); }
  describe_run("%s%s", describe(d).c_str(), mode == 1 ? ", --force" : mode == 2 ? ", --resume" : "");
  go(d, args(d, mode == 2, mode == 1)); probe_counts(d);
  if (!exited_ok()) { run_trivial(); return; }            // other properties' business
  check_exact(d, "wrong-output");
}
// ------------------------------------------------------------------ C02
void c02() {
  Dl d; draw_format(d, true); const bool longrun = draw_long(d);
  gen_data(d, longrun ? SZ_SMALL : SZ_ANY); draw_par(d); draw_run(d); if (longrun) calm_long(d);
  const bool exhaust = !longrun && choose(S_WORK, 4) == 3;
  if (longrun) { for (int i = 0; i < 20; ++i) d.oc.quota[i < 12 ? 65528 + i : choose(S_WORK, d.n)] = static_cast<uint8_t>(choose(S_WORK, 3)); draw_kinds(d, false); } else draw_tolerable(d, 1);
  if (exhaust) { uint32_t k = 1 + choose(S_WORK, 2); for (uint32_t i = 0; i < k; ++i) d.oc.quota[choose(S_WORK, d.n)] = choose(S_WORK, 2) ? 6 : 255; }
  bool any = d.oc.conn_budget > 0; for (auto q : d.oc.quota) any |= q > 0;
  if (!any) d.oc.quota[choose(S_WORK, d.n)] = static_cast<uint8_t>(1 + choose(S_WORK, 5));
  describe_run("%s", describe(d).c_str());
  go(d, args(d)); probe_counts(d);
  check_attempts(d);
  if (exhaust) {
    if (exited_ok()) { check_exact(d, "failed-bytes-in-output"); return; }
    if (W->end_kind == E_EXIT) check_prefix(d, "failed-bytes-in-output", false, false);
    return;
  }
  require_clean_end("with at most five failures per range");
  if (!exited_ok()) violation("gave-up", "no range failed more than five times, but the download failed: %s", end_desc().c_str());
  check_exact(d, "failed-bytes-in-output");
}
// ------------------------------------------------------------------ C03
void c03() {
  Dl d; draw_format(d, true); gen_data(d, SZ_ANY); draw_par(d); draw_run(d);
  draw_tolerable(d, 0);
  switch (choose(S_WORK, 4)) {
  case 0: d.oc.quota[choose(S_WORK, d.n)] = 255; break;
  case 1: { uint32_t k = 1 + choose(S_WORK, d.n); for (uint32_t i = 0; i < k; ++i) d.oc.quota[choose(S_WORK, d.n)] = 255; break; }
  case 2: d.oc.conn_dead = true; d.oc.conn_dead_after = choose(S_WORK, 6); d.oc.p_idleclose = 0.5; d.oc.idle_budget = 1000; break;
  case 3: for (auto& q : d.oc.quota) q = 255; break;
  }
  describe_run("%s", describe(d).c_str());
  Span s = go(d, args(d)); probe_counts(d);
  require_clean_end("a range cannot be fetched");
  uint32_t m = first_missing(d);
  if (exited_ok()) {
    if (m < d.n) violation("success-after-failure", "range %05X was never received, but the download reports success", d.base + m);
    run_trivial(); return;                               // the connections that were left sufficed
  }
  count(C_P_ABORTPATH);
  if (s.sim > time_bound()) violation("unbounded", "the download took %.0f simulated seconds to give up (bound %.0f)", static_cast<double>(s.sim) / 1e9, static_cast<double>(time_bound()) / 1e9);
  if (vfs_stderr().empty()) violation("no-message", "exit status %d without an error message", W->end_code);
  if (vfs_exists(OUT)) check_prefix(d, "bad-remains", true, true);
}
// ------------------------------------------------------------------ C04
void c04() {
  Dl d; draw_format(d, true); gen_data(d, choose(S_WORK, 4) == 3 ? SZ_MULTIFLUSH : SZ_ANY); draw_par(d); draw_run(d);
  const int mode = static_cast<int>(pickw(S_WORK, {{6, 0}, {1.5, 1}, {d.txt ? 0.0 : 1.5, 2}}));   // fresh, --force over an old file, --resume
  if (choose(S_WORK, 4) == 3) draw_tolerable(d, 0);
  d.opt.disk = draw_soft_disk();
  std::string old; size_t initial = 0;
  if (mode == 1) { old.assign(1 + choose(S_WORK, 5000), 'x'); vfs_put(OUT, old.data(), old.size(), 0); }
  if (mode == 2) { initial = choose(S_WORK, static_cast<uint32_t>(d.nrec() + 1)); std::string f = d.expect.substr(0, initial * static_cast<size_t>(rlen(d.kind)) + choose(S_WORK, static_cast<uint32_t>(rlen(d.kind)))); if (f.size() > d.expect.size()) f = d.expect; vfs_put(OUT, f.data(), f.size(), 0); old = f; }
  bool cap = choose(S_WORK, 3) == 2;
  if (cap) W->disk_capacity = choose(S_WORK, static_cast<uint32_t>(d.expect.size() + 1));
  else draw_hard_disk(d.opt.disk, mode == 2, true);
  describe_run("%s; mode %d%s", describe(d).c_str(), mode, cap ? " disk full" : "");
  Span s = go(d, args(d, mode == 2, mode == 1)); (void)s;
  require_clean_end("a disk operation failed");
  if (W->io_faults == 0) run_trivial();
  if (exited_ok()) { check_exact(d, "success-after-write-error"); return; }
  if (vfs_stderr().empty()) violation("no-message", "exit status %d without an error message", W->end_code);
  std::string f = vfs_get(OUT);
  if (mode == 1 && f == old) return;
  check_prefix(d, "bad-remains", false, false);
}
// ------------------------------------------------------------------ C05
void strip_check(const Dl& d, const char* when) {
  if (!vfs_exists(OUT)) return;
  std::string f = vfs_get(OUT); size_t r = static_cast<size_t>(rlen(d.kind)); size_t full = f.size() - f.size() % r;
  if (full > d.expect.size() || d.expect.compare(0, full, f, 0, full) != 0) violation("not-a-prefix", "%s the file is no longer a prefix of the result: %s (%s)", when, db_diff(f.substr(0, full), d.expect, d.rec()).c_str(), end_desc().c_str());
}
void c05() {
  Dl d; draw_format(d, false);
  static const uint32_t bases[] = {0, 0, 0, 1, 0xF, 0x10, 0xFF, 0xFFF, 0x1000, 0x7FFFF, 0xABCDE, 0xFFFFF};
  d.base = bases[choose(S_WORK, 12)];
  if (d.base == 0xFFFFF) { d.n = 14 + choose(S_WORK, 20); d.base = 0x100000 - d.n; }
  gen_data(d, choose(S_WORK, 5) == 4 ? SZ_MULTIFLUSH : SZ_ANY, d.base ? 14 : 2); draw_par(d); draw_run(d);
  const size_t r = static_cast<size_t>(rlen(d.kind));
  uint64_t before = 0;                                    // bytes of it in the file
  size_t mincut = 0;                                      // a window above zero keeps some ranges that no resume trims away
  if (d.base > 0) { uint32_t full = 0; for (uint32_t i = 0; i < d.n && full < 9; ++i) { if (!d.data[i].recs.empty()) ++full; mincut = d.ends[i] * r; } if (full < 9) { run_trivial(); return; } }
  if (d.nrec() == 0) { run_trivial(); return; }
  if (d.base > 0 || choose(S_WORK, 2)) {                  // an earlier, interrupted run left this
    size_t cut = choose(S_WORK, static_cast<uint32_t>(d.expect.size() + 1));
    if (choose(S_WORK, 3) == 2) { uint32_t i = choose(S_WORK, d.n); cut = d.ends[i] * r; if (choose(S_WORK, 3) == 2 && cut > r) cut -= r; else if (choose(S_WORK, 3) == 2) cut += r; }
    if (cut > d.expect.size()) cut = d.expect.size();
    cut = std::max(cut, mincut);                          // the data before this window are not simulated
    vfs_put(OUT, d.expect.data(), cut, 0);
    if (d.base > 0 && choose(S_WORK, 2)) { before = draw_huge(static_cast<uint32_t>(r)); vfs_put_huge(OUT, before, (static_cast<uint64_t>(d.base) << 44) / before, static_cast<uint32_t>(r), d.expect.data(), cut, 0); before *= r; count(C_P_HUGE); }
  }
  const uint32_t steps = 1 + choose(S_WORK, 4);
  std::string hist; SchedCfg base_s = d.opt.sched; OriginCfg base_o = d.oc; uint32_t k = 0; bool done = false;
  describe_run("%s; %u interruptions%s", describe(d).c_str(), steps, before ? ("; after " + std::to_string(before) + " bytes").c_str() : "");
  auto intact = [&](const char* when) { strip_check(d, when); if (before && !vfs_huge_intact(OUT, before)) violation("not-a-prefix", "%s the %llu bytes before the first range of this window were changed", when, (unsigned long long)before); };
  for (; k < steps && !done; ++k) {
    d.opt.sched = base_s; d.oc = base_o; d.opt.disk = DiskCfg{}; d.opt.crash = CrashCfg{}; W->disk_capacity = -1;
    const bool resume = vfs_exists(OUT);
    std::string was = vfs_get(OUT);
    uint32_t f = pickw(S_WORK, {{4, 0}, {2, 1}, {2, 2}, {1.5, 3}});
    switch (f) {
    case 0: if (choose(S_WORK, 2)) { d.opt.crash.at_vfs = 1 + choose(S_WORK, 6); d.opt.crash.partial = choose(S_CRASH, 1u << 24); } else d.opt.crash.at_sys = 1 + (choose(S_WORK, 2) ? choose(S_WORK, 60) : choose(S_WORK, 1200)); break;
    case 1: draw_kinds(d); if (choose(S_WORK, 4) == 3) { d.oc.conn_dead = true; d.oc.conn_dead_after = choose(S_WORK, 4); d.oc.p_idleclose = 0.5; d.oc.idle_budget = 1000; } else d.oc.quota[choose(S_WORK, d.n)] = 255; break;
    case 2: if (choose(S_WORK, 3) == 2) W->disk_capacity = choose(S_WORK, static_cast<uint32_t>(d.expect.size() + 1)); else draw_hard_disk(d.opt.disk, true, true); if (choose(S_WORK, 2)) { d.opt.disk.p_shortw = 0.3; } break;
    case 3: draw_kinds(d); for (auto& q : d.oc.quota) if (flip(S_WORK, 0.2)) q = static_cast<uint8_t>(1 + choose(S_WORK, 7)); break;
    }
    go(d, args(d, resume));
    count(C_P_HISTLEN);
    if (W->end_kind != E_EXIT && W->end_kind != E_CRASH) require_clean_end("an interrupted run", true);
    intact("after an interruption");
    if (resume && W->end_kind == E_EXIT && W->end_code != 0) {
      std::string e = vfs_stderr();
      if (e.find("trimming file") != std::string::npos) count(C_P_RESUME_SEARCH);
      if (e.find("trimmed off") != std::string::npos) count(C_P_RESUME_TRIM);
    }
    if (exited_ok()) { done = true; }
  }
  for (int tries = 0; !done && tries < 3; ++tries) {
    d.opt.sched = base_s; d.oc = base_o; d.opt.disk = DiskCfg{}; d.opt.crash = CrashCfg{}; W->disk_capacity = -1;
    const bool resume = vfs_exists(OUT);
    go(d, args(d, resume));
    require_clean_end("resuming without further faults", false);
    intact("after a resume");
    std::string e = vfs_stderr();
    if (e.find("trimming file") != std::string::npos) count(C_P_RESUME_SEARCH);
    if (e.find("trimmed off") != std::string::npos) count(C_P_RESUME_TRIM);
    if (exited_ok()) done = true;
    else if (vfs_get(OUT) == d.expect) { count(C_P_RESUME_CLEAN); return; }        // "nothing to do"
    else if (tries == 2) violation("cannot-resume", "after %u interruptions the download cannot be resumed: %s", k, end_desc().c_str());
  }
  std::string f = vfs_get(OUT);
  if (f != d.expect) violation("different-result", "after %u interruptions the finished file differs from an uninterrupted download: %s", k, db_diff(f, d.expect, d.rec()).c_str());
}
// ------------------------------------------------------------------ C06
void c06() {
  Dl d; draw_format(d, true); gen_data(d, SZ_SMALL); draw_par(d); draw_run(d);
  static const uint8_t ks[] = {F_STALL_BEFORE, F_STALL_HDR, F_STALL_MID};
  uint32_t m = choose(S_WORK, 4); if (m == 3) d.oc.kinds.assign(ks, ks + 3); else d.oc.kinds.assign(1, ks[m]);
  const int mode = static_cast<int>(pickw(S_WORK, {{3, 0}, {1, 1}, {d.txt ? 0.0 : 2.0, 2}, {d.txt ? 0.0 : 1.0, 3}}));
  // 0 stalls within the retries, 1 a server that never answers, 2 resume with stalls within the retries, 3 resume, never answers
  const bool resume = mode >= 2; size_t initial = 0;
  if (resume && d.nrec() == 0) { run_trivial(); return; }
  if (resume) { initial = 1 + choose(S_WORK, static_cast<uint32_t>(d.nrec())); vfs_put(OUT, d.expect.data(), initial * static_cast<size_t>(rlen(d.kind)), 0); }
  if (mode & 1) { if (choose(S_WORK, 3) == 2) { d.oc.conn_dead = true; d.oc.conn_dead_after = choose(S_WORK, 2); d.oc.conn_hang = true; } d.oc.silent = choose(S_WORK, 3) != 2; if (!d.oc.silent) for (auto& q : d.oc.quota) q = 255; }
  else {
    uint32_t left = 1 + choose(S_WORK, 12);
    for (uint32_t i = 0; i < left; ++i) { auto& q = d.oc.quota[choose(S_WORK, d.n)]; if (q < 5) ++q; }
    if (resume) { uint32_t i = 0; while (d.ends[i] < initial) ++i; if (choose(S_WORK, 2)) d.oc.quota[i] = static_cast<uint8_t>(1 + choose(S_WORK, 2)); }
  }
  std::vector<RangeData>& data = d.data; (void)data;
  describe_run("%s; mode %d", describe(d).c_str(), mode);
  Span s = go(d, args(d, resume)); probe_counts(d);
  if (OL->stalls == 0 && OL->conn_hangs == 0) run_trivial();
  require_clean_end("the server stalled");
  int64_t bound = time_bound();
  if (s.sim > bound) violation("unbounded", "the download took %.0f simulated seconds (bound %.0f)", static_cast<double>(s.sim) / 1e9, static_cast<double>(bound) / 1e9);
  if (OL->longest_stall > 120 * SEC) violation("stall-not-abandoned", "a silent transfer was kept for %.0f s", static_cast<double>(OL->longest_stall) / 1e9);
  if (exited_ok()) { if (mode & 1) { if (first_missing(d) < d.n && !resume) violation("success-without-data", "the server never answered, but the download reports success"); } check_exact(d, "wrong-output"); return; }
  if (vfs_stderr().empty()) violation("no-message", "exit status %d without an error message", W->end_code);
  if (mode == 0) violation("stall-not-retried", "at most five stalls per range, but the download failed: %s", end_desc().c_str());
  check_prefix(d, "bad-remains", true, false);
}
// ------------------------------------------------------------------ C07
void c07() {
  Dl d; draw_format(d, true); gen_data(d, choose(S_WORK, 6) == 5 ? SZ_ANY : SZ_SMALL); draw_par(d); draw_run(d, true);
  if (d.opt.sched.preempt_mean == 0 && d.nrec() < 500 && choose(S_WORK, 2)) d.opt.sched.preempt_mean = 500;
  d.opt.sched.p_stall = 0;
  uint32_t mode = choose(S_WORK, 6); size_t initial = 0; bool resume = false;
  if (mode == 1) draw_tolerable(d, 1);
  if (mode == 2) { draw_kinds(d); uint32_t k = 1 + choose(S_WORK, 3); while (k--) d.oc.quota[choose(S_WORK, d.n)] = 255; }
  if (mode == 3) { d.oc.conn_dead = true; d.oc.conn_dead_after = choose(S_WORK, 5); d.oc.p_idleclose = 0.5; d.oc.idle_budget = 1000; }
  if (mode == 4) { d.opt.disk = draw_soft_disk(); if (choose(S_WORK, 2)) W->disk_capacity = choose(S_WORK, static_cast<uint32_t>(d.expect.size() + 1)); else draw_hard_disk(d.opt.disk, false, true); }
  if (mode == 5 && !d.txt && d.nrec()) { resume = true; initial = 1 + choose(S_WORK, static_cast<uint32_t>(d.nrec())); vfs_put(OUT, d.expect.data(), initial * static_cast<size_t>(rlen(d.kind)), 0); }
  if (choose(S_WORK, 2)) { d.opt.sched.p_stall = 0.01; d.opt.sched.max_stall = 4; d.opt.sched.stall_budget = 20 * SEC; }   // slow threads
  describe_run("%s; mode %u", describe(d).c_str(), mode);
  Span s = go(d, args(d, resume)); probe_counts(d);
  if (W->race_count) violation("race", "%s", W->race_text);
  require_clean_end("whatever the schedule");
  int64_t bound = time_bound() + 100 * SEC;
  if (s.sim > bound) violation("unbounded", "the download took %.0f simulated seconds (bound %.0f)", static_cast<double>(s.sim) / 1e9, static_cast<double>(bound) / 1e9);
  if (exited_ok()) check_exact(d, "state-corrupted");
}
// ------------------------------------------------------------------ C08
void c08() {
  Dl d; draw_format(d, true);
  const int mode = static_cast<int>(pickw(S_WORK, {{3, 0}, {3, 1}, {d.txt ? 0.0 : 2.0, 2}}));    // all slow and healthy, failures, resume
  if (mode == 2) { static const uint32_t bases[] = {0, 0x9, 0xF, 0xFF, 0xABC, 0xFFE, 0x12345, 0xABCDE, 0xFFFFF}; d.base = bases[choose(S_WORK, 9)]; if (d.base == 0xFFFFF) { d.n = 2 + choose(S_WORK, 20); d.base = 0x100000 - d.n; } }
  gen_data(d, SZ_SMALL, 2); draw_par(d); draw_run(d);
  if (mode == 0) { d.oc.slow = 1; d.oc.todo = d.n; d.oc.par = d.par; d.oc.p_idleclose = 0; d.opt.sched.p_stall = 0; }
  if (mode == 1) draw_tolerable(d, 1);
  uint32_t first = 0; bool resume = false; size_t initial = 0; uint32_t probe = ~0u;
  if (mode == 2) {
    if (d.nrec() == 0) { run_trivial(); return; }
    resume = true; initial = 1 + choose(S_WORK, static_cast<uint32_t>(d.nrec()));
    vfs_put(OUT, d.expect.data(), initial * static_cast<size_t>(rlen(d.kind)), 0);
    uint32_t i = 0; while (d.ends[i] < initial) ++i;               // the range of the last record present
    probe = i; first = d.ends[i] == initial ? i + 1 : i;
  }
  describe_run("%s; mode %d first %05X", describe(d).c_str(), mode, d.base + first);
  go(d, args(d, resume)); probe_counts(d);
  if (OL->bad) violation("bad-request", "%s", OL->bad_text);
  if (OL->max_active > d.par) violation("too-parallel", "%u requests were outstanding at once with --parallel-max %u", OL->max_active, d.par);
  for (uint32_t i = 0; i < d.n; ++i) {
    uint32_t again = OL->r[i].after_ok; if (resume && i == probe && again) --again;      // the range that holds the last record is fetched to find the resume point
    if (again) violation("requested-again", "range %05X was requested again after it had been received", d.base + i);
    if (i < first && OL->r[i].attempts && !(resume && i == probe)) violation("before-start", "range %05X lies before the start %05X but was requested", d.base + i, d.base + first);
  }
  if (mode != 1 && W->end_kind == E_EXIT) {
    if (exited_ok()) for (uint32_t i = first; i < d.n; ++i) if (!OL->r[i].attempts) violation("not-requested", "range %05X was never requested, but the download reports success", d.base + i);
  }
  if (mode == 0 && exited_ok()) {
    uint32_t want = std::min(d.par, d.n - 1);            // libcurl holds the others back until the first reply shows whether the connection can be shared
    if (OL->max_active < want) violation("not-parallel", "at most %u requests were outstanding with --parallel-max %u and %u ranges", OL->max_active, d.par, d.n);
    if (OL->max_gap > 500 * MS) violation("parallelism-lost", "for %.3f s fewer than %u requests were outstanding although ranges remained (after %u of %u)", static_cast<double>(OL->max_gap) / 1e9, want, OL->gap_at, d.n);
  }
}

// ------------------------------------------------------------------ C21
// the file must be whole ranges, each as in one version of the data, the last one possibly cut short
std::string mixed(const std::vector<std::vector<std::string>>& ver, const std::string& f, bool whole) {
  std::vector<size_t> at{0}; size_t best = 0;
  for (size_t i = 0; i < ver[0].size(); ++i) {
    std::vector<size_t> to;
    for (size_t p : at) for (auto& v : ver) {
      const std::string& x = v[i]; const size_t n = std::min(x.size(), f.size() - p);
      if (f.compare(p, n, x, 0, n) != 0) { size_t k = 0; while (k < n && f[p + k] == x[k]) ++k; best = std::max(best, p + k); continue; }
      best = std::max(best, p + n);
      if (n == x.size()) { if (std::find(to.begin(), to.end(), p + n) == to.end()) to.push_back(p + n); } else if (!whole) return "";
    }
    if (!whole && std::find(to.begin(), to.end(), f.size()) != to.end()) return "";
    at = to; if (at.empty()) return "range " + std::to_string(i) + " (near byte " + std::to_string(best) + " of " + std::to_string(f.size()) + ")";
  }
  if (std::find(at.begin(), at.end(), f.size()) == at.end()) return "the end (byte " + std::to_string(best) + " of " + std::to_string(f.size()) + ")";
  return "";
}
void c21() {
  Dl d; draw_format(d, false); gen_data(d, choose(S_WORK, 6) == 5 ? SZ_MULTIFLUSH : SZ_ANY, 2); draw_par(d); draw_run(d);
  if (d.nrec() == 0) { run_trivial(); return; }
  const Kind sk = d.kind == K_NTLM ? K_NTLM : K_SHA1; const size_t r = static_cast<size_t>(rlen(d.kind));
  std::vector<std::vector<RangeData>> vs{d.data}; std::vector<std::vector<std::string>> ver(1); for (auto& x : d.data) ver[0].push_back(bin(x.recs, d.kind));
  Rng g(choose(S_WORK, 1u << 20)); const uint32_t nv = 2 + choose(S_WORK, 2);
  static const double pr[] = {0.3, 1, 0.05}; const double pc = pr[choose(S_WORK, 3)], pe = choose(S_WORK, 2) ? 0.3 : 0, pb = choose(S_WORK, 3) == 2 ? 0.3 : 0;
  while (vs.size() < nv) {                                // newer versions have more records and other counts
    vs.push_back(vs.back()); ver.emplace_back();
    for (auto& x : vs.back()) {
      if (g.p(pc)) {
        Recs v = x.recs; for (auto& e : v) if (g.p(0.3)) e.c = draw_count(g);
        auto add = [&](int how) { Rec e{}; for (auto& b : e.h) b = static_cast<uint8_t>(g.next() >> 30); e.h[0] = static_cast<uint8_t>(x.prefix >> 12); e.h[1] = static_cast<uint8_t>(x.prefix >> 4);
          uint8_t lo = e.h[2] & 15; if (how == 1) { lo = 15; e.h[3] = 0xFF; e.h[4] |= 0xF0; } if (how == 2) { lo = 0; e.h[3] = 0; e.h[4] &= 15; } e.h[2] = static_cast<uint8_t>((x.prefix & 15) << 4 | lo); e.c = draw_count(g); v.push_back(e); };
        for (uint32_t m = g.below(4); m; --m) add(0);
        if (g.p(pe)) add(1);
        if (g.p(pb)) add(2);
        sort_hash(v, sk); Recs u; for (auto& e : v) if (u.empty() || u.back().cmp(e, sk) != 0) u.push_back(e);
        bool kept = u.size() >= x.recs.size(); size_t j = 0; for (auto& e : x.recs) { while (j < u.size() && memcmp(u[j].h, e.h, 20) != 0) ++j; kept &= j < u.size(); }
        if (kept) { x.recs = u; x.body = make_body(u, sk, g.below(4)); }
      }
      ver.back().push_back(bin(x.recs, d.kind));
    }
  }
  size_t cur = 0;                                         // the version served
  if (choose(S_WORK, 2)) { std::string e; for (auto& x : ver[0]) e += x; const size_t cut = choose(S_WORK, 2) ? choose(S_WORK, static_cast<uint32_t>(e.size()) + 1) : (1 + choose(S_WORK, static_cast<uint32_t>(e.size() / r))) * r; vfs_put(OUT, e.data(), std::min(cut, e.size()), 0); if (choose(S_WORK, 2)) ++cur; }
  const uint32_t steps = 1 + choose(S_WORK, 5); std::string hist; bool afresh = false; SchedCfg bs = d.opt.sched; OriginCfg bo = d.oc;
  for (uint32_t st = 0; st < steps + 3; ++st) {
    const bool calm = st >= steps; d.opt.sched = bs; d.oc = bo; d.opt.disk = DiskCfg{}; d.opt.crash = CrashCfg{}; clear_faults();
    if (cur + 1 < nv && choose(S_WORK, 3) == 0) ++cur;
    d.oc.data = &vs[cur]; bool during = false;
    if (!calm) {
      if (cur + 1 < nv && choose(S_WORK, 2)) { ++cur; during = true; d.oc.next = &vs[cur]; d.oc.next_after = choose(S_WORK, d.n * 2); }
      switch (pickw(S_WORK, {{2, 0}, {1.5, 1}, {1, 2}, {1, 3}, {1, 4}})) {
      case 0: if (choose(S_WORK, 2)) { d.opt.crash.at_vfs = 1 + choose(S_WORK, 6); d.opt.crash.partial = choose(S_CRASH, 1u << 24); } else d.opt.crash.at_sys = 1 + (choose(S_WORK, 2) ? choose(S_WORK, 60) : choose(S_WORK, 1200)); break;
      case 1: draw_kinds(d); d.oc.quota[choose(S_WORK, d.n)] = 255; break;
      case 2: if (choose(S_WORK, 2)) W->disk_capacity = choose(S_WORK, static_cast<uint32_t>(d.expect.size() + 1)); else draw_hard_disk(d.opt.disk, true, true); break;
      case 3: draw_kinds(d); for (auto& q : d.oc.quota) if (flip(S_WORK, 0.3)) q = static_cast<uint8_t>(1 + choose(S_WORK, 5)); break;
      default: break;
      }
    }
    const bool there = vfs_exists(OUT), resume = there && !afresh; const std::string was = vfs_get(OUT);
    hist += during ? " U" : ""; hist += std::to_string(cur); hist += afresh && there ? "f" : resume ? "r" : ""; hist += calm ? "" : d.opt.crash.at_vfs || d.opt.crash.at_sys ? "k" : "*";
    describe_run("%s; versions (U during the run, f afresh, r resumed, k killed, * faults):%s", describe(d).c_str(), hist.c_str());
    go(d, args(d, resume, afresh && there)); clear_faults(); count(C_P_HISTLEN);
    require_clean_end("the data changed meanwhile", true);
    std::string f = vfs_get(OUT);
    if (exited_ok()) {
      const std::string e = mixed(ver, f, true); count(C_P_CLEANRUN);
      if (!e.empty()) violation("mixed-versions", "after%s the finished file is not made of whole ranges, each of one version: wrong at %s", hist.c_str(), e.c_str());
      return;
    }
    if (vfs_exists(OUT) && !(afresh && f == was)) { const std::string e = mixed(ver, f.substr(0, f.size() / r * r), false); if (!e.empty()) violation("mixed-remains", "after%s the file is not made of whole ranges, each of one version: wrong at %s (%s)", hist.c_str(), e.c_str(), end_desc().c_str()); }
    if (afresh && !(f == was && there)) afresh = false;
    if (!resume && calm) violation("failed", "after%s a fresh download failed without a fault: %s", hist.c_str(), end_desc().c_str());
    // resuming can be impossible when the first record of a range is new: starting afresh is up to the user
    if (resume && W->end_kind == E_EXIT) { if (calm && st + 1 == steps + 3) return; if (choose(S_WORK, 2) || calm) afresh = true; }
  }
}
// ------------------------------------------------------------------ C19
void res_download_run() {
  Dl d; draw_format(d, true); gen_data(d, choose(S_WORK, 8) == 7 ? SZ_ANY : SZ_SMALL); draw_par(d); draw_run(d);
  if (d.n > 40) d.opt.sched.preempt_mean = 0;
  const bool resume = !d.txt && d.nrec() && choose(S_WORK, 4) == 3; const size_t initial = resume ? choose(S_WORK, static_cast<uint32_t>(d.nrec())) + 1 : 0;
  if (!resume && choose(S_WORK, 3) == 2) draw_tolerable(d, 0);
  auto place = [&] { vfs_remove(OUT); if (resume) vfs_put(OUT, d.expect.data(), initial * static_cast<size_t>(rlen(d.kind)), 0); };
  place(); describe_run("%s%s, nothing refused", describe(d).c_str(), resume ? ", --resume" : "");
  const OriginCfg oc = d.oc;
  go(d, args(d, resume));
  const bool nothing_to_do = resume && initial == d.nrec();
  if (!exited_ok() && !nothing_to_do) violation("failed", "the download failed although nothing was refused: %s", end_desc().c_str());
  const Asked na = asked();
  const uint32_t runs = 1 + choose(S_WORK, 4);
  for (uint32_t i = 0; i < runs; ++i) {
    place(); d.oc = oc; const std::string how = draw_refusal(d.opt.res, na);
    describe_run("%s%s, %s", describe(d).c_str(), resume ? ", --resume" : "", how.c_str());
    Span s = go(d, args(d, resume));
    if (W->res_faults) count(C_P_FAULT_HIT);
    require_res_end(how.c_str());
    int64_t bound = time_bound() + 300 * SEC;
    if (s.sim > bound) violation("unbounded", "%s: the download took %.0f simulated seconds (bound %.0f)", how.c_str(), static_cast<double>(s.sim) / 1e9, static_cast<double>(bound) / 1e9);
    if (exited_ok()) check_exact(d, "incomplete-success");
    else if (vfs_exists(OUT)) check_prefix(d, "bad-remains", false, !resume);
  }
}
// what finished ranges, retries and connections took is given back while the download goes on, not at its end
void cost_download_run() {
  Dl d; draw_format(d, true); d.n = 600 + choose(S_WORK, 600); gen_data(d, SZ_SMALL);
  d.par = 1 + choose(S_WORK, 4);
  draw_run(d); d.opt.sched = SchedCfg{}; d.opt.sched.p_switch = 0.2; d.oc.slow = true; d.diag = static_cast<int>(choose(S_WORK, 2));
  const uint32_t f = choose(S_WORK, 3);
  if (f) { draw_kinds(d, false); const double p = f == 1 ? 0.1 : 0.6; for (uint32_t i = 0; i < d.n; ++i) if (flip(S_WORK, p)) d.oc.quota[i] = static_cast<uint8_t>(1 + choose(S_WORK, 2)); }
  describe_run("footprint of hibp-download: %s", describe(d).c_str());
  go(d, args(d)); probe_counts(d);
  require_clean_end("footprint of a download");
  if (!exited_ok()) { run_trivial(); return; }
  check_growth("download", "ranges", 16 * 1024 + static_cast<int64_t>(d.par) * 24 * 1024, 8);      // ranges wait for the ones before them
}
PropReg r1({"C01", {"download"}, c01, "the download ended with success, so that its output was compared", REAL, STUB});
PropReg r2({"C02", {"download"}, c02, "at least one range or connection failure was injected", REAL, STUB});
PropReg r3({"C03", {"download"}, c03, "the download could not finish and gave up", REAL, STUB});
PropReg r4({"C04", {"download"}, c04, "a hard disk fault or full disk actually hit the output", REAL, STUB});
PropReg r5({"C05", {"download"}, c05, "at least one interrupted run and one resume were compared", REAL, STUB});
PropReg r6({"C06", {"download"}, c06, "at least one transfer or connection stalled", REAL, STUB});
PropReg r7({"C07", {"download"}, c07, "every run", REAL, STUB});
PropReg r21({"C21", {"download"}, c21, "the data set was updated between or during the runs, and a finished file was compared", REAL, STUB});
PropReg r8({"C08", {"download"}, c08, "every run", REAL, STUB});
} // namespace
void cost_download() { cost_download_run(); }
void res_download() { res_download_run(); }
