#include "common.h"
#include <cstdio>

const char* kind_name(Kind k) { return k == K_SHA1 ? "sha1" : k == K_NTLM ? "ntlm" : "sha1t64"; }
std::string bin(const Recs& v, Kind k) {
  std::string o; const size_t H = static_cast<size_t>(hlen(k)); o.reserve(v.size() * (H + 4));
  for (auto& r : v) { o.append(reinterpret_cast<const char*>(r.h), H); o.append(reinterpret_cast<const char*>(&r.c), 4); }
  return o;
}
std::string hexhash(const Rec& r, Kind k) {
  static const char* const x = "0123456789ABCDEF"; std::string o;
  for (int i = 0; i < hlen(k); ++i) { o += x[r.h[i] >> 4]; o += x[r.h[i] & 15]; }
  return o;
}
std::string text_line(const Rec& r, Kind k) { return hexhash(r, k) + ":" + std::to_string(r.c); }
std::string text(const Recs& v, Kind k) { std::string o; for (auto& r : v) { o += text_line(r, k); o += '\n'; } return o; }
Recs parse_bin(const std::string& s, Kind k) {
  Recs v; const size_t H = static_cast<size_t>(hlen(k));
  for (size_t i = 0; i + H + 4 <= s.size(); i += H + 4) { Rec r{}; memcpy(r.h, s.data() + i, H); memcpy(&r.c, s.data() + i + H, 4); v.push_back(r); }
  return v;
}
int32_t draw_count(Rng& r) {
  switch (r.below(8)) {
  case 0: return 1;
  case 1: return 2147483647 - static_cast<int32_t>(r.below(3));
  case 2: return static_cast<int32_t>(r.below(10));       // 0: as in the padding of the public endpoint
  case 3: return static_cast<int32_t>(r.below(100'000'000) + 1);
  default: return static_cast<int32_t>(r.below(5000) + 1);
  }
}
void sort_hash(Recs& v, Kind k) { std::sort(v.begin(), v.end(), [k](const Rec& a, const Rec& b) { return a.cmp(b, k) < 0; }); }
void sort_count(Recs& v, Kind k) { std::sort(v.begin(), v.end(), [k](const Rec& a, const Rec& b) { return a.c != b.c ? a.c > b.c : a.cmp(b, k) < 0; }); }
// sorted, without duplicates
void distinct(Recs& v, Kind k) { sort_hash(v, k); v.erase(std::unique(v.begin(), v.end(), [k](const Rec& a, const Rec& b) { return a.cmp(b, k) == 0; }), v.end()); }
// differs from another record in one byte only, or only in its last ones
void relative(Rng& r, Rec& x, const Rec& o, Kind k) {
  const uint32_t n = static_cast<uint32_t>(hlen(k));
  if (r.p(0.5)) { memcpy(x.h, o.h, n); x.h[r.below(n)] ^= static_cast<uint8_t>(1 + r.below(255)); }
  else memcpy(x.h, o.h, n - 1 - r.below(3));
}
Recs random_db(Rng& r, Kind k, size_t n) {
  Recs v; v.reserve(n);
  for (size_t i = 0; i < n; ++i) {
    Rec x{}; for (int j = 0; j < 20; j += 4) { uint32_t w = static_cast<uint32_t>(r.next() >> 20); memcpy(x.h + j, &w, 4); }
    if (i == 0 && r.p(0.2)) memset(x.h, 0, 20);
    if (i == 1 && r.p(0.2)) memset(x.h, 0xFF, 20);
    if (i > 1 && r.p(0.2)) { { const Rec& o = v[r.below(static_cast<uint32_t>(i))]; if (r.p(0.3)) relative(r, x, o, k); else memcpy(x.h, o.h, 1 + r.below(7)); } }   // shared leading bytes
    x.c = draw_count(r); v.push_back(x);
  }
  distinct(v, k);
  return v;
}

void run_app(const char* app, const std::vector<std::string>& args, const Opt& o) {
  Incarnation inc;
  inc.argv.push_back(std::string("hibp-") + app);
  for (auto& a : args) inc.argv.push_back(a);
  for (auto& a : inc.argv) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : a) h = (h ^ c) * 0x100000001b3ull; evhash(0xA0, h); }
  inc.main_fn = app_main(app);
  inc.sched = o.sched; inc.disk = o.disk; inc.crash = o.crash; inc.res = o.res; inc.setup = o.setup; inc.stdin_tty = o.tty;
  run_incarnation(inc);
  if (W->end_kind == E_INTERNAL || W->end_kind == E_NONE) sim_error("%s: %s", app, W->end_text);
}
std::string tail(const std::string& s, size_t n) { std::string t = s.size() > n ? "..." + s.substr(s.size() - n) : s; for (auto& c : t) if (c == '\n' || c == '\r') c = ' '; return t; }
std::string end_desc() {
  char b[256];
  switch (W->end_kind) {
  case E_EXIT: snprintf(b, sizeof b, "exit status %d; stderr: ", W->end_code); return b + tail(vfs_stderr());
  case E_SIGNAL: snprintf(b, sizeof b, "died from signal %d; stderr: ", W->end_code); return b + tail(vfs_stderr());
  case E_CRASH: return std::string("killed: ") + W->end_text;
  default: return W->end_text;
  }
}
void require_clean_end(const char* what, bool crash_ok) {
  switch (W->end_kind) {
  case E_EXIT: return;
  case E_CRASH: if (crash_ok) return; sim_error("unexpected crash end");
  case E_SIGNAL: violation("crashed", "%s: %s", what, end_desc().c_str());
  case E_DEADLOCK: violation("deadlock", "%s: %s", what, W->end_text);
  case E_STEPS: violation("livelock", "%s: %s", what, W->end_text);
  case E_TIME: violation("hang", "%s: %s", what, W->end_text);
  default: sim_error("%s: unexpected end %d %s", what, W->end_kind, W->end_text);
  }
}
uint32_t pickw(Stream s, std::initializer_list<std::pair<double, uint32_t>> w) {
  // weighted() over the values of the list; index 0 is the benign one
  std::vector<double> p; double sum = 0; for (auto& e : w) { p.push_back(e.first); sum += e.first; }
  uint32_t v = 0, n = static_cast<uint32_t>(w.size());
  if (!W->replaying) { double u = static_cast<double>(raw_bits(s) >> 11) * 0x1.0p-53 * sum; for (double x : p) { if (u < x) break; u -= x; ++v; } if (v >= n) v = 0; }
  v = record_choice(s, v) % n;
  return (w.begin() + v)->second;
}
SchedCfg draw_sched(bool races) {
  SchedCfg c; c.races = races;
  static const double ps[] = {0, 0.02, 0.1, 0.3, 0.7};
  static const double pm[] = {0, 20000, 3000, 500, 120};
  c.policy = static_cast<int>(pickw(S_WORK, {{0.15, 0}, {0.5, 1}, {0.35, 2}}));
  c.p_switch = ps[c.policy == 1 ? pickw(S_WORK, {{0.1, 0}, {0.2, 1}, {0.3, 2}, {0.3, 3}, {0.1, 4}}) : 0];
  c.preempt_mean = pm[pickw(S_WORK, {{0.35, 0}, {0.25, 1}, {0.25, 2}, {0.1, 3}, {0.05, 4}})];
  c.p_spurious = choose(S_WORK, 3) == 2 ? 0.05 : 0;
  if (choose(S_WORK, 4) == 3) { c.p_stall = 0.002; c.max_stall = 4; c.stall_budget = 1500 * MS; }
  return c;
}
DiskCfg draw_soft_disk() {
  DiskCfg d;
  static const double p[] = {0, 0.05, 0.3, 0.8};
  if (choose(S_WORK, 3) == 0) return d;
  d.on = true; d.max_hard = 0;
  d.p_shortw = p[choose(S_WORK, 4)]; d.p_shortr = p[choose(S_WORK, 4)]; d.p_eintr = p[choose(S_WORK, 3)];
  return d;
}
void draw_hard_disk(DiskCfg& d, bool reads, bool writes) {
  d.on = true; d.max_hard = 1;
  std::vector<int> k;
  if (writes) { k.insert(k.end(), {0, 0, 0, 1, 2, 7}); }
  if (reads) { k.insert(k.end(), {3, 3, 3, 4, 5}); }
  d.sticky = static_cast<int>(choose(S_WORK, 2));
  const uint32_t nth = 1 + pickw(S_WORK, {{3, 0}, {2, 1}, {2, 2}, {1, 3}, {1, 5}, {1, 9}, {1, 20}, {0.5, 60}});
  switch (k[choose(S_WORK, static_cast<uint32_t>(k.size()))]) {
  case 0: d.nth_write = nth; break;
  case 1: d.nth_close = 1 + nth / 3; break;
  case 2: case 4: d.nth_open = 1 + nth / 3; break;
  case 3: d.nth_read = nth; break;
  case 5: d.nth_stat = 1 + nth / 2; break;
  case 7: d.nth_meta = 1 + nth / 3; break;
  }
  if (choose(S_WORK, 3) == 2) d.max_hard = 3;
}
std::string hexs(const std::string& s, size_t n) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < n; ++i) { snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(s[i])); o += b; } return o; }
std::string db_diff(const std::string& got, const std::string& want, int rec) {
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  char b[400];
  size_t r = rec ? i / static_cast<size_t>(rec) * static_cast<size_t>(rec) : i;
  std::string g = r < got.size() ? got.substr(r, rec ? static_cast<size_t>(rec) : 60) : "<end>", w = r < want.size() ? want.substr(r, rec ? static_cast<size_t>(rec) : 60) : "<end>";
  snprintf(b, sizeof b, "got %zu bytes, expected %zu; first difference at byte %zu%s: got %s expected %s", got.size(), want.size(), i, rec ? (" (record " + std::to_string(i / static_cast<size_t>(rec)) + ")").c_str() : "",
           rec ? (r < got.size() ? hexs(g).c_str() : "<end>") : tail(g, 60).c_str(), rec ? (r < want.size() ? hexs(w).c_str() : "<end>") : tail(w, 60).c_str());
  return b;
}
void check_untouched(const char* cls, const std::vector<std::pair<std::string, std::string>>& before) {
  for (auto& [p, c] : before) {
    if (!vfs_exists(p)) violation(cls, "%s was removed (%s)", p.c_str(), end_desc().c_str());
    std::string now = vfs_get(p);
    if (now != c) violation(cls, "%s was changed: %s (%s)", p.c_str(), db_diff(now, c, 0).c_str(), end_desc().c_str());
  }
}
