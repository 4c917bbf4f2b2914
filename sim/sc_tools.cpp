// C09 - C15: the single-threaded tools on a simulated disk that fails, fills up, and a process that gets killed.
#include "tools.h"
#include "origin.h"
#include "hashref.h"
#include <cstdio>
#include <set>

static const char* const STUB = "file system and standard streams (short reads and writes, EINTR, errors, full disk), clock, process kill";

// ------------------------------------------------------------------ shared
Faults draw_tool_faults(Opt& o, bool reads, bool writes, bool std_streams, double p_none) {
  Faults f;
  const double q = (1 - p_none) / 3;
  f.mode = static_cast<int>(pickw(S_WORK, {{p_none, 0}, {q, 1}, {2 * q, 2}, {writes ? q / 2 : 0, 3}}));
  if (f.mode == 0) return f;
  o.disk = draw_soft_disk();
  o.disk.std_streams = std_streams;
  if (f.mode == 1) { o.disk.on = true; o.disk.max_hard = 0; if (o.disk.p_shortr == 0 && o.disk.p_shortw == 0) o.disk.p_shortr = o.disk.p_shortw = 0.5; }
  if (f.mode == 2) draw_hard_disk(o.disk, reads, writes);
  if (f.mode == 3) { f.capacity = true; o.disk.on = true; o.disk.max_hard = 0; W->disk_capacity = static_cast<int64_t>(pickw(S_WORK, {{1, 0}, {1, 1}, {1, 24}, {1, 100}, {1, 1000}, {1, 4096}, {1, 20000}, {0.5, 100000}})); }
  return f;
}
bool faulted() { return W->io_faults > 0; }
void clear_faults() { W->disk_capacity = -1; }
size_t draw_n(size_t page, bool big) {
  switch (pickw(S_WORK, {{2, 0}, {1, 1}, {1, 2}, {2, 3}, {big ? 1.0 : 0.0, 4}, {big ? 0.6 : 0.0, 5}, {0.4, 6}})) {
  case 0: return 1 + choose(S_WORK, 12);
  case 1: return 1 + choose(S_WORK, 400);
  case 2: { size_t k = page * (1 + choose(S_WORK, 2)); return k + choose(S_WORK, 5) - (k > 2 ? 2 : 0); }
  case 3: return 20 + choose(S_WORK, 100);
  case 4: return 1000 + choose(S_WORK, 9000);
  case 5: return 10000 + choose(S_WORK, 20000);
  default: return choose(S_WORK, 3);
  }
}
Opt tool_opt() { Opt o; o.sched.policy = 0; return o; }
void crash_somewhere(Opt& o, uint32_t spread) {
  if (choose(S_CRASH, 3) == 2) o.crash.at_sys = 1 + choose(S_CRASH, spread * 3);
  else { o.crash.at_vfs = 1 + choose(S_CRASH, spread); o.crash.partial = choose(S_CRASH, 1u << 20); }
}
std::string faults_desc(const Opt& o, const Faults& f) {
  char b[200]; const auto& d = o.disk;
  if (o.crash.at_vfs || o.crash.at_sys) { snprintf(b, sizeof b, "killed at file operation %u / system call %u", o.crash.at_vfs, o.crash.at_sys); return b; }
  if (f.mode == 0) return "healthy disk";
  snprintf(b, sizeof b, "%s: short reads %.2f, short writes %.2f, EINTR %.2f; failing write %u read %u open %u close %u stat %u meta %u%s; capacity %lld", f.mode == 1 ? "benign disturbances" : f.mode == 2 ? "disk error" : "full disk", d.p_shortr, d.p_shortw, d.p_eintr, d.nth_write, d.nth_read, d.nth_open, d.nth_close, d.nth_stat, d.nth_meta, d.sticky ? " (persistent)" : "", (long long)W->disk_capacity);
  return b;
}
std::string junk(Rng& g, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) s += static_cast<char>(g.next() >> 30); return s; }
// a database in which every prefix of `bits` bits, from 0 up, has records
Recs toc_db(Rng& g, Kind k, unsigned bits, uint32_t entries, uint32_t per) {
  Recs v;
  for (uint32_t i = 0; i < entries; ++i) {
    const uint32_t m = 1 + g.below(per);
    for (uint32_t j = 0; j < m; ++j) {
      Rec x{}; for (int b = 0; b < 20; b += 4) { uint32_t w = static_cast<uint32_t>(g.next() >> 20); memcpy(x.h + b, &w, 4); }
      if (!v.empty() && g.p(0.06)) relative(g, x, v[g.below(static_cast<uint32_t>(v.size()))], k);
      if (g.p(0.08)) memset(x.h, 0, 20); else if (g.p(0.08)) memset(x.h, 0xFF, 20);
      uint32_t top = i << (32 - bits), mask = ~0u << (32 - bits), w = static_cast<uint32_t>(x.h[0]) << 24 | static_cast<uint32_t>(x.h[1]) << 16 | static_cast<uint32_t>(x.h[2]) << 8 | x.h[3];
      w = (w & ~mask) | top; x.h[0] = static_cast<uint8_t>(w >> 24); x.h[1] = static_cast<uint8_t>(w >> 16); x.h[2] = static_cast<uint8_t>(w >> 8); x.h[3] = static_cast<uint8_t>(w);
      x.c = draw_count(g); v.push_back(x);
    }
  }
  distinct(v, k);
  return v;
}
bool has_gap(const Recs& db, unsigned bits) {
  uint32_t next = 0; for (auto& r : db) { uint32_t w = (static_cast<uint32_t>(r.h[0]) << 24 | static_cast<uint32_t>(r.h[1]) << 16 | static_cast<uint32_t>(r.h[2]) << 8 | r.h[3]) >> (32 - bits); if (w > next) return true; if (w == next) ++next; }
  return false;
}
const Rec* lookup(const Recs& v, const Rec& q, Kind k) { for (auto& r : v) if (r.cmp(q, k) == 0) return &r; return nullptr; }
void from_hex(Rec& r, const std::string& hex) { for (size_t i = 0; i + 1 < hex.size() && i < 40; i += 2) { auto n = [](char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }; r.h[i / 2] = static_cast<uint8_t>(n(hex[i]) << 4 | n(hex[i + 1])); } }
Rec pw_rec(const std::string& pw, Kind k) {
  Rec r{}; r.c = -1;
  if (k == K_NTLM) { std::string m = ref_ntlm(pw); memcpy(r.h, m.data(), 16); } else from_hex(r, ref_sha1_hex(pw));
  return r;
}
// a query near something interesting
uint64_t draw_huge(uint32_t rec) {
  static const uint64_t w[] = {1'000'000'000, (1ull << 31) / 24, (1ull << 32) / 24, 300'000'000, 1ull << 31, (1ull << 32) - 8, 5'000'000'000};
  const uint32_t i = choose(S_WORK, 7); uint64_t n = w[i]; if (i == 1) n = (1ull << 31) / rec; if (i == 2) n = (1ull << 32) / rec;
  return n + choose(S_WORK, 7) - 3;
}
Huge put_huge(const std::string& path, Kind k, bool below) {
  Huge h; const uint32_t r = static_cast<uint32_t>(rlen(k)); h.n = draw_huge(r); if (below && h.n >> 32) h.n = 1'000'000'007;
  h.step = UINT64_MAX / h.n >> (choose(S_WORK, 4) == 3 ? 1 + choose(S_WORK, 4) : 0);
  std::vector<uint64_t> j; auto around = [&](uint64_t x) { for (uint64_t d = 0; d < 5; ++d) if (x + d >= 2 && x + d - 2 < h.n) j.push_back(x + d - 2); };
  around(0); around(h.n - 1); around(h.n / 2); for (int b : {31, 32, 33, 34}) around((1ull << b) / r);
  around(1ull << 31); around(1ull << 32); for (int b = 0; b < 4; ++b) around((static_cast<uint64_t>(choose(S_WORK, 1u << 31)) << 31 | choose(S_WORK, 1u << 31)) % h.n);
  std::sort(j.begin(), j.end()); j.erase(std::unique(j.begin(), j.end()), j.end());
  for (auto x : j) { uint8_t b[32]; huge_record(x, h.step, r, b); Rec e{}; memcpy(e.h, b, r - 4); memcpy(&e.c, b + r - 4, 4); h.some.push_back(e); }
  vfs_put_huge(path, h.n, h.step, r, "", 0, W->now - 10 * SEC);
  return h;
}
std::string huge_toc(const Huge& h, unsigned bits) {
  const uint64_t off = h.step / 2, entries = ((off + (h.n - 1) * h.step) >> (64 - bits)) + 1; std::vector<uint32_t> t(entries);
  for (uint64_t p = 1; p < entries; ++p) t[p] = static_cast<uint32_t>(((p << (64 - bits)) - off + h.step - 1) / h.step);
  return {reinterpret_cast<char*>(t.data()), t.size() * 4};
}
Rec draw_query(const Recs& db, Kind k) {
  Rec q{}; Rng g(choose(S_WORK, 1u << 16));
  const uint32_t how = db.empty() ? 5 : pickw(S_WORK, {{3, 0}, {2, 1}, {2, 2}, {1, 3}, {1, 4}, {1, 5}});
  size_t i = 0;
  if (!db.empty()) switch (choose(S_WORK, 4)) { case 0: i = 0; break; case 1: i = db.size() - 1; break; case 2: i = std::min<size_t>(db.size() - 1, 4096 / static_cast<size_t>(rlen(k)) * (1 + choose(S_WORK, 3)) - choose(S_WORK, 2)); break; default: i = choose(S_WORK, static_cast<uint32_t>(db.size())); }
  switch (how) {
  case 0: q = db[i]; break;
  case 1: q = db[i]; for (int b = hlen(k) - 1; b >= 0 && ++q.h[b] == 0; --b) {} break;                 // just above
  case 2: q = db[i]; for (int b = hlen(k) - 1; b >= 0 && q.h[b]-- == 0; --b) {} break;                 // just below
  case 3: memset(q.h, 0, 20); break;
  case 4: memset(q.h, 0xFF, 20); break;
  default: for (auto& b : q.h) b = static_cast<uint8_t>(g.next() >> 30);
  }
  q.c = -1; if (k == K_NTLM) memset(q.h + 16, 0, 4); else if (k == K_T64) memset(q.h + 8, 0, 12);
  return q;
}
// what a search printed: 0 no answer, 1 found, 2 not found, -1 contradictory
int parse_answer(const std::string& out, std::string& rec) {
  int a = 0; size_t i = 0;
  while (i < out.size()) {
    size_t j = out.find('\n', i); std::string l = out.substr(i, j == std::string::npos ? j : j - i); i = j == std::string::npos ? out.size() : j + 1;
    size_t cr = l.rfind('\r'); if (cr != std::string::npos) l = l.substr(cr + 1);
    if (l.rfind("found", 0) == 0) { if (a) return -1; a = 1; size_t e = l.find_last_of(" ="); rec = e == std::string::npos ? "" : l.substr(e + 1); }
    else if (l == "not found") { if (a) return -1; a = 2; }
  }
  return a;
}
std::vector<std::string> kind_args(Kind k) { if (k == K_NTLM) return {"--ntlm"}; if (k == K_T64) return {"--sha1t64"}; return {}; }
static void append(std::vector<std::string>& a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); }
std::string args_desc(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += " " + x; return s; }

// ------------------------------------------------------------------ C09
static void c09() {
  Rng g(choose(S_WORK, 1u << 20));
  Opt o = tool_opt();
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  Recs db = random_db(g, k, 3 + choose(S_WORK, 60));
  std::string existing;
  switch (choose(S_WORK, 5)) { case 0: break; case 1: existing = junk(g, 1 + g.below(100)); break; case 2: existing = bin(db, k); break; case 3: existing = bin(Recs(db.begin(), db.begin() + 2), k); break; default: existing = junk(g, 4000 + g.below(9000)); }
  static const char* const names[] = {"out.bin", "d/out.bin", "/w/d/../out.bin", "out put.bin", "./out.bin"};
  std::string name = names[choose(S_WORK, 5)];
  std::string path = name == "d/out.bin" ? "/w/d/out.bin" : name == "out put.bin" ? "/w/out put.bin" : "/w/out.bin";
  vfs_put("/w/d/keep", "x", 1, W->now - SEC);
  vfs_put(path, existing.data(), existing.size(), W->now - SEC);
  vfs_put("/w/in.bin", bin(db, k).data(), bin(db, k).size(), W->now - 2 * SEC);
  vfs_put("/w/in.txt", text(db, k).data(), text(db, k).size(), W->now - 2 * SEC);
  std::string in = text(db, k); vfs_set_stdin(in.data(), in.size());
  const uint32_t tool = choose(S_WORK, 3);
  std::vector<std::string> a; const char* app; bool rejected = false, hard = false;
  std::vector<RangeData> data; OriginCfg oc;
  std::vector<std::string> ntlm; if (k == K_NTLM) ntlm.push_back("--ntlm");
  if (tool == 0) {
    app = "convert";
    const bool t2b = choose(S_WORK, 2); const bool sin = t2b && choose(S_WORK, 3) == 2;
    const uint32_t bad = choose(S_WORK, 8);
    std::vector<std::string> dir{t2b ? "--txt-to-bin" : "--bin-to-txt"}, src = sin ? std::vector<std::string>{"--stdin"} : std::vector<std::string>{"-i", t2b ? "in.txt" : "in.bin"}, dst{"-o", name};
    rejected = true;
    switch (bad) {
    case 0: dir = {"--txt-to-bin", "--bin-to-txt"}; break;
    case 1: dir.clear(); break;
    case 2: src = {"-i", "in.txt", "--stdin"}; break;
    case 3: src.clear(); break;
    case 4: dst.push_back("--stdout"); break;
    case 5: dir = {"--bin-to-txt"}; src = {"--stdin"}; break;
    default: rejected = false;
    }
    append(a, dir); append(a, src); append(a, dst); append(a, ntlm);
  } else if (tool == 1) {
    app = "topn";
    a = {"in.bin", "-o", name, "-N", "2"}; append(a, ntlm);
    switch (choose(S_WORK, 5)) {
    case 0: a.push_back("--stdout"); rejected = true; break;
    case 1: a.push_back("--ntlm"); a.push_back("--sha1t64"); if (k != K_NTLM) rejected = true; break;
    case 2: a[4] = std::to_string(db.size() + choose(S_WORK, 3)); rejected = true; break;
    default: break;
    }
  } else {
    app = "download";
    RangeData r; r.prefix = 0; r.recs = db; r.body = "0018A45C4D1DEF81644B54AB7F969B88D65:1\r\n00D4F6E8FA6EECAD2A3AA415EEC418D38EC:2"; data.push_back(r);
    oc.kind = k; oc.data = &data; oc.quota = {0}; origin_log_new(data);
    o.setup = [&] { origin_install(oc); };
    o.sched = draw_sched();
    a = {name, "--testing", "--limit", "1", "--no-progress"}; append(a, ntlm);
    rejected = true;
    switch (choose(S_WORK, 6)) {
    case 0: a.push_back("--resume"); a.push_back("--force"); break;
    case 1: a.push_back("--txt-out"); a.push_back("--resume"); break;
    case 2: if (k != K_NTLM) a.push_back("--ntlm"); a.push_back("--sha1t64"); break;
    default: rejected = false; if (choose(S_WORK, 3) == 0) a.push_back("--txt-out"); else if (k != K_NTLM && choose(S_WORK, 2)) a.push_back("--sha1t64");
    }
  }
  if (rejected && choose(S_WORK, 2)) { if (std::find(a.begin(), a.end(), "--force") == a.end()) a.push_back("--force"); }
  const bool force = std::find(a.begin(), a.end(), "--force") != a.end();
  Faults f; f.mode = static_cast<int>(pickw(S_WORK, {{1, 0}, {0.5, 1}, {1, 2}}));
  if (f.mode) { o.disk = draw_soft_disk(); o.disk.on = true; }
  if (f.mode == 2) { o.disk.max_hard = 1 + static_cast<int>(choose(S_WORK, 3)); switch (choose(S_WORK, 3)) { case 0: case 1: o.disk.nth_stat = 1 + choose(S_WORK, 3); if (choose(S_WORK, 2)) { o.disk.nth_stat = 0; o.disk.p_stat = 0.7; } break; default: o.disk.p_meta = 0.5; o.disk.p_stat = 0.3; } hard = true; }
  describe_run("hibp-%s%s, output exists with %zu bytes%s; %s", app, args_desc(a).c_str(), existing.size(), rejected ? (force ? ", rejected options with --force" : ", rejected options") : "", faults_desc(o, f).c_str());
  (void)hard;
  std::vector<std::pair<std::string, std::string>> before; for (auto& p : vfs_list()) before.push_back({p, vfs_get(p)});
  run_app(app, a, o);
  if (faulted()) count(C_P_FAULT_HIT);
  check_untouched("overwritten", before);
  for (int i = 0; i < W->ntouch; ++i) if (path == W->touch[i].path) violation("touched", "%s was opened for modification (%s), although --force was not given or the options are rejected (%s)", path.c_str(), W->touch[i].op, end_desc().c_str());
  require_clean_end("output file exists");
  if (exited_ok()) violation("not-refused", "the output file exists, but the command reports success");
}
static PropReg r09({"C09", {"download", "convert", "topn"}, c09, "every run meets an existing output file or a rejected option combination", "hibp_download, hibp_convert and hibp_topn, CLI11, libstdc++ (filesystem, fstream), libcurl", STUB});

// ------------------------------------------------------------------ C10, C11: searching
std::vector<std::string> search_args(const Search& s, const std::string& db) {
  std::vector<std::string> a{db, s.by_pw ? s.pw : !s.raw.empty() ? s.raw : hexhash(s.q, s.k)};
  append(a, kind_args(s.k)); if (!s.by_pw) a.push_back("--hash");
  if (s.toc) { a.push_back("--toc"); if (s.bits != 20 || s.q.h[1] & 1) append(a, {"--toc-bits", std::to_string(s.bits)}); }      // 20: the default
  return a;
}
// the answer of a search that exited with status 0 must be the right one; one that failed must not give a wrong one
void check_answer(const Search& s, const Recs& db, const char* cls, const char* what, bool std_fault) {
  std::string rec, out = vfs_stdout(); int a = parse_answer(out, rec);
  const Rec* want = lookup(db, s.q, s.k);
  const std::string wl = want ? text_line(*want, s.k) : "";
  auto show = [&] { return std::string(s.toc ? "with table of contents of " + std::to_string(s.bits) + " bits " : "") + what + ", searching " + hexhash(s.q, s.k) + ": "; };
  if (exited_ok()) {
    if (a == 0) violation(cls, "%sexit 0 without an answer; stdout: %s", show().c_str(), tail(out).c_str());
    if (a < 0) violation(cls, "%scontradictory answers: %s", show().c_str(), tail(out).c_str());
    if (want && (a != 1 || rec != wl)) violation(cls, "%sanswered '%s', but the database holds %s", show().c_str(), a == 1 ? rec.c_str() : "not found", wl.c_str());
    if (!want && a != 2) violation(cls, "%sanswered 'found %s', but the database does not hold it", show().c_str(), rec.c_str());
    count(C_P_ANSWER_OK); count(want ? C_P_FOUND : C_P_NOTFOUND);
  } else if (exited_bad()) {
    count(C_P_ANSWER_ERR);
    if (std_fault) return;
    if (a != 0 && !(want && a == 1 && rec == wl) && !(!want && a == 2)) violation(cls, "%sfailed, but also printed the wrong answer: %s", show().c_str(), tail(out).c_str());
    if (a != 0) violation(cls, "%sprinted an answer and failed: %s", show().c_str(), end_desc().c_str());
  }
}
static const char* const pws[] = {"password", "123456", "qwerty", "hunter2", "letmein", "a", "correct horse", "p%40ss", "Zz9~_.-", "0", "admin", "iloveyou", "p\xC3\xA4ssw\xC3\xB6rd", "\xE2\x82\xAC""100", "\xF0\x9F\x94\x91\xF0\x9F\x94\x92", "\xEF\xBF\xBDx\xDF\xBF",
  "correct horse battery staple!!!", "correct horse battery staple, mo", "correct horse battery staple, more", "this passphrase has exactly fifty-five characters, yes!", "this passphrase has exactly fifty-six characters, yes!!!", "a passphrase of sixty-four characters, which fill one block each", "a passphrase of many more than sixty-four characters, of which nobody would ever type all into a prompt, let alone twice"};
static void add_pws(Rng& g, Recs& db, Kind k, unsigned bits, uint32_t entries) {
  for (auto p : pws) if (g.p(0.5)) {
    Rec r = pw_rec(p, k);
    if (bits) { uint32_t w = static_cast<uint32_t>(r.h[0]) << 24 | static_cast<uint32_t>(r.h[1]) << 16 | static_cast<uint32_t>(r.h[2]) << 8 | r.h[3]; if ((w >> (32 - bits)) >= entries) continue; }
    r.c = draw_count(g); db.push_back(r);
  }
  distinct(db, k);
}
static void c10() {
  Rng g(choose(S_WORK, 1u << 20));
  Search s; s.k = static_cast<Kind>(choose(S_WORK, 3));
  s.toc = choose(S_WORK, 3) == 2;
  Recs db; unsigned gb = 0;
  if (s.toc) {
    gb = 15 + pickw(S_WORK, {{2, 0}, {1, 1}, {1, 3}, {1, 5}, {1, 10}}); s.bits = 15 + choose(S_WORK, gb - 14);
    uint32_t e = pickw(S_WORK, {{2, 1}, {2, 3}, {2, 40}, {1, 300}, {0.15, 32768}}); if (e == 32768) { gb = s.bits = 15; }
    db = toc_db(g, s.k, gb, e, pickw(S_WORK, {{2, 1}, {2, 3}, {1, e > 1000 ? 2u : 200u}})); add_pws(g, db, s.k, gb, e);
  } else { db = random_db(g, s.k, draw_n(4096 / static_cast<size_t>(rlen(s.k)), true)); add_pws(g, db, s.k, 0, 0); if (choose(S_WORK, 20) == 19) db.clear(); }
  bool gap = false;
  if (s.toc && choose(S_WORK, 8) == 7) { if (choose(S_WORK, 2)) db = random_db(g, s.k, draw_n(100, false)); else if (db.size() > 2) { size_t i = 1 + choose(S_WORK, static_cast<uint32_t>(db.size() - 2)), e = std::min(db.size() - 1, i + 1 + g.below(static_cast<uint32_t>(db.size()))); db.erase(db.begin() + static_cast<long>(i), db.begin() + static_cast<long>(e)); } gap = has_gap(db, s.bits); }
  Huge huge;
  if (choose(S_WORK, 12) == 11) {
    gap = false; huge = put_huge("/w/db.bin", s.k, s.toc); db = huge.some;
    if (s.toc) { s.bits = 15 + choose(S_WORK, 6); const std::string t = huge_toc(huge, s.bits); vfs_put("/w/db.bin." + std::to_string(s.bits) + ".toc", t.data(), t.size(), W->now - 5 * SEC); }
  } else { std::string file = bin(db, s.k); vfs_put("/w/db.bin", file.data(), file.size(), W->now - 10 * SEC); }
  const uint32_t nq = db.size() > 3000 ? 2 : 2 + choose(S_WORK, 4);
  std::string desc;
  for (uint32_t i = 0; i < nq; ++i) {
    Opt o = tool_opt(); W->now += 20 * MS;
    const bool sf = choose(S_WORK, 8) == 7;
    Faults f = draw_tool_faults(o, !sf, sf, sf, huge.n && s.toc ? 1.0 : 0.3);      // a table that cannot be read would be built, from all of it
    if (huge.n) { o.sched.max_syscalls = 100000; count(C_P_HUGE); }
    if (sf && f.mode) snprintf(o.disk.only, sizeof o.disk.only, "/nothing");
    s.raw.clear();
    if (choose(S_WORK, 4) == 3) { s.by_pw = true; s.pw = pws[choose(S_WORK, sizeof pws / sizeof *pws)]; s.q = pw_rec(s.pw, s.k); } else { s.by_pw = false; s.q = draw_query(db, s.k); }
    if (!s.by_pw && choose(S_WORK, 12) == 11) {
      std::string& h = s.raw = hexhash(s.q, s.k); const uint32_t at = choose(S_WORK, static_cast<uint32_t>(h.size()));
      switch (choose(S_WORK, 6)) { case 0: h.pop_back(); break; case 1: h += '0'; break; case 2: h[at] = "GZ:/@`g. "[choose(S_WORK, 9)]; break; case 3: h.resize(1 + at / 2); break; case 4: h = s.k == K_SHA1 ? h.substr(0, 32) : h + "00000000"; break; default: h += ":1"; }
    }
    char b[300]; snprintf(b, sizeof b, "hibp-search, %s, %zu records%s%s, query %u of %u %s; %s", kind_name(s.k), huge.n ? huge.n : db.size(), s.toc ? ", table of contents, bits " : "", s.toc ? std::to_string(s.bits).c_str() : "", i + 1, nq, s.by_pw ? "by password" : s.raw.empty() ? "by hash" : "malformed", faults_desc(o, f).c_str());
    describe_run("%s%s", b, gap ? "; the database has gaps" : "");
    run_app("search", search_args(s, "db.bin"), o); clear_faults();
    if (faulted()) count(C_P_FAULT_HIT);
    if (huge.n && W->end_kind == E_STEPS) return;
    require_clean_end("search");
    if (!s.raw.empty()) {
      std::string rec; if (exited_ok()) violation("malformed-accepted", "'%s' is not a hash, but the search reports success: %s", s.raw.c_str(), tail(vfs_stdout()).c_str());
      if (parse_answer(vfs_stdout(), rec) != 0) violation("malformed-accepted", "'%s' is not a hash, but the search answers: %s", s.raw.c_str(), tail(vfs_stdout()).c_str());
      continue;
    }
    check_answer(s, db, "wrong-answer", "on a sorted database", sf);
    if (!exited_ok() && !faulted()) {
      if (s.toc && (db.empty() || gap)) continue;             // no table can be built
      violation("no-answer", "the search failed without a disk error: %s", end_desc().c_str());
    }
  }
}
static PropReg r10({"C10", {"search"}, c10, "every run searches at least twice", "hibp_search, toc.cpp, flat_file.hpp, CLI11, libstdc++; SHA-1 is a stand-in for the missing hash-library", STUB});

static void c11() {
  Rng g(choose(S_WORK, 1u << 20));
  Search s; s.k = static_cast<Kind>(choose(S_WORK, 3)); s.toc = true;
  unsigned gb = 15 + choose(S_WORK, 5);
  uint32_t per = pickw(S_WORK, {{2, 2}, {2, 5}, {1, 60}});
  auto gen = [&] { uint32_t e = pickw(S_WORK, {{2, 3}, {2, 1}, {2, 20}, {2, 100}, {0.5, 1100}}); return toc_db(g, s.k, gb, e, per); };
  Recs db = gen();
  auto put = [&] { std::string f = bin(db, s.k); vfs_put("/w/db.bin", f.data(), f.size(), 0); };   // time stamps have the granularity of the file system
  bool replaced = false;
  put(); W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 5 * MS;
  const uint32_t steps = 3 + choose(S_WORK, 6);
  std::string hist; uint32_t searches = 0;
  for (uint32_t st = 0; st < steps; ++st) {
    uint32_t act = pickw(S_WORK, {{5, 0}, {1.5, 1}, {0.8, 2}, {1, 3}});
    if (st + 1 == steps) act = 0;
    if (act == 1) {                                   // the database is replaced, by something similar or different
      if (choose(S_WORK, 2)) { Recs old = db; db.clear(); bool changed = false; for (size_t i = 0; i < old.size(); ++i) { bool first = i == 0 || memcmp(old[i].h, old[i - 1].h, 4) != 0; if (!first && g.p(0.2)) { changed = true; continue; } db.push_back(old[i]); if (g.p(0.3)) { Rec x = old[i]; for (int b = 4; b < hlen(s.k); ++b) x.h[b] = static_cast<uint8_t>(g.next() >> 30); x.c = draw_count(g); db.push_back(x); changed = true; } }
        (void)changed; distinct(db, s.k);
      } else db = gen();
      if (choose(S_WORK, 8) == 7 && db.size() > 3) { size_t i = 1 + choose(S_WORK, static_cast<uint32_t>(db.size() - 2)); db.erase(db.begin() + static_cast<long>(i), db.begin() + static_cast<long>(std::min(db.size() - 1, i + 1 + g.below(static_cast<uint32_t>(db.size()))))); }   // may leave gaps
      W->now += static_cast<int64_t>(choose(S_TIME, 4)) * 3 * MS;      // may fall into the same tick of the file system's clock
      put(); hist += " R"; trace("database replaced: %zu records", db.size());
      W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 3 * MS; replaced = true;
      continue;
    }
    if (act == 2) { W->now += static_cast<int64_t>(1 + choose(S_TIME, 100)) * SEC; hist += " T"; continue; }
    if (act == 3) {                                   // a table that lost its tail (crash of the machine, full disk of an older version)
      std::vector<std::string> t; for (auto& p : vfs_list()) if (p.size() > 4 && p.substr(p.size() - 4) == ".toc") t.push_back(p);
      if (t.empty()) continue;
      std::string p = t[choose(S_WORK, static_cast<uint32_t>(t.size()))], c = vfs_get(p); if (c.empty()) continue;
      Inode* ino = vfs_find(p.c_str()); size_t n = choose(S_WORK, 3) == 0 ? choose(S_WORK, static_cast<uint32_t>(c.size())) : c.size() - 1 - choose(S_WORK, static_cast<uint32_t>(std::min<size_t>(c.size(), 9)) );
      if (n > c.size()) n = 0;
      int64_t mt = ino->mtime; std::string cut = c.substr(0, n);
      if (choose(S_WORK, 3) == 2) cut.resize(c.size(), '\0');         // size kept, data lost
      if (cut == c) continue;
      vfs_put(p, cut.data(), cut.size(), mt); hist += " D"; count(C_P_TOC_STALE); trace("%s damaged: %zu of %zu bytes left", p.c_str(), n, c.size());
      continue;
    }
    s.bits = choose(S_WORK, 3) == 0 ? 15 + choose(S_WORK, gb - 14) : gb;
    s.q = draw_query(db, s.k);
    if (choose(S_WORK, 2)) { s.q = db[choose(S_WORK, static_cast<uint32_t>(db.size()))]; s.q.c = -1; }      // any record may have moved
    Opt o = tool_opt(); Faults f; bool killed = false;
    if (replaced && choose(S_WORK, 3) == 2) { f.mode = 2; o.disk.on = true; o.disk.max_hard = 1; o.disk.nth_stat = 1 + choose(S_WORK, 9); }      // which of the questions about the files' ages fails
    else switch (pickw(S_WORK, {{3, 0}, {2, 1}, {2, 2}})) {
    case 0: break;
    case 1: crash_somewhere(o, 6); killed = true; break;
    case 2: f = draw_tool_faults(o, true, true, false, 0.05); break;
    }
    if (st + 1 == steps && choose(S_WORK, 2)) { o = tool_opt(); f = Faults{}; killed = false; clear_faults(); }
    ++searches; count(C_P_HISTLEN);
    hist += killed ? " K" : f.mode ? " F" : " S"; hist += std::to_string(s.bits);
    describe_run("hibp-search --toc, %s, history (S search, K killed, F disk fault, R replaced, D table damaged, T time passes):%s; %zu records; last: %s", kind_name(s.k), hist.c_str(), db.size(), faults_desc(o, f).c_str());
    const std::string dbf = vfs_get("/w/db.bin");
    const bool had = vfs_exists("/w/db.bin." + std::to_string(s.bits) + ".toc");
    run_app("search", search_args(s, "db.bin"), o); clear_faults();
    if (faulted()) count(C_P_FAULT_HIT);
    count(vfs_stdout().find("loading") != std::string::npos ? C_P_TOC_LOAD : C_P_TOC_BUILD);
    W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 2 * MS;
    require_clean_end("search with a table of contents", true);
    if (W->end_kind == E_CRASH) continue;
    replaced = false;
    check_answer(s, db, had ? "wrong-answer-existing-toc" : "wrong-answer", ("after history" + hist).c_str(), false);
    if (!exited_ok() && !faulted() && !killed && !has_gap(db, s.bits)) violation("no-answer", "after history%s the search failed without a disk error: %s", hist.c_str(), end_desc().c_str());
    if (vfs_get("/w/db.bin") != dbf) violation("db-changed", "the search changed the database");
  }
  if (!searches) run_trivial();
}
static PropReg r11({"C11", {"search"}, c11, "at least one search with a table of contents ran; the histories mix searches, kills, faults, damage and replacements", "hibp_search, toc.cpp, flat_file.hpp, libstdc++ (filesystem, fstream)", STUB});

// ------------------------------------------------------------------ C12
static void c12() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  bool by_count = choose(S_WORK, 2);
  size_t n; uint32_t mem = 1000;
  const uint32_t shape = pickw(S_WORK, {{4, 0}, {3, 1}, {0.15, 2}, {0.15, 3}});
  if (shape == 0) { n = 1 + choose(S_WORK, 45); mem = 0; }                           // one record per chunk
  else if (shape == 1) { n = draw_n(4096 / static_cast<size_t>(rlen(k)), true); mem = 1 + choose(S_WORK, 2); }
  else if (shape == 2) { n = 30000 + choose(S_WORK, 70000); mem = 1; }             // chunks of 1 MB
  else { mem = 1; n = (1u << 20) / static_cast<size_t>(rlen(k)) * (1 + choose(S_WORK, 2)) + choose(S_WORK, 5) - 2; }      // about a whole number of chunks
  Recs db = random_db(g, k, shape == 3 ? n + n / 16 : n); if (shape == 3) db.resize(std::min(n, db.size()));
  const uint32_t dup = choose(S_WORK, 3);                                         // equal counts, equal hashes
  if (dup) for (auto& r : db) if (g.p(0.5)) r.c = 1 + static_cast<int32_t>(g.below(3));
  if (dup == 2 && db.size() > 2) for (size_t i = 0; i + 1 < db.size(); ++i) if (g.p(0.1)) memcpy(db[i + 1].h, db[i].h, 20);
  switch (choose(S_WORK, 4)) { case 0: break; case 1: std::reverse(db.begin(), db.end()); break; default: for (size_t i = db.size(); i > 1; --i) std::swap(db[i - 1], db[g.below(static_cast<uint32_t>(i))]); }
  if (choose(S_WORK, 30) == 29) db.clear();
  std::string in = bin(db, k); const uint32_t where = choose(S_WORK, 4);
  const std::string D = where == 2 ? "/w/sub dir/db.bin" : "/w/db.bin", arg = where == 1 ? "/w/db.bin" : where == 2 ? "sub dir/db.bin" : where == 3 ? "./db.bin" : "db.bin";
  vfs_put(D, in.data(), in.size(), W->now - SEC);
  const bool leftovers = choose(S_WORK, 4) == 3;
  if (leftovers) { std::string j = junk(g, 24 * 7); vfs_put(D + ".partial.0000", j.data(), j.size(), W->now - 2 * SEC); if (choose(S_WORK, 2)) vfs_put(D + ".sorted", j.data(), j.size() - 5, W->now - 2 * SEC); }
  const uint32_t attempts = 1 + choose(S_WORK, 3); std::set<std::string> stale;     // chunks of an earlier, larger sort, which this one has no reason to know
  for (uint32_t at = 0; at < attempts; ++at) {
    if (at) switch (choose(S_WORK, 6)) {      // what earlier attempts left behind must not matter, also to a different sort
    case 0: case 1: by_count = !by_count; break;
    case 2: if (shape == 1) mem = 1 + choose(S_WORK, 2); break;
    case 3: for (size_t i = db.size(); i > 1; --i) std::swap(db[i - 1], db[g.below(static_cast<uint32_t>(i))]); for (auto& r : db) if (g.p(0.3)) r.c = draw_count(g); in = bin(db, k); vfs_put(D, in.data(), in.size(), W->now); break;
    case 4: if (shape == 0 && db.size() > 1) { for (auto& p : vfs_list()) if (p.find(".partial.") != std::string::npos) stale.insert(p); db.resize(1 + g.below(static_cast<uint32_t>(db.size()))); in = bin(db, k); vfs_put(D, in.data(), in.size(), W->now); } break;
    default: break;
    }
    std::vector<std::string> a{"-i", arg, "--max-memory", std::to_string(mem)}; if (by_count) a.push_back("--sort-by-count"); if (k == K_NTLM) a.push_back("--ntlm");
    Opt o = tool_opt(); Faults f; bool kill = false;
    if (at + 1 < attempts || choose(S_WORK, 2)) {
      if (choose(S_WORK, 2)) { crash_somewhere(o, static_cast<uint32_t>(4 + (shape == 0 ? n * 3 : n / 300))); kill = true; }
      else f = draw_tool_faults(o, true, true, false, 0.1);
    }
    describe_run("hibp-sort%s, %zu records, %s%s, attempt %u of %u; %s", args_desc(a).c_str(), db.size(), dup == 2 ? "equal hashes" : dup ? "equal counts" : "distinct", leftovers ? ", leftovers of an earlier run" : "", at + 1, attempts, faults_desc(o, f).c_str());
    run_app("sort", a, o); clear_faults();
    if (faulted()) count(C_P_FAULT_HIT);
    if (vfs_get(D) != in || !vfs_exists(D)) violation("input-changed", "the input was changed: %s", db_diff(vfs_get(D), in, rlen(k)).c_str());
    require_clean_end("sort", kill);
    if (exited_ok()) {
      count(C_P_CLEANRUN);
      if (!vfs_exists(D + ".sorted")) violation("no-output", "exit 0, but there is no sorted file");
      std::string s = vfs_get(D + ".sorted");
      if (s.size() != in.size()) violation("not-a-permutation", "the sorted file has %zu bytes, the input %zu", s.size(), in.size());
      Recs got = parse_bin(s, k);
      for (size_t i = 1; i < got.size(); ++i) {
        const int c = got[i - 1].cmp(got[i], k);
        if (by_count ? (got[i - 1].c < got[i].c || (got[i - 1].c == got[i].c && c > 0)) : c > 0)
          violation("not-sorted", "records %zu and %zu are out of order: %s, %s", i - 1, i, text_line(got[i - 1], k).c_str(), text_line(got[i], k).c_str());
      }
      auto full = [k](const Rec& x, const Rec& y) { int c = x.cmp(y, k); return c ? c < 0 : x.c < y.c; };
      Recs want = db; std::sort(want.begin(), want.end(), full); std::sort(got.begin(), got.end(), full);
      if (bin(got, k) != bin(want, k)) violation("not-a-permutation", "the sorted file is not a permutation of the input: %s", db_diff(bin(got, k), bin(want, k), rlen(k)).c_str());
      if (!db.empty()) for (auto& p : vfs_list()) if (p.find(".partial.") != std::string::npos && !stale.count(p)) violation("chunk-left", "%s is left after a successful sort", p.c_str());
    } else if (exited_bad() && !faulted()) violation("failed", "hibp-sort failed without a disk error: %s", end_desc().c_str());
  }
  if (shape != 1) count(C_P_CHUNKS_MULTI);
}
static PropReg r12({"C12", {"sort"}, c12, "every run sorts at least once", "hibp_sort, flat_file.hpp, libstdc++", STUB});

// ------------------------------------------------------------------ C13
static void c13() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = static_cast<Kind>(choose(S_WORK, 3));
  Recs db = random_db(g, k, draw_n(65536 / static_cast<size_t>(rlen(k)), true));
  if (choose(S_WORK, 2)) for (auto& r : db) if (g.p(0.8)) r.c = 1 + static_cast<int32_t>(g.below(4));
  if (choose(S_WORK, 4) == 3) for (size_t i = db.size(); i > 1; --i) std::swap(db[i - 1], db[g.below(static_cast<uint32_t>(i))]);
  size_t n = db.size(), N = 0;
  switch (choose(S_WORK, 5)) { case 0: N = n ? n - 1 : 0; break; case 1: N = choose(S_WORK, static_cast<uint32_t>(n) + 1); break; case 2: N = std::min<size_t>(n, 1 + choose(S_WORK, 5)); break; case 3: N = choose(S_WORK, static_cast<uint32_t>(n) + 1); break; default: N = std::min<size_t>(n, 999 + choose(S_WORK, 3)); }
  if (choose(S_WORK, 12) == 11) N = n + choose(S_WORK, 3);
  const bool sout = choose(S_WORK, 3) == 2; const bool existing = !sout && choose(S_WORK, 3) == 2;
  const std::string in = bin(db, k); vfs_put("/w/in.bin", in.data(), in.size(), W->now - SEC);
  if (existing) { std::string j = junk(g, 5000); vfs_put("/w/out.bin", j.data(), j.size(), W->now - SEC); }
  std::vector<std::string> a{"in.bin", "-N", std::to_string(N)}; append(a, kind_args(k));
  if (sout) a.push_back("--stdout"); else { a.push_back("-o"); a.push_back("out.bin"); if (existing) a.push_back("--force"); }
  Opt o = tool_opt(); Faults f = draw_tool_faults(o, true, true, sout, 0.25);
  describe_run("hibp-topn%s, %zu records; %s", args_desc(a).c_str(), db.size(), faults_desc(o, f).c_str());
  run_app("topn", a, o); clear_faults();
  if (faulted()) count(C_P_FAULT_HIT);
  if (vfs_get("/w/in.bin") != in || !vfs_exists("/w/in.bin")) violation("input-changed", "the input was changed");
  require_clean_end("topn");
  if (!exited_ok()) {
    if (!faulted() && N < n) violation("failed", "hibp-topn failed without a disk error: %s", end_desc().c_str());
    return;
  }
  count(C_P_CLEANRUN);
  Recs want = db; sort_count(want, k); want.resize(std::min(N, n)); sort_hash(want, k);
  std::string got = sout ? vfs_stdout() : vfs_get("/w/out.bin");
  if (got != bin(want, k)) violation(faulted() ? "success-after-fault" : "wrong-output", "exit 0, but the output is wrong: %s", db_diff(got, bin(want, k), rlen(k)).c_str());
}
static PropReg r13({"C13", {"topn"}, c13, "every run selects the top N of one database", "hibp_topn, flat_file.hpp, libstdc++", STUB});

// ------------------------------------------------------------------ C14
static void c14() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  Recs db = random_db(g, k, draw_n(4096 / static_cast<size_t>(rlen(k)), true));
  const size_t n = db.size();
  bool t2b = choose(S_WORK, 2);
  const bool round = choose(S_WORK, 3) == 2;
  std::string B = bin(db, k), T = text(db, k);
  std::string Tin = T; const uint32_t style = choose(S_WORK, 4);
  if (style == 1 && !Tin.empty()) Tin.pop_back();                                  // no newline at the end
  if (style == 2) { Tin.clear(); for (auto& r : db) Tin += text_line(r, k) + "\r\n"; }
  size_t limit = SIZE_MAX; if (choose(S_WORK, 3) == 2) limit = choose(S_WORK, 4) == 0 ? n : choose(S_WORK, static_cast<uint32_t>(n) + 3);
  for (int pass = 0; pass < (round ? 2 : 1); ++pass, t2b = !t2b) {
    const bool sin = t2b && choose(S_WORK, 3) == 2, sout = choose(S_WORK, 3) == 2, existing = !sout && choose(S_WORK, 4) == 3;
    const std::string in = t2b ? (pass == 0 ? Tin : T) : B;
    const char* inname = t2b ? "in.txt" : "in.bin"; const char* outname = t2b ? "out.bin" : "out.txt";
    vfs_put(std::string("/w/") + inname, in.data(), in.size(), W->now - SEC);
    if (sin) vfs_set_stdin(in.data(), in.size());
    vfs_remove(std::string("/w/") + outname);
    if (existing) { std::string j = junk(g, 300 + g.below(200000)); vfs_put(std::string("/w/") + outname, j.data(), j.size(), W->now - SEC); }
    std::vector<std::string> a{t2b ? "--txt-to-bin" : "--bin-to-txt"};
    if (sin) a.push_back("--stdin"); else append(a, {"-i", inname});
    if (sout) a.push_back("--stdout"); else append(a, {"-o", outname});
    if (existing) a.push_back("--force");
    if (k == K_NTLM) a.push_back("--ntlm");
    const size_t lim = pass == 0 ? limit : SIZE_MAX;
    if (lim != SIZE_MAX) append(a, {"--limit", std::to_string(lim)});
    if (pass == 1 && limit < n) { Recs c(db.begin(), db.begin() + static_cast<long>(limit)); db = c; B = bin(db, k); T = text(db, k);
      const std::string in2 = t2b ? T : B; vfs_put(std::string("/w/") + inname, in2.data(), in2.size(), W->now - SEC); if (sin) vfs_set_stdin(in2.data(), in2.size()); }
    const std::string input = vfs_get(std::string("/w/") + inname);
    Opt o = tool_opt(); Faults f = draw_tool_faults(o, true, true, sin || sout, 0.25);
    describe_run("hibp-convert%s, %zu records%s, pass %d; %s", args_desc(a).c_str(), db.size(), style == 1 ? ", no final newline" : style == 2 ? ", CRLF" : "", pass + 1, faults_desc(o, f).c_str());
    run_app("convert", a, o); clear_faults();
    if (faulted()) count(C_P_FAULT_HIT);
    if (vfs_get(std::string("/w/") + inname) != input) violation("input-changed", "the input was changed");
    require_clean_end("convert");
    if (!exited_ok()) { if (!faulted()) violation("failed", "hibp-convert failed without a disk error: %s", end_desc().c_str()); return; }
    count(C_P_CLEANRUN);
    Recs w = db; if (lim < w.size()) w.resize(lim);
    const std::string want = t2b ? bin(w, k) : text(w, k), got = sout ? vfs_stdout() : vfs_get(std::string("/w/") + outname);
    if (!sout && !vfs_exists(std::string("/w/") + outname)) violation("no-output", "exit 0 without an output file");
    if (got != want) violation(faulted() ? "success-after-fault" : "wrong-output", "exit 0, but the output is wrong: %s", db_diff(got, want, t2b ? rlen(k) : 0).c_str());
  }
}
static PropReg r14({"C14", {"convert"}, c14, "every run converts at least once", "hibp_convert, flat_file.hpp, hibp.hpp, libstdc++", STUB});

// ------------------------------------------------------------------ C15
// another count, which may differ in one bit only
static int32_t other_count(Rng& g, int32_t c) {
  switch (g.below(3)) { case 0: return c == 5 ? 6 : 5; case 1: { int32_t n = static_cast<int32_t>(static_cast<uint32_t>(c) ^ 1u << g.below(31)); return n > 0 ? n : c == 9 ? 8 : 9; } default: { int32_t n = draw_count(g); return n != c ? n : c == 1 ? 2 : c - 1; } }
}
// "!..." the report makes no sense, "?..." it gives something else
std::string diff_error(const Recs& old, const Recs& nw, const std::string& out, Kind k) {
  std::vector<std::vector<Rec>> before(old.size() + 1); Recs cur = old; size_t i = 0;
  while (i < out.size()) {
    size_t j = out.find('\n', i); if (j == std::string::npos) return "!the report ends inside a line: " + tail(out, 80);
    std::string l = out.substr(i, j - i); i = j + 1;
    if (l.size() < 12 + static_cast<size_t>(hlen(k)) * 2 || (l[0] != 'I' && l[0] != 'U') || l[1] != ':' || l[10] != ':') return "!strange line in the report: " + l;
    size_t pos = strtoull(l.substr(2, 8).c_str(), nullptr, 16);
    Rec r{}; from_hex(r, l.substr(11, static_cast<size_t>(hlen(k)) * 2)); r.c = static_cast<int32_t>(strtol(l.c_str() + 12 + hlen(k) * 2, nullptr, 10));
    if (pos > old.size() || (l[0] == 'U' && pos >= old.size())) return "!position out of range: " + l + " (" + std::to_string(old.size()) + " records)";
    if (l[0] == 'U') cur[pos] = r; else before[pos].push_back(r);
  }
  Recs got; for (size_t p = 0; p <= old.size(); ++p) { got.insert(got.end(), before[p].begin(), before[p].end()); if (p < old.size()) got.push_back(cur[p]); }
  if (bin(got, k) != bin(nw, k)) return "?the report applied to the old database does not give the new one: " + db_diff(bin(got, k), bin(nw, k), rlen(k));
  return "";
}
std::string dupes_report(const Recs& db, Kind k, unsigned bits) {
  std::string want; auto top = [&](const Rec& r) { uint64_t v = 0; for (int i = 0; i < 8; ++i) v = v << 8 | r.h[i]; return v >> (64 - bits); };
  for (size_t i = 1; i < db.size(); ++i) if (top(db[i]) == top(db[i - 1])) { char b[120]; snprintf(b, sizeof b, "%016llX is a dupe (orig record: %s)\n", (unsigned long long)top(db[i]), text_line(db[i], k).c_str()); want += b; }
  return want;
}
static void c15_diff() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  Recs old = random_db(g, k, draw_n(65536 / static_cast<size_t>(rlen(k)), true)), nw;
  if (choose(S_WORK, 20) == 19) old.clear();
  static const double ps[] = {0, 0.002, 0.05, 0.4};
  const double pi = ps[choose(S_WORK, 4)], pu = ps[choose(S_WORK, 4)]; const bool del = choose(S_WORK, 4) == 3; const uint32_t burst = 1 + choose(S_WORK, 4);
  bool deleted = false;
  auto ins = [&](const Rec* lo) { uint32_t m = 1 + g.below(burst); for (uint32_t i = 0; i < m; ++i) { Rec x{}; for (auto& b : x.h) b = static_cast<uint8_t>(g.next() >> 30); if (lo) memcpy(x.h, lo->h, 2 + g.below(g.p(0.3) ? static_cast<uint32_t>(hlen(k)) - 2 : 5)); x.c = draw_count(g); nw.push_back(x); } };
  if (g.p(pi)) ins(nullptr);
  const size_t focus = old.empty() ? 0 : static_cast<size_t>(65536 / rlen(k)) * (1 + g.below(2));       // around a buffer boundary
  for (size_t i = 0; i < old.size(); ++i) {
    const bool near = i + 2 >= focus && i <= focus + 2;
    if (del && g.p(old.size() > 100 ? 0.002 : 0.1)) { deleted = true; continue; }
    nw.push_back(old[i]);
    if (g.p(near && pu > 0 ? 0.5 : pu)) nw.back().c = other_count(g, nw.back().c);
    if (g.p(near && pi > 0 ? 0.5 : pi)) ins(&old[i]);
  }
  if (choose(S_WORK, 4) == 3) { uint32_t m = 1 + choose(S_WORK, 5); for (uint32_t i = 0; i < m; ++i) { Rec x{}; memset(x.h, 0xFE, 20); x.h[19] = static_cast<uint8_t>(i); x.h[7] = static_cast<uint8_t>(i); x.h[0] = 0xFF; x.c = 3; nw.push_back(x); } }
  { Recs all = nw; sort_hash(all, k); Recs u; for (auto& r : all) { if (u.empty() || u.back().cmp(r, k) != 0) u.push_back(r); else if (lookup(old, r, k) && false) {} } nw = u; }
  // inserted records must not replace an existing one of the same hash
  std::string fo = bin(old, k), fn = bin(nw, k);
  { std::set<std::string> h; for (auto& r : nw) h.insert(std::string(reinterpret_cast<const char*>(r.h), static_cast<size_t>(hlen(k)))); deleted = false; for (auto& r : old) if (!h.count(std::string(reinterpret_cast<const char*>(r.h), static_cast<size_t>(hlen(k))))) deleted = true; }
  vfs_put("/w/old.bin", fo.data(), fo.size(), W->now - SEC); vfs_put("/w/new.bin", fn.data(), fn.size(), W->now - SEC);
  std::vector<std::string> a{"old.bin", "new.bin"}; if (k == K_NTLM) a.push_back("--ntlm");
  Opt o = tool_opt(); Faults f = draw_tool_faults(o, true, true, true, 0.3);
  describe_run("hibp-diff%s: %zu -> %zu records, inserts %.3f in bursts of %u, updates %.3f%s; %s", k == K_NTLM ? " --ntlm" : "", old.size(), nw.size(), pi, burst, pu, deleted ? ", records lost" : "", faults_desc(o, f).c_str());
  run_app("diff", a, o); clear_faults();
  if (faulted()) count(C_P_FAULT_HIT);
  require_clean_end("diff");
  if (!exited_ok()) { if (!faulted() && !deleted) violation("failed", "hibp-diff failed although no record was lost and no disk error happened: %s", end_desc().c_str()); return; }
  if (deleted) violation("lost-records-accepted", "the new database lost records, but hibp-diff exits with success");
  count(C_P_CLEANRUN);
  const std::string err = diff_error(old, nw, vfs_stdout(), k);
  if (!err.empty()) violation(err[0] == '!' ? "bad-report" : faulted() ? "success-after-fault" : "wrong-report", "exit 0, but %s", err.c_str() + 1);
}
static void c15_dupes() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  Recs db = random_db(g, k, draw_n(65536 / static_cast<size_t>(rlen(k)), true));
  const unsigned bits = pickw(S_WORK, {{3, 64}, {1, 32}, {1, 63}, {1, 33}, {2, 40}, {1, 56}});
  if (choose(S_WORK, 5) == 4 && !db.empty()) memset(db.back().h, 0xFF, 20);
  for (size_t i = 1; i < db.size(); ++i) if (g.p(db.size() > 500 ? 0.01 : 0.2)) {
    memcpy(db[i].h, db[i - 1].h, bits / 8); if (bits % 8) { uint8_t m = static_cast<uint8_t>(0xFF << (8 - bits % 8)); db[i].h[bits / 8] = static_cast<uint8_t>((db[i].h[bits / 8] & ~m) | (db[i - 1].h[bits / 8] & m)); }
    if (g.p(0.2)) db[i].h[bits / 8 ? bits / 8 - 1 : 0] ^= 1;
  }
  if (choose(S_WORK, 3)) { sort_hash(db, k); }
  if (choose(S_WORK, 12) == 11) { std::reverse(db.begin(), db.end()); }
  const size_t fb = static_cast<size_t>(65536 / rlen(k)); if (db.size() > fb && choose(S_WORK, 2)) memcpy(db[fb].h, db[fb - 1].h, 8);
  std::string in = bin(db, k); vfs_put("/w/db.bin", in.data(), in.size(), W->now - SEC);
  std::vector<std::string> a{"db.bin"}; if (bits != 64 || choose(S_WORK, 2)) append(a, {"--bits", std::to_string(bits)});
  if (k == K_NTLM) a.push_back("--ntlm");
  Opt o = tool_opt(); Faults f = draw_tool_faults(o, true, true, true, 0.3);
  describe_run("hibp-dupes%s, %zu records; %s", args_desc(a).c_str(), db.size(), faults_desc(o, f).c_str());
  run_app("dupes", a, o); clear_faults();
  if (faulted()) count(C_P_FAULT_HIT);
  require_clean_end("dupes");
  if (!exited_ok()) { if (!faulted()) violation("failed", "hibp-dupes failed without a disk error: %s", end_desc().c_str()); return; }
  count(C_P_CLEANRUN);
  const std::string want = dupes_report(db, k, bits);
  std::string out = vfs_stdout(); size_t nl = out.find('\n');
  if (nl == std::string::npos) violation("bad-report", "exit 0, but the report is incomplete: %s", tail(out).c_str());
  std::string got = out.substr(nl + 1);
  if (got != want) violation(faulted() ? "success-after-fault" : "wrong-report", "exit 0, but the list of duplicates is wrong: %s", db_diff(got, want, 0).c_str());
}
static void c15() { if (choose(S_WORK, 3) == 2) c15_dupes(); else c15_diff(); }
static PropReg r15({"C15", {"diff", "dupes"}, c15, "every run makes one report", "hibp_diff, hibp_dupes, diffutils.cpp, flat_file.hpp, libstdc++", STUB});
