// C20: a chain of tools. One produces a database and is interrupted, others read what is there, until the producer gets through.
#include "tools.h"
#include "origin.h"
#include <cstdio>

void chain_server(Kind k, const std::string& file, const Recs& have, bool may_refuse, unsigned bits);      // sc_server.cpp
namespace {
struct Chain {
  uint32_t producer = 0; Kind k = K_SHA1; Recs want; std::string X, F, old; bool fresh = true;     // X: the complete result, F: its file
  std::vector<RangeData> data; OriginCfg oc; uint32_t par = 1; SchedCfg sched; uint32_t N = 0, mem = 0; bool sin = false; std::string hist;
};
const char* const prod[] = {"download", "convert", "topn", "sort"};
bool clean(const Opt& o, const Faults& f) { return f.mode == 0 && !o.crash.at_vfs && !o.crash.at_sys; }
const char* mark(const Opt& o, const Faults& f) { return o.crash.at_vfs || o.crash.at_sys ? "(killed)" : f.mode == 1 ? "(short transfers)" : f.mode == 2 ? "(disk error)" : f.mode == 3 ? "(disk full)" : ""; }
// returns whether the producer reported success
bool produce(Chain& c, bool interrupt) {
  Opt o = tool_opt(); Faults f; std::vector<std::string> a; W->now += static_cast<int64_t>(choose(S_TIME, 4)) * 2 * MS;
  const bool there = vfs_exists(c.F); bool dead = false;
  const std::string was = vfs_get(c.F);
  if (interrupt) switch (pickw(S_WORK, {{2, 0}, {2, 1}, {c.producer == 0 ? 1.5 : 0.0, 2}})) {
  case 0: crash_somewhere(o, c.producer == 3 ? 12 : 6); break;
  case 1: f = draw_tool_faults(o, true, true, false, 0.02); break;
  case 2: dead = true; break;
  }
  bool force = false;
  switch (c.producer) {
  case 0: {
    o.sched = c.sched; OriginCfg oc = c.oc; oc.data = &c.data; oc.kind = c.k == K_NTLM ? K_NTLM : K_SHA1; oc.quota.assign(c.data.size(), 0);
    if (dead) { oc.kinds = {F_STATUS, F_TRUNC, F_RST_MID, F_TRUNC_CHUNKED}; oc.quota[choose(S_WORK, static_cast<uint32_t>(c.data.size()))] = 255; }
    origin_log_new(c.data); o.setup = [oc] { static OriginCfg keep; keep = oc; origin_install(keep); };
    a = {"f.bin", "--testing", "--limit", std::to_string(c.data.size()), "--parallel-max", std::to_string(c.par)}; if (choose(S_WORK, 2)) a.push_back("--no-progress");
    if (there && c.fresh) { a.push_back("--force"); force = true; } else if (there) a.push_back("--resume");
    break; }
  case 1: if (c.sin) { const std::string t = text(c.want, c.k); vfs_set_stdin(t.data(), t.size()); a = {"--txt-to-bin", "--stdin", "-o", "f.bin"}; } else a = {"--txt-to-bin", "-i", "in.txt", "-o", "f.bin"}; if (there) { a.push_back("--force"); force = true; } break;
  case 2: a = {"in.bin", "-N", std::to_string(c.N), "-o", "f.bin"}; if (there) { a.push_back("--force"); force = true; } break;
  default: a = {"-i", "in.bin", "--max-memory", std::to_string(c.mem)}; force = true;
  }
  for (auto& x : kind_args(c.k)) a.push_back(x);
  c.hist += std::string(c.hist.empty() ? "" : ", ") + prod[c.producer] + (dead ? "(range lost)" : mark(o, f));
  describe_run("%s, %zu records; %s: hibp-%s%s; %s", kind_name(c.k), c.want.size(), c.hist.c_str(), prod[c.producer], args_desc(a).c_str(), faults_desc(o, f).c_str());
  run_app(prod[c.producer], a, o); clear_faults(); count(C_P_HISTLEN); if (faulted()) count(C_P_FAULT_HIT);
  require_clean_end(prod[c.producer], true);
  const std::string got = vfs_get(c.F);
  if (exited_ok()) { c.fresh = false; if (!vfs_exists(c.F) || got != c.X) violation("wrong-output", "after %s: exit 0, but the database is wrong: %s", c.hist.c_str(), db_diff(got, c.X, rlen(c.k)).c_str()); return true; }
  const bool untouched = vfs_exists(c.F) == there && got == was;
  if (force && untouched) return false;                  // gave up before replacing anything
  if (vfs_exists(c.F)) c.fresh = false;
  if (got.size() > c.X.size() || c.X.compare(0, got.size(), got) != 0) violation("bad-remains", "after %s the database is not a prefix of the result: %s (%s)", c.hist.c_str(), db_diff(got, c.X, rlen(c.k)).c_str(), end_desc().c_str());
  if (clean(o, f) && !dead && !faulted() && !(c.producer == 0 && got == c.X)) violation("failed", "after %s the producer failed without any further fault: %s", c.hist.c_str(), end_desc().c_str());
  return c.producer == 0 && got == c.X && clean(o, f) && !dead;          // nothing left to do
}
void consume(Chain& c, bool disturb) {
  const std::string file = vfs_get(c.F), name = c.F.substr(3); const bool there = vfs_exists(c.F); const Kind k = c.k;
  const Recs have = parse_bin(file, k); const bool torn = file.size() % static_cast<size_t>(rlen(k)) != 0;
  W->now += static_cast<int64_t>(choose(S_TIME, 4)) * 2 * MS;
  Opt o = tool_opt(); Faults f;
  const double t = k == K_T64 ? 0 : 1;                    // tools without that format
  const uint32_t what = pickw(S_WORK, {{4, 0}, {1, 1}, {t, 2}, {1 * t, 3}, {0.7 * t, 4}, {0.7 * t, 5}, {0.6 * t, 6}, {0.8, 7}});
  if (disturb && what != 7) switch (pickw(S_WORK, {{3, 0}, {1, 1}, {1, 2}})) {
  case 1: crash_somewhere(o, 6); break;
  case 2: f = draw_tool_faults(o, true, what <= 3, false, 0.02); break;
  }
  static const char* const names[] = {"search", "topn", "sort", "convert", "diff", "diff", "dupes", "server"};
  std::vector<std::string> a; Search s; s.k = k; std::string want, out; bool sout = false, must_fail = !there, may_fail = torn; unsigned bits = 0; std::string side;
  // gaps come with the selection of the most common ones, and with an empty file
  bits = 15 + choose(S_WORK, 6); const bool toc = choose(S_WORK, 2); const bool notoc = have.empty() || has_gap(have, bits);
  switch (what) {
  case 0: s.toc = toc; s.bits = bits; s.q = draw_query(choose(S_WORK, 2) ? have : c.want, k); a = search_args(s, name); may_fail |= toc && notoc; break;
  case 1: { const size_t n = choose(S_WORK, static_cast<uint32_t>(have.size()) + 1); a = {name, "-N", std::to_string(n)}; if ((sout = choose(S_WORK, 3) == 2)) a.push_back("--stdout"); else { a.insert(a.end(), {"-o", "out", "--force"}); out = "/w/out"; }
    may_fail |= n >= have.size(); Recs w = have; sort_count(w, k); w.resize(std::min(n, w.size())); sort_hash(w, k); want = bin(w, k); break; }
  case 2: { Recs w = have; a = {"-i", name, "--max-memory", have.size() < 40 && choose(S_WORK, 2) ? "0" : "1"}; if (choose(S_WORK, 2)) { a.push_back("--sort-by-count"); sort_count(w, k); } else sort_hash(w, k); want = bin(w, k); out = c.F + ".sorted"; break; }
  case 3: a = {"--bin-to-txt", "-i", name}; if ((sout = choose(S_WORK, 3) == 2)) a.push_back("--stdout"); else { a.insert(a.end(), {"-o", "out", "--force"}); out = "/w/out"; } want = text(have, k); break;
  case 4: a = {name, "full.bin"}; sout = true; break;
  case 5: a = {"full.bin", name}; sout = true; must_fail |= have.size() < c.want.size(); break;       // records were lost
  case 6: a = {name, "--bits", "40"}; sout = true; want = dupes_report(have, k, 40); break;
  }
  if (what) for (auto& x : kind_args(k)) a.push_back(x);
  c.hist += std::string(", ") + names[what] + (what == 0 && toc ? "+" + std::to_string(bits) : what == 7 && toc ? "+" + std::to_string(bits) : "") + mark(o, f);
  const std::string state = !there ? "missing" : std::to_string(have.size()) + " of " + std::to_string(c.want.size()) + " records" + (torn ? " and a piece" : "");
  describe_run("%s, %s; %s: hibp-%s%s; %s", kind_name(k), state.c_str(), c.hist.c_str(), names[what], args_desc(a).c_str(), faults_desc(o, f).c_str());
  const std::string show = "after " + c.hist + ", on a database " + (there ? "with " : "") + state + ", hibp-" + names[what];
  if (what == 7) chain_server(k, name, have, torn || !there || (toc && notoc), toc ? bits : 0);
  else {
    run_app(names[what], a, o); clear_faults(); count(C_P_HISTLEN); if (faulted()) count(C_P_FAULT_HIT);
    require_clean_end(names[what], true);
    const std::string got = sout ? vfs_stdout() : out.empty() ? "" : vfs_get(out);
    if (W->end_kind == E_EXIT) {
      if (must_fail && exited_ok()) violation("not-refused", "%s reports success: %s", show.c_str(), tail(vfs_stdout(), 120).c_str());
      if (what == 0) check_answer(s, have, "wrong-answer", show.c_str(), false);
      else if (exited_ok()) {
        if (what == 4 || what == 5) { const std::string e = what == 4 ? diff_error(have, c.want, got, k) : diff_error(c.want, have, got, k); if (!e.empty()) violation("wrong-result", "%s: exit 0, but %s", show.c_str(), e.c_str() + 1); }
        else if (what == 6) { const size_t nl = got.find('\n'); if (nl == std::string::npos || got.substr(nl + 1) != want) violation("wrong-result", "%s: exit 0, but the report is wrong: %s", show.c_str(), tail(got, 120).c_str()); }
        else if (got != want) violation("wrong-result", "%s: exit 0, but the result is wrong: %s", show.c_str(), db_diff(got, want, what == 3 ? 0 : rlen(k)).c_str());
      }
      if (!exited_ok() && clean(o, f) && !faulted() && !must_fail && !may_fail) violation("failed", "%s failed without a disk error: %s", show.c_str(), end_desc().c_str());
    }
  }
  if (vfs_exists(c.F) != there || vfs_get(c.F) != file) violation("changed", "%s changed the database it was given: %s", show.c_str(), db_diff(vfs_get(c.F), file, rlen(k)).c_str());
}
void c20() {
  Rng g(choose(S_WORK, 1u << 20)); Chain c;
  c.producer = pickw(S_WORK, {{2, 0}, {2, 1}, {1, 2}, {2, 3}}); c.k = static_cast<Kind>(choose(S_WORK, 3)); if (c.k == K_T64 && c.producer != 0 && c.producer != 2) c.k = K_SHA1;
  const uint32_t entries = pickw(S_WORK, {{2, 3}, {2, 1}, {2, 12}, {c.producer ? 0.7 : 0.0, 200}}), per = pickw(S_WORK, {{2, 4}, {2, 20}, {0.5, entries < 5 ? 900u : 100u}});
  c.want = toc_db(g, c.k, 20, entries, per); c.F = "/w/f.bin"; c.par = 1 + choose(S_WORK, 4); c.sched = draw_sched(); c.sin = choose(S_WORK, 3) == 2;
  auto put = [](const std::string& p, const std::string& d) { vfs_put(p, d.data(), d.size(), W->now - 10 * SEC); };
  switch (c.producer) {
  case 0: { size_t i = 0; for (uint32_t e = 0; e < entries; ++e) { RangeData r; r.prefix = e; while (i < c.want.size()) { auto& h = c.want[i].h; if ((static_cast<uint32_t>(h[0]) << 12 | static_cast<uint32_t>(h[1]) << 4 | h[2] >> 4) != e) break; r.recs.push_back(c.want[i++]); }
    // what the truncated format drops
    if (c.k == K_T64) for (auto& x : r.recs) for (int b = 8; b < 20; ++b) x.h[b] = static_cast<uint8_t>(g.next() >> 30);
    r.body = make_body(r.recs, c.k == K_NTLM ? K_NTLM : K_SHA1, choose(S_WORK, 4)); c.data.push_back(std::move(r)); } break; }
  case 1: put("/w/in.txt", text(c.want, c.k)); break;
  case 2: { put("/w/in.bin", bin(c.want, c.k)); c.N = choose(S_WORK, static_cast<uint32_t>(c.want.size())); if (choose(S_WORK, 2) && !c.want.empty()) c.N = static_cast<uint32_t>(c.want.size()) - 1; sort_count(c.want, c.k); c.want.resize(c.N); sort_hash(c.want, c.k); break; }
  default: { Recs w = c.want; for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[g.below(static_cast<uint32_t>(i))]); put("/w/in.bin", bin(w, c.k)); c.mem = w.size() <= 40 && choose(S_WORK, 3) ? 0 : 1; c.F = "/w/in.bin.sorted"; }
  }
  c.X = bin(c.want, c.k); put("/w/full.bin", c.X);
  if (choose(S_WORK, 3) == 2) {                           // an older database, which the producer is told to replace
    Recs o = toc_db(g, c.k, 20, 1 + choose(S_WORK, entries * 2), per * (1 + choose(S_WORK, 2))); put(c.F, bin(o, c.k)); c.hist = "an old database";
  }
  const bool replaced = vfs_exists(c.F);
  const uint32_t steps = 1 + choose(S_WORK, 4);
  for (uint32_t st = 0; st < steps; ++st) {
    produce(c, choose(S_WORK, 5) != 4);
    if (replaced && c.fresh) continue;                    // still the old one
    for (uint32_t n = 1 + choose(S_WORK, 2); n; --n) consume(c, true);
  }
  bool done = false; for (int t = 0; !done && t < 3; ++t) done = produce(c, false);
  if (!done) violation("failed", "after %s the producer does not get through: %s", c.hist.c_str(), end_desc().c_str());
  count(C_P_CLEANRUN);
  for (uint32_t n = 1 + choose(S_WORK, 3); n; --n) consume(c, false);
}
} // namespace
static PropReg r20({"C20", {"download", "convert", "topn", "sort", "search", "diff", "dupes", "server"}, c20, "every run starts a producer at least twice and readers of what it left", "all eight programs with their repository sources, libcurl, libevent, restinio, asio, libstdc++", "file system, sockets, range server, clients, clock, thread scheduling, process kill"});
