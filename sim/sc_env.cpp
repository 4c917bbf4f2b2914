// C22: several processes which use a database and its table of contents, and somebody who replaces the database, at the same time.
#include "tools.h"
#include <cstdio>

void replace_server();
void chain_server(Kind k, const std::string& file, const Recs& have, bool may_refuse, unsigned bits);      // sc_server.cpp
namespace {
Recs change(Rng& g, const Recs& old, Kind k) {            // something similar
  Recs db;
  for (size_t i = 0; i < old.size(); ++i) {
    const bool first = i == 0 || memcmp(old[i].h, old[i - 1].h, 4) != 0;
    if (first || !g.p(0.2)) db.push_back(old[i]);
    if (g.p(0.3)) { Rec x = old[i]; for (int b = 4; b < hlen(k); ++b) x.h[b] = static_cast<uint8_t>(g.next() >> 30); x.c = draw_count(g); db.push_back(x); }
  }
  distinct(db, k);
  return db;
}
EnvOp op(EnvKind k, const char* a, uint32_t h = 0) { EnvOp o; memset(&o, 0, sizeof o); o.kind = k; o.h = h; snprintf(o.a, sizeof o.a, "%s", a); return o; }
EnvOp data_op(EnvKind k, const char* a, uint32_t h, const std::string& s, size_t off, size_t n) { EnvOp o = op(k, a, h); o.off = off; o.len = n; o.data = static_cast<uint8_t*>(shm_alloc(n ? n : 1)); memcpy(o.data, s.data() + off, n); return o; }
}
Recs changed_db(Rng& g, const Recs& old, Kind k) { return change(g, old, k); }
EnvOp replace_op(const std::string& f, const std::string& data, int64_t mtime) { EnvOp o = data_op(EV_REPLACE, f.c_str(), 0, data, 0, data.size()); o.t = mtime; return o; }
namespace {
// C25: whatever is in the table of contents, and whoever replaces the database when
void c25() {
  if (choose(S_WORK, 3) == 2) { replace_server(); return; }
  Rng g(choose(S_WORK, 1u << 20)); g_env = EnvCfg{}; env_record(false);
  Search s; s.k = static_cast<Kind>(choose(S_WORK, 3)); const unsigned gb = 15 + choose(S_WORK, 5); const uint32_t per = pickw(S_WORK, {{2, 2}, {2, 5}, {1, 60}});
  auto gen = [&] { uint32_t e = pickw(S_WORK, {{2, 3}, {2, 1}, {2, 20}, {2, 100}, {0.5, 1100}}); return toc_db(g, s.k, gb, e, per); };
  Recs db = gen(); const char* const F = "/w/db.bin"; static const int64_t age[] = {0, -20 * SEC, -1 * SEC, 5 * SEC};
  auto put = [&](int64_t t) { std::string f = bin(db, s.k); vfs_put(F, f.data(), f.size(), t ? W->now + t : 0); };
  put(age[choose(S_WORK, 4)]); W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 5 * MS;
  const uint32_t steps = 2 + choose(S_WORK, 6); std::string hist; bool any = false;
  for (uint32_t st = 0; st < steps; ++st) {
    s.bits = choose(S_WORK, 3) == 0 ? 15 + choose(S_WORK, gb - 14) : gb; s.toc = choose(S_WORK, 6) != 5;
    uint32_t what = pickw(S_WORK, {{2, 0}, {2, 1}, {2, 2}, {1.5, 3}}); if (st + 1 == steps) what = choose(S_WORK, 2) * 2;
    if (what == 1) { db = choose(S_WORK, 2) ? gen() : change(g, db, s.k); put(age[choose(S_WORK, 4)]); hist += " replaced;"; trace("database replaced: %zu records", db.size()); any = true; W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 3 * MS; continue; }
    if (what == 3) {                                       // a table with other contents: of another database, or rubbish
      std::vector<std::string> t; for (auto& p : vfs_list()) if (p.size() > 4 && p.substr(p.size() - 4) == ".toc") t.push_back(p);
      if (t.empty()) continue;
      const std::string p = t[choose(S_WORK, static_cast<uint32_t>(t.size()))]; std::string c = vfs_get(p); if (c.size() < 4) continue;
      const size_t n = c.size() / 4; auto* e = reinterpret_cast<uint32_t*>(c.data()); const uint32_t m = choose(S_WORK, 5), d = 1 + choose(S_WORK, 9);
      const size_t at = choose(S_WORK, static_cast<uint32_t>(n));
      for (size_t i = 0; i < n; ++i) switch (m) { case 0: e[i] = i ? e[i] + d : 0; break; case 1: if (i >= at) e[i] += d; break; case 2: if (i == at) e[i] ^= 1u << g.below(20); break; case 3: e[i] = static_cast<uint32_t>(i * d); break; default: e[i] = static_cast<uint32_t>(g.next() >> 20); }
      Inode* ino = vfs_find(p.c_str()); memcpy(ino->data, c.data(), c.size()); hist += " table of contents altered;"; trace("%s altered", p.c_str()); count(C_P_TOC_STALE); any = true; continue;
    }
    Recs next = db; g_env = EnvCfg{};
    if (what == 2) { next = choose(S_WORK, 2) ? gen() : change(g, db, s.k); g_env.ops.push_back(replace_op(F, bin(next, s.k), age[choose(S_WORK, 4)])); g_env.first = 1 + choose(S_TIME, choose(S_WORK, 3) ? 14 : 300); hist += " replaced during"; any = true; }
    const Recs& from = choose(S_WORK, 2) ? db : next; s.q = draw_query(from, s.k); if (choose(S_WORK, 2)) { s.q = from[choose(S_WORK, static_cast<uint32_t>(from.size()))]; s.q.c = -1; }
    hist += s.toc ? " a search with table;" : " a search;";
    describe_run("%s, %zu records, table of %u bits;%s", kind_name(s.k), db.size(), s.bits, hist.c_str());
    env_start(); run_app("search", search_args(s, "db.bin"), tool_opt()); count(C_P_HISTLEN);
    if (s.toc) count(vfs_stdout().find("loading") != std::string::npos ? C_P_TOC_LOAD : C_P_TOC_BUILD);
    require_clean_end("search");
    const bool met = W->env_pos > 0; if (met) count(C_P_FAULT_HIT); else count(C_P_CLEANRUN);
    if (!exited_ok() && !met) violation("no-answer", "after%s the search failed without any reason: %s", hist.c_str(), end_desc().c_str());
    std::string rec; const int ans = parse_answer(vfs_stdout(), rec); const Rec* w = lookup(next, s.q, s.k);
    if (!(met && exited_ok() && ((w && ans == 1 && rec == text_line(*w, s.k)) || (!w && ans == 2)))) check_answer(s, db, met ? "wrong-answer-while-replaced" : "wrong-answer", ("after" + hist).c_str(), false);
    env_finish(false); db = next; W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 2 * MS;
  }
  if (!any) run_trivial();
}
PropReg r25({"C25", {"search", "server"}, c25, "a database was replaced before or while it was searched or served, or its table of contents altered", "hibp_search, hibp_server, toc.cpp, flat_file.hpp, restinio, asio, http_parser, libstdc++; SHA-1 is a stand-in for the missing hash-library", "file system, clock, the one who replaces the database, sockets, clients, thread scheduling"});
void c22() {
  Rng g(choose(S_WORK, 1u << 20)); g_env = EnvCfg{}; env_record(false);
  Search s; s.k = static_cast<Kind>(choose(S_WORK, 3)); s.toc = true;
  const unsigned gb = 15 + choose(S_WORK, 5); const uint32_t per = pickw(S_WORK, {{2, 2}, {2, 5}, {1, 60}});
  auto gen = [&] { uint32_t e = pickw(S_WORK, {{2, 3}, {2, 1}, {2, 20}, {2, 100}, {0.5, 1100}}); return toc_db(g, s.k, gb, e, per); };
  Recs db = gen(); const char* const F = "/w/db.bin";
  auto put = [&] { std::string f = bin(db, s.k); vfs_put(F, f.data(), f.size(), 0); };
  auto query = [&] { s.q = draw_query(db, s.k); if (choose(S_WORK, 2)) { s.q = db[choose(S_WORK, static_cast<uint32_t>(db.size()))]; s.q.c = -1; } };
  put(); W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 5 * MS;
  const uint32_t rounds = 1 + choose(S_WORK, 3); std::string hist;
  auto say = [&] { describe_run("%s, %zu records, table of %u bits;%s", kind_name(s.k), db.size(), s.bits, hist.c_str()); };
  auto alone = [&](const char* cls) {                     // a search which nobody disturbs
    query(); say(); run_app("search", search_args(s, "db.bin"), tool_opt()); count(C_P_HISTLEN);
    count(vfs_stdout().find("loading") != std::string::npos ? C_P_TOC_LOAD : C_P_TOC_BUILD);
    require_clean_end("search with a table of contents");
    check_answer(s, db, cls, ("after" + hist).c_str(), false);
    if (!exited_ok()) violation("no-answer", "after%s a search failed without any reason: %s", hist.c_str(), end_desc().c_str());
    W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 2 * MS;
  };
  for (uint32_t r = 0; r < rounds; ++r) {
    s.bits = choose(S_WORK, 3) == 0 ? 15 + choose(S_WORK, gb - 14) : gb;
    if (choose(S_WORK, 3) == 2) { hist += " a search;"; alone("wrong-answer-before"); }
    if (choose(S_WORK, 3) == 2) { db = choose(S_WORK, 2) ? gen() : change(g, db, s.k); W->now += 5 * MS; put(); hist += " database replaced;"; W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 3 * MS; }
    if (choose(S_WORK, 6) == 5) W->now += SEC;
    // what happens meanwhile
    const uint32_t what = pickw(S_WORK, {{3, 0}, {1.5, 1}, {1, 2}}); EnvCfg e; Recs next = db;
    if (what == 0) {
      const VfsCopy c = vfs_save(); const Rec q = s.q; query();
      env_record(true); say(); run_app("search", search_args(s, "db.bin"), tool_opt()); e.ops = env_recorded(); env_record(false);
      require_clean_end("search with a table of contents"); check_answer(s, db, "wrong-answer-before", ("after" + hist).c_str(), false);
      vfs_restore(c); s.q = q; W->std_out.size = W->std_err.size = 0;
    } else {
      next = choose(S_WORK, 2) ? gen() : change(g, db, s.k); const std::string f = bin(next, s.k);
      if (what == 1) e.ops.push_back(data_op(EV_REPLACE, F, 0, f, 0, f.size()));
      else {
        EnvOp o = op(EV_OPEN, F, 1); o.len = 1; e.ops.push_back(o);
        for (size_t at = 0; at < f.size();) { size_t n = std::min(f.size() - at, static_cast<size_t>(choose(S_WORK, 3) ? 4096 : f.size())); e.ops.push_back(data_op(EV_WRITE, F, 1, f, at, n)); at += n; }
      }
    }
    bool cut = false;
    if (what == 0 && !e.ops.empty() && choose(S_WORK, 4) == 3) { e.ops.resize(1 + choose(S_WORK, static_cast<uint32_t>(e.ops.size()))); if (e.ops.back().kind == EV_WRITE) e.ops.back().len = choose(S_WORK, static_cast<uint32_t>(e.ops.back().len) + 1); cut = true; }
    static const uint32_t G[] = {1, 2, 5, 20}; e.first = 1 + (choose(S_WORK, 3) ? choose(S_TIME, 25) : choose(S_TIME, 300)); e.gap = G[choose(S_WORK, 4)]; e.burst = 1 + choose(S_WORK, 3); e.jump = choose(S_WORK, 2) ? 1 + choose(S_WORK, 4) : 0;
    // who meets it
    const bool server = what == 0 && choose(S_WORK, 5) == 4; bool killed = false;
    query(); g_env = e; env_start();
    static const char* const names[] = {"another search", "the database replaced by a new file", "the database overwritten"};
    if (server) {
      hist += " a server started during another search" + std::string(cut ? " (killed)" : "") + ";"; say();
      chain_server(s.k, "db.bin", db, false, s.bits); count(C_P_HISTLEN);
    } else {
      Opt o = tool_opt(); if (choose(S_WORK, 5) == 4) { crash_somewhere(o, 6); killed = true; }
      hist += std::string(" a search") + (killed ? " (killed)" : "") + " and meanwhile " + names[what] + (cut ? " (killed)" : "") + ";"; say();
      run_app("search", search_args(s, "db.bin"), o); count(C_P_HISTLEN);
      count(vfs_stdout().find("loading") != std::string::npos ? C_P_TOC_LOAD : C_P_TOC_BUILD);
      require_clean_end("search with a table of contents", true);
      if (what == 0 && W->end_kind == E_EXIT) {
        check_answer(s, db, "wrong-answer-concurrent", ("after" + hist).c_str(), false);
        if (!exited_ok()) violation("no-answer", "after%s the search failed without any reason: %s", hist.c_str(), end_desc().c_str());
      }
    }
    if (W->env_pos) count(C_P_FAULT_HIT);
    if (W->env_pos == g_env.ops.size()) count(C_P_CLEANRUN);
    env_finish(what == 0 && choose(S_WORK, 4) == 3);
    W->now += static_cast<int64_t>(choose(S_TIME, 3)) * 2 * MS; db = next;
    for (uint32_t i = 1 + choose(S_WORK, 3); i; --i) alone(what == 0 ? "wrong-answer" : "wrong-answer-outdated-toc");
  }
}
PropReg r22({"C22", {"search", "server"}, c22, "another process changed the files while a search or a server was running", "hibp_search, hibp_server, toc.cpp, flat_file.hpp, restinio, libstdc++; the other process is real code as well, recorded from a run of its own", "file system, clock, interleaving of the processes' file operations, process kill"});
} // namespace
