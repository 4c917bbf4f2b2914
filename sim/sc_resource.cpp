// C19: running out of memory, threads or descriptors.
#include "tools.h"
#include <cstdio>

void res_download();                                    // sc_download.cpp
void res_server();                                      // sc_server.cpp
// which allocation, thread or descriptor is refused, given how many a run without refusals asked for
std::string draw_refusal(ResCfg& r, const Asked& n) {
  r = ResCfg{}; char b[200];
  const uint32_t what = pickw(S_CRASH, {{5, 0}, {n.threads ? 1.0 : 0.0, 1}, {n.fds ? 1.5 : 0.0, 2}, {3, 3}});
  if (what == 1) { r.thread_at = 1 + choose(S_CRASH, n.threads); snprintf(b, sizeof b, "thread %u refused", r.thread_at); return b; }
  if (what == 2) { r.fd_at = 1 + choose(S_CRASH, n.fds + 1); r.fd_run = pickw(S_CRASH, {{2, 1}, {1, 3}, {1, 0}}); snprintf(b, sizeof b, "descriptor %u%s refused", r.fd_at, r.fd_run == 0 ? " and all later ones" : r.fd_run > 1 ? " and the next two" : ""); return b; }
  uint32_t k = 0;
  if (what == 3) { k = 1 + choose(S_CRASH, 5); while (k && !n.ge[k]) --k; }        // mostly the few large ones
  r.late = choose(S_CRASH, 4) != 3; const uint32_t m = r.late ? n.late[k] : n.ge[k];
  r.alloc_min = RES_SIZES[k]; r.alloc_at = 1 + choose(S_CRASH, m ? m : 1); r.alloc_run = pickw(S_CRASH, {{4, 1}, {1, 2}, {1, 5}, {1, 0}});
  snprintf(b, sizeof b, "allocation %u of about %u of at least %zu bytes%s refused%s", r.alloc_at, m, r.alloc_min, r.late ? " after opening a file" : "", r.alloc_run == 0 ? ", and all later ones" : r.alloc_run > 1 ? ", and some later ones" : ""); return b;
}
Asked asked() { Asked a; memcpy(a.ge, W->n_alloc_ge, sizeof a.ge); memcpy(a.late, W->n_alloc_late, sizeof a.late); a.threads = W->n_thread; a.fds = W->n_fd; return a; }
// a program that ran out of something may give up in any orderly way, or be ended by an uncaught exception
void require_res_end(const char* what) {
  if (W->end_kind == E_SIGNAL && W->end_code == 6) return;
  require_clean_end(what);
}
namespace {
void res_tool() {
  Rng g(choose(S_WORK, 1u << 20));
  const uint32_t app_i = pickw(S_WORK, {{1, 0}, {1, 1}, {1, 2}, {1.5, 3}, {3, 4}, {1, 5}, {1, 6}}); const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  Recs db = random_db(g, k, 1 + choose(S_WORK, 40)); bool existing = choose(S_WORK, 4) == 3; std::vector<std::string> a; const char* app = ""; std::string want, outp; bool sout = choose(S_WORK, 3) == 2;
  const unsigned bits = 15 + choose(S_WORK, 4); Rec q{}; bool answer = false;
  if (app_i == 4) db = toc_db(g, k, bits, 1 + choose(S_WORK, 40), 1 + choose(S_WORK, 6));
  const bool huge = app_i == 3 && choose(S_WORK, 10) == 9;                          // several chunks of 1 MB
  if (huge) db = random_db(g, k, 44000 + choose(S_WORK, 60000));
  if (app_i == 0 && choose(S_WORK, 3) == 2) db = random_db(g, k, 3000 + choose(S_WORK, 2000));
  const std::string B = bin(db, k), T = text(db, k); Recs nw = db;
  auto out = [&] { if (sout) a.push_back("--stdout"); else { a.push_back("-o"); a.push_back("out"); if (existing) a.push_back("--force"); outp = "/w/out"; } };
  switch (app_i) {
  case 0: app = "convert"; a = {"--txt-to-bin", "-i", "in.txt"}; out(); want = B; break;
  case 1: app = "convert"; a = {"--bin-to-txt", "-i", "in.bin"}; out(); want = T; break;
  case 2: { app = "topn"; const uint32_t n = choose(S_WORK, static_cast<uint32_t>(db.size())); a = {"in.bin", "-N", std::to_string(n)}; out(); Recs w = db; sort_count(w, k); w.resize(n); sort_hash(w, k); want = bin(w, k); break; }
  case 3: { app = "sort"; std::string s = bin(db, k); Recs w = db; const bool bc = choose(S_WORK, 2); for (size_t i = db.size(); i > 1; --i) std::swap(nw[i - 1], nw[g.below(static_cast<uint32_t>(i))]); a = {"-i", "in.bin", "--max-memory", choose(S_WORK, 2) && !huge ? "0" : "1"}; if (bc) { a.push_back("--sort-by-count"); sort_count(w, k); } want = bin(w, k); outp = "/w/in.bin.sorted"; sout = false; break; }
  case 4: app = "search"; q = draw_query(db, k); a = {"in.bin", hexhash(q, k), "--hash"}; if (choose(S_WORK, 4)) { a.push_back("--toc"); a.push_back("--toc-bits"); a.push_back(std::to_string(bits)); } answer = true; break;
  case 5: app = "diff"; nw.clear(); for (auto& r : db) { nw.push_back(r); if (g.p(0.3)) nw.back().c = r.c == 5 ? 6 : 5; if (g.p(0.2)) { Rec x = r; for (int b = 2; b < hlen(k); ++b) x.h[b] = static_cast<uint8_t>(g.next() >> 30); nw.push_back(x); } } distinct(nw, k); a = {"in.bin", "new.bin"}; sout = true; break;
  default: app = "dupes"; for (size_t i = 0; i + 1 < nw.size(); ++i) if (g.p(0.3)) memcpy(nw[i + 1].h, nw[i].h, 6); sort_hash(nw, k); a = {"in.bin", "--bits", "40"}; sout = true;
  }
  if (k == K_NTLM) a.push_back("--ntlm");
  const std::string IN = app_i == 3 || app_i == 6 ? bin(nw, k) : B;
  auto place = [&] {
    for (auto& p : vfs_list()) if (p.rfind("/w/", 0) == 0 && p != "/w/d") vfs_remove(p);
    vfs_put("/w/in.bin", IN.data(), IN.size(), W->now - SEC); vfs_put("/w/in.txt", T.data(), T.size(), W->now - SEC);
    if (app_i == 5) { std::string s = bin(nw, k); vfs_put("/w/new.bin", s.data(), s.size(), W->now - SEC); }
    if (existing && !outp.empty()) vfs_put(outp, "old content", 11, W->now - SEC);
  };
  auto show = [&] { std::string s = std::string("hibp-") + app; for (auto& x : a) s += " " + x; return s; };
  auto result = [&] { return sout || outp.empty() ? vfs_stdout() : vfs_get(outp); };
  place(); describe_run("%s, %zu records, nothing refused", show().c_str(), db.size());
  run_app(app, a, tool_opt());
  if (!exited_ok()) { if (app_i == 5 && exited_bad()) { run_trivial(); return; } violation("failed", "%s failed although nothing was refused: %s", show().c_str(), end_desc().c_str()); }
  Asked na = asked(); na.threads = na.fds = 0;
  const std::string ref = result();                     // other properties judge it; here it is what a run without refusals gives
  if (!answer && app_i < 4 && ref != want) violation("wrong-output", "%s, nothing refused: %s", show().c_str(), db_diff(ref, want, 0).c_str());
  const uint32_t runs = huge ? 3 : 2 + choose(S_WORK, 6);
  for (uint32_t i = 0; i < runs; ++i) {
    if (!(app_i == 4 && choose(S_WORK, 3))) place();      // a search may find the table of the one before
    W->now += SEC;
    Opt o = tool_opt(); const std::string how = draw_refusal(o.res, na);
    describe_run("%s, %zu records, %s", show().c_str(), db.size(), how.c_str());
    std::vector<std::pair<std::string, std::string>> before; for (auto& p : vfs_list()) if (p == "/w/in.bin" || p == "/w/in.txt" || p == "/w/new.bin") before.push_back({p, vfs_get(p)});
    run_app(app, a, o);
    if (W->res_faults) count(C_P_FAULT_HIT);
    require_res_end((show() + ", " + how).c_str());
    check_untouched("input-changed", before);
    if (answer) {
      std::string rec; const int an = parse_answer(vfs_stdout(), rec); const Rec* w = lookup(db, q, k); const std::string wl = w ? text_line(*w, k) : "";
      if (exited_ok() && an == 0) violation("no-answer", "%s, %s: exit 0 without an answer", show().c_str(), how.c_str());
      const bool cut = !exited_ok() && an == 1 && w && wl.rfind(rec, 0) == 0;      // the answer was cut short, and the program failed
      if (an != 0 && !cut && !(w && an == 1 && rec == wl) && !(!w && an == 2)) violation("wrong-answer", "%s, %s: answered '%s', but the database %s", show().c_str(), how.c_str(), an == 1 ? rec.c_str() : "not found", w ? ("holds " + wl).c_str() : "does not hold it");
    } else if (exited_ok() && result() != ref) violation("incomplete-success", "%s, %s: exit 0, but the result is wrong: %s", show().c_str(), how.c_str(), db_diff(result(), ref, 0).c_str());
  }
}
void c19() {
  switch (pickw(S_WORK, {{3, 0}, {3, 1}, {1.5, 2}})) { case 0: res_tool(); break; case 1: res_download(); break; default: res_server(); }
}
} // namespace
static PropReg r19({"C19", {"search", "convert", "topn", "sort", "diff", "dupes", "download", "server"}, c19, "every run refuses at least one allocation, thread or descriptor to one program", "the programs with their repository sources, libcurl, libevent, restinio, asio, CLI11, libstdc++", "memory allocator (real, refusing on command), file system, sockets, range server, clock, thread scheduling"});
