// C18: whatever happens, the tools modify nothing but their own outputs.
#include "tools.h"
#include "origin.h"
#include <cstdio>

std::vector<std::string> touch_server(Opt& o, std::string& desc);      // sc_server.cpp
namespace {
std::string dir_of(const std::string& n) { return n.empty() || n[0] != '/' ? "/w/" + n : n; }
std::string plain(std::string n) { std::string p = dir_of(n); for (size_t i; (i = p.find("/./")) != std::string::npos;) p.erase(i, 2); for (size_t i; (i = p.find("/d/../")) != std::string::npos;) p.erase(i, 5); return p; }
bool digits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }
struct Allow { std::string exact, base; unsigned bits = 0; bool sort = false; };    // named output; table beside `base`; sorted file and chunks of `base`
bool allowed(const std::vector<Allow>& al, const std::string& p, bool fresh = false) {     // fresh: did not exist before
  for (auto& a : al) {
    if (!a.exact.empty() && p == a.exact) return true;
    if (a.base.empty() || p.rfind(a.base + ".", 0) != 0) continue;
    std::string rest = p.substr(a.base.size());
    if (a.sort) { if (rest == ".sorted" || (rest.rfind(".partial.", 0) == 0 && digits(rest.substr(9)))) return true; }
    else { std::string t = "." + std::to_string(a.bits) + ".toc"; if (rest == t || rest == t + ".tmp" || (fresh && rest.rfind(t, 0) == 0 && rest.find('/') == std::string::npos)) return true; }
  }
  return false;
}
const char* const DBN[] = {"db.bin", "db.bin", "d/db.bin", "./db.bin", "/w/d/../db.bin", "/w/d/a b.bin", "noext", ".hidden", "a.b.c", "x{}y.bin", "p%04d.bin", "db.sorted", "db.bin.20.toc.bin"};
const char* const OUTN[] = {"out.bin", "out.bin", "d/out.bin", "./o t.bin", "/w/out", "o{0}.bin", "out.%s.bin", "db.bin.out", "d/../out2.bin", ".out"};

void c18() {
  Rng g(choose(S_WORK, 1u << 20));
  const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  const std::string dbn = DBN[choose(S_WORK, sizeof DBN / sizeof *DBN)], outn = OUTN[choose(S_WORK, sizeof OUTN / sizeof *OUTN)];
  const std::string dbp = plain(dbn), outp = plain(outn);
  const unsigned bits = 15 + choose(S_WORK, 6);
  Recs db = toc_db(g, k, bits, pickw(S_WORK, {{2, 1}, {2, 5}, {1, 60}}), pickw(S_WORK, {{1, 2}, {2, 8}, {1, 60}}));
  if (db.empty()) { run_trivial(); return; }
  Recs nw = db; for (auto& r : nw) if (g.p(0.2)) r.c = 7;
  auto put = [](const std::string& p, const std::string& c) { vfs_put(p, c.data(), c.size(), W->now - 10 * SEC); };
  put(dbp, bin(db, k)); put("/w/new.bin", bin(nw, k)); put("/w/in.txt", text(db, k)); put("/w/d/keep", "keep");
  // neighbours whose names a careless tool could hit
  const std::string decoys[] = {dbp + ".sorted.bak", dbp + ".bak", dbp + ".tmp", dbp + "~", dbp + ".partial", dbp + ".partial.", dbp + ".partial.0000.bak", dbp + ".partialx0000", dbp + ".toc", dbp + "." + std::to_string(bits + 1) + ".toc", dbp + "." + std::to_string(bits - 1) + ".toc.tmp", dbp + "." + std::to_string(bits) + ".tocx", outp + ".tmp", outp + ".bak", outp + ".part", outp + ".txt", "/w/out.txt", "/w/d/out.bin.tmp", "/w/new.bin.sorted", "/w/in.txt.bin", "/tmp/x", "/w/core", "/w/other.bin"};
  for (auto& d : decoys) if (choose(S_WORK, 3) && d != outp && d != dbp && !vfs_exists(d)) put(d, "precious " + d);
  const uint32_t steps = 1 + pickw(S_WORK, {{4, 0}, {2, 1}, {1, 2}});
  std::vector<RangeData> data; OriginCfg oc;
  for (uint32_t i = 0, n = 1 + choose(S_WORK, 6); i < n; ++i) {
    RangeData r; r.prefix = i; for (uint32_t j = 0, m = 1 + g.below(10); j < m; ++j) { Rec x{}; for (auto& b : x.h) b = static_cast<uint8_t>(g.next() >> 30); x.h[0] = 0; x.h[1] = 0; x.h[2] = static_cast<uint8_t>(i << 4 | (x.h[2] & 15)); x.c = draw_count(g); r.recs.push_back(x); }
    sort_hash(r.recs, K_SHA1); r.body = make_body(r.recs, k, choose(S_WORK, 4)); data.push_back(std::move(r));
  }
  switch (choose(S_WORK, 4)) {      // an output of earlier: some database, or an interrupted download
  case 2: put(outp, bin(Recs(db.begin(), db.begin() + static_cast<long>(choose(S_WORK, static_cast<uint32_t>(db.size())))), k)); break;
  case 3: { std::string all; for (auto& r : data) all += bin(r.recs, k); put(outp, all.substr(0, choose(S_WORK, static_cast<uint32_t>(all.size()) + 1))); break; }
  default: break;
  }
  std::string hist;
  for (uint32_t st = 0; st < steps; ++st) {
    const uint32_t app_i = pickw(S_WORK, {{3, 0}, {2, 1}, {2, 2}, {3, 3}, {2, 4}, {0.7, 5}, {0.7, 6}, {0.5, 7}});
    static const char* const apps[] = {"download", "convert", "topn", "sort", "search", "diff", "dupes", "server"};
    const char* app = apps[app_i];
    Opt o = tool_opt(); std::vector<std::string> a; std::vector<Allow> al; Faults f; bool killed = false;
    switch (pickw(S_WORK, {{2, 0}, {3, 1}, {3, 2}})) {
    case 1: crash_somewhere(o, app_i == 0 ? 6 : app_i == 3 ? 30 : 8); killed = true; break;
    case 2: f = draw_tool_faults(o, true, true, choose(S_WORK, 3) == 2, 0.05); break;
    }
    const bool force = choose(S_WORK, 2);
    std::string how;
    switch (app_i) {
    case 0: {
      oc = OriginCfg{}; const uint32_t n = 1 + choose(S_WORK, static_cast<uint32_t>(data.size()));
      oc.kind = k; oc.data = &data; oc.quota.assign(n, 0); origin_log_new(data);
      if (choose(S_WORK, 2)) { oc.kinds = {F_STATUS, F_TRUNC, F_RST_MID, F_EMPTY}; oc.quota[choose(S_WORK, n)] = static_cast<uint8_t>(choose(S_WORK, 2) ? 255 : 1 + choose(S_WORK, 5)); }
      o.setup = [&oc] { origin_install(oc); }; o.sched = draw_sched();
      a = {outn, "--testing", "--limit", std::to_string(n)};
      switch (choose(S_WORK, 5)) { case 0: a.push_back("--no-progress"); break; case 1: a.push_back("--debug"); break; default: break; }
      switch (choose(S_WORK, 5)) { case 3: a.push_back("--txt-out"); break; case 4: if (k != K_NTLM) a.push_back("--sha1t64"); break; default: break; }
      if (vfs_exists(outp) && choose(S_WORK, 3)) a.push_back("--resume"); else if (force) a.push_back("--force");
      if (k == K_NTLM) a.push_back("--ntlm");
      al.push_back({outp, "", 0, false}); break; }
    case 1: {
      const bool t2b = choose(S_WORK, 2);
      a = {t2b ? "--txt-to-bin" : "--bin-to-txt", "-i", t2b ? "in.txt" : dbn};
      if (choose(S_WORK, 5) == 4) a.push_back("--stdout"); else { a.push_back("-o"); a.push_back(outn); al.push_back({outp, "", 0, false}); }
      if (choose(S_WORK, 3) == 2) { a.push_back("--limit"); a.push_back(std::to_string(choose(S_WORK, 9))); }
      if (force) a.push_back("--force");
      if (k == K_NTLM) a.push_back("--ntlm");
      break; }
    case 2:
      a = {dbn, "-N", std::to_string(choose(S_WORK, static_cast<uint32_t>(db.size()) + 2))};
      if (choose(S_WORK, 5) == 4) a.push_back("--stdout"); else { a.push_back("-o"); a.push_back(outn); al.push_back({outp, "", 0, false}); }
      if (force) a.push_back("--force");
      if (k == K_NTLM) a.push_back("--ntlm");
      break;
    case 3:
      a = {"-i", dbn, "--max-memory", std::to_string(choose(S_WORK, 2) && db.size() < 40 ? 0 : 1 + choose(S_WORK, 3))};
      if (choose(S_WORK, 2)) a.push_back("--sort-by-count");
      if (k == K_NTLM) a.push_back("--ntlm");
      al.push_back({"", dbp, 0, true}); break;
    case 4: {
      Rec q = draw_query(db, k); a = {dbn, hexhash(q, k), "--hash"};
      if (choose(S_WORK, 4)) { a.push_back("--toc"); a.push_back("--toc-bits"); a.push_back(std::to_string(bits)); al.push_back({"", dbp, bits, false}); }
      if (k == K_NTLM) a.push_back("--ntlm");
      break; }
    case 5: a = {dbn, "new.bin"}; if (k == K_NTLM) a.push_back("--ntlm"); break;
    case 6: a = {dbn, "--bits", "40"}; if (k == K_NTLM) a.push_back("--ntlm"); break;
    default: o.crash.at_sys = killed ? 1 + choose(S_CRASH, 200) : 0; o.crash.at_vfs = 0; a = touch_server(o, how); for (auto& n : {"/w/sha1.bin", "/w/ntlm.bin", "/w/sha1t64.bin"}) { unsigned b = 20; for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "--toc-bits") b = static_cast<unsigned>(atoi(a[i + 1].c_str())); if (std::find(a.begin(), a.end(), "--toc") != a.end()) al.push_back({"", n, b, false}); }
    }
    hist += std::string(hist.empty() ? "" : ", ") + app + (killed ? " (killed)" : f.mode == 1 ? " (short transfers)" : f.mode == 2 ? " (disk error)" : f.mode == 3 ? " (disk full)" : "");
    std::string line; for (auto& x : a) line += " " + x;
    describe_run("%s; last: hibp-%s%s", hist.c_str(), app, line.c_str());
    std::vector<std::pair<std::string, std::string>> before; for (auto& p : vfs_list()) if (!allowed(al, p)) before.push_back({p, vfs_get(p)});
    run_app(app, a, o);
    clear_faults(); count(C_P_HISTLEN);
    if (faulted()) count(C_P_FAULT_HIT);
    for (int i = 0; i < W->ntouch; ++i) { const std::string p = W->touch[i].path; bool was = false; for (auto& b : before) was |= b.first == p; if (!p.empty() && !allowed(al, p, !was)) violation("touched", "hibp-%s%s modified %s (%s), which is none of its outputs (%s)", app, line.c_str(), p.c_str(), W->touch[i].op, end_desc().c_str()); }
    check_untouched("changed", before);
    for (auto& p : vfs_list()) { bool was = allowed(al, p, true); for (auto& b : before) was |= b.first == p; if (!was) violation("left-behind", "hibp-%s%s left %s behind, which is none of its outputs (%s)", app, line.c_str(), p.c_str(), end_desc().c_str()); }
    W->now += SEC;
  }
}
} // namespace
static PropReg r18({"C18", {"search", "convert", "topn", "sort", "diff", "dupes", "server", "download"}, c18, "every run starts at least one tool in a directory with other files", "all eight programs with their repository sources, libcurl, libevent, restinio, asio, libstdc++", "file system, sockets, range server, clients, clock, thread scheduling, process kill"});
