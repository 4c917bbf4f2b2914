// C26: passwords and connections stay local.
#include "tools.h"
#include "origin.h"
#include <cstdio>

std::string local_server(const std::vector<std::string>& secrets, std::string& desc);      // sc_server.cpp
namespace {
const char* const PLAIN[] = {"Tr0ub4dor-and-3", "my voice is my passport", "c0rrect.h0rse.battery", "S\xC3\xA4uretest/4711?!", "0xDEADBEEFCAFE", "%41lohomora%", "swordfish-8-swordfish", "ninety + nine = 99", "kEe'p \"it\" s3cret", "2026-11-20-nobody"};
std::vector<std::string> draw_secrets(uint32_t n) {
  std::vector<std::string> v; W->nsecret = 0; const uint32_t at = choose(S_WORK, 10);
  for (uint32_t i = 0; i < n; ++i) { v.push_back(PLAIN[(at + i) % 10]); snprintf(W->secret[W->nsecret++], sizeof W->secret[0], "%s", v.back().c_str()); }
  return v;
}
void check_leak(const std::string& what, const std::vector<std::string>& secrets) {
  if (W->leak[0]) violation("leaked", "%s: the password %s", what.c_str(), W->leak);
  for (auto& s : secrets) {
    for (auto& p : vfs_list()) if (p.find(s) != std::string::npos || vfs_get(p).find(s) != std::string::npos) violation("leaked", "%s: the password '%s' is in the file %s", what.c_str(), s.c_str(), p.c_str());
    for (int i = 0; i < W->ntouch; ++i) if (strstr(W->touch[i].path, s.c_str())) violation("leaked", "%s: the password '%s' is in the name of the file %s", what.c_str(), s.c_str(), W->touch[i].path);
  }
}
void check_net(const std::string& what, const std::vector<std::string>& may) {
  for (int i = 0; i < W->nnet; ++i) { bool ok = false; for (auto& m : may) ok |= m == W->net[i]; if (!ok) violation("network", "%s: %s", what.c_str(), W->net[i]); }
}
void put(const std::string& p, const std::string& c) { vfs_put(p, c.data(), c.size(), W->now - 10 * SEC); }
void c26() {
  Rng g(choose(S_WORK, 1u << 20)); const Kind k = static_cast<Kind>(choose(S_WORK, 3)); W->nsecret = 0;
  switch (pickw(S_WORK, {{3, 0}, {4, 1}, {1, 2}, {1.5, 3}})) {
  case 0: {                                               // searches for passwords
    const auto secrets = draw_secrets(1 + choose(S_WORK, 3)); Search s; s.k = k; s.by_pw = true; s.toc = choose(S_WORK, 3) == 2; s.bits = 15 + choose(S_WORK, 6);
    Recs db = s.toc ? toc_db(g, k, s.bits, 1 + g.below(60), 40) : random_db(g, k, 1 + draw_n(170, false));
    if (!s.toc) for (auto& w : secrets) if (g.p(0.5)) { Rec r = pw_rec(w, k); r.c = draw_count(g); db.push_back(r); }
    distinct(db, k); put("/w/db.bin", bin(db, k));
    for (uint32_t i = 0, n = 1 + choose(S_WORK, 4); i < n; ++i) {
      s.pw = secrets[choose(S_WORK, static_cast<uint32_t>(secrets.size()))]; s.q = pw_rec(s.pw, k);
      Opt o = tool_opt(); Faults f; if (choose(S_WORK, 5) == 4) crash_somewhere(o, 8); else f = draw_tool_faults(o, true, true, choose(S_WORK, 3) == 2, 0.3);
      const std::string what = "hibp-search" + args_desc(search_args(s, "db.bin")); describe_run("%s, %zu records; %s", what.c_str(), db.size(), faults_desc(o, f).c_str());
      run_app("search", search_args(s, "db.bin"), o); clear_faults(); if (faulted()) count(C_P_FAULT_HIT);
      check_leak(what, secrets); check_net(what, {}); W->now += SEC;
    }
    break; }
  case 1: { const auto secrets = draw_secrets(2 + choose(S_WORK, 4)); std::string desc; const std::string at = local_server(secrets, desc); check_leak(desc, secrets); check_net(desc, {"listen " + at}); break; }
  case 2: {                                               // tools that have nothing to do with the network
    const Kind kk = k == K_T64 ? K_SHA1 : k; Recs db = random_db(g, kk, 5 + choose(S_WORK, 300)), nw = db; for (auto& r : nw) if (g.p(0.2)) r.c = 7;
    put("/w/db.bin", bin(db, kk)); put("/w/new.bin", bin(nw, kk)); put("/w/in.txt", text(db, kk));
    std::vector<std::string> a; const char* app = "";
    switch (choose(S_WORK, 6)) {
    case 0: app = "convert"; if (choose(S_WORK, 2)) a = {"--txt-to-bin", "-i", "in.txt", "-o", "out"}; else a = {"--bin-to-txt", "-i", "db.bin", "-o", "out"}; break;
    case 1: app = "topn"; a = {"db.bin", "-N", "3", "-o", "out"}; break;
    case 2: app = "sort"; a = {"-i", "db.bin", "--sort-by-count"}; break;
    case 3: app = "diff"; a = {"db.bin", "new.bin"}; break;
    case 4: app = "dupes"; a = {"db.bin", "--bits", "40"}; break;
    default: app = "search"; a = {"db.bin", hexhash(draw_query(db, kk), kk), "--hash"}; if (choose(S_WORK, 2)) a.push_back("--toc");
    }
    if (kk == K_NTLM) a.push_back("--ntlm");
    Opt o = tool_opt(); Faults f; if (choose(S_WORK, 5) == 4) crash_somewhere(o, 8); else f = draw_tool_faults(o, true, true, choose(S_WORK, 3) == 2, 0.2);
    const std::string what = std::string("hibp-") + app + args_desc(a); describe_run("%s; %s", what.c_str(), faults_desc(o, f).c_str());
    run_app(app, a, o); clear_faults(); if (faulted()) count(C_P_FAULT_HIT); check_net(what, {}); break; }
  default: {                                              // a download goes to its range server only, also when that sends it elsewhere
    OriginCfg oc; std::vector<RangeData> data; const Kind kk = k == K_NTLM ? k : K_SHA1; const uint32_t n = 1 + choose(S_WORK, 12);
    for (uint32_t i = 0; i < n; ++i) { RangeData r; r.prefix = i; for (uint32_t j = 0, m = 1 + g.below(10); j < m; ++j) { Rec x{}; for (auto& b : x.h) b = static_cast<uint8_t>(g.next() >> 30); x.h[0] = x.h[1] = 0; x.h[2] = static_cast<uint8_t>(i << 4 | (x.h[2] & 15)); x.c = draw_count(g); r.recs.push_back(x); } distinct(r.recs, kk); r.body = make_body(r.recs, kk, choose(S_WORK, 4)); data.push_back(std::move(r)); }
    oc.kind = kk; oc.data = &data; oc.quota.assign(n, 0); oc.away = true; oc.v6 = static_cast<int>(choose(S_WORK, 2)); origin_log_new(data);
    oc.kinds = {F_REDIRECT, F_REDIRECT, F_STATUS, F_TRUNC, F_RST_MID, F_EMPTY}; for (auto& q : oc.quota) if (choose(S_WORK, 3) == 2) q = static_cast<uint8_t>(choose(S_WORK, 4) == 3 ? 255 : 1 + choose(S_WORK, 5));
    if (choose(S_WORK, 3) == 2) { oc.p_conn = 0.3; oc.conn_budget = 4; }
    Opt o = tool_opt(); o.sched = draw_sched(); o.setup = [&oc] { origin_install(oc); };
    std::vector<std::string> a{"out.bin", "--testing", "--limit", std::to_string(n)}; if (kk == K_NTLM) a.push_back("--ntlm"); if (choose(S_WORK, 3) == 2) { put("/w/out.bin", bin(Recs(data[0].recs.begin(), data[0].recs.begin() + 1), kk)); a.push_back("--resume"); }
    if (choose(S_WORK, 2)) { a.push_back("--parallel-max"); a.push_back(std::to_string(1 + choose(S_WORK, 5))); }
    const std::string what = "hibp-download" + args_desc(a); describe_run("%s; redirects to another host and other failures", what.c_str());
    run_app("download", a, o); check_net(what, {"connect 127.0.0.1:8090", "connect ::1:8090"}); }
  }
}
} // namespace
static PropReg r26({"C26", {"search", "server", "convert", "topn", "sort", "diff", "dupes", "download"}, c26, "every run gives passwords to hibp-search or hibp-server, or starts another tool with an eye on its connections", "all eight programs with their repository sources, libcurl, libevent, restinio, asio, libstdc++; SHA-1 is a stand-in for the missing hash-library", "file system and standard streams, sockets, clients, range server, name resolution, clock"});
