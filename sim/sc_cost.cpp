// C23, C24: what the tools may take: memory, descriptors, and reads of the database.
#include "tools.h"
#include "io.h"
#include <cstdio>
void cost_download();                                   // sc_download.cpp
void cost_server();                                     // sc_server.cpp
constexpr int64_t MB = 1 << 20;
// A lean moment late in the work is compared with lean moments early in it. No figures in the messages: they depend a little on the
// allocator's state.
void check_growth(const char* what, const char* of, int64_t bytes, int fds) {
  trace("held, per eighth of the work: %lld %lld %lld %lld %lld %lld %lld %lld bytes, %d %d %d %d %d %d %d %d descriptors; at the end %lld bytes, %d descriptors; peaks %lld, %d", (long long)W->low_live[0], (long long)W->low_live[1], (long long)W->low_live[2], (long long)W->low_live[3], (long long)W->low_live[4], (long long)W->low_live[5], (long long)W->low_live[6], (long long)W->low_live[7],
    W->low_fd[0], W->low_fd[1], W->low_fd[2], W->low_fd[3], W->low_fd[4], W->low_fd[5], W->low_fd[6], W->low_fd[7], (long long)W->live, W->fd_live, (long long)W->live_peak, W->fd_peak);
  const int64_t m0 = std::min(W->low_live[1], W->low_live[2]), m1 = std::min(W->low_live[6], W->low_live[7]); const int f0 = std::min(W->low_fd[1], W->low_fd[2]), f1 = std::min(W->low_fd[6], W->low_fd[7]);
  if (m0 == INT64_MAX || m1 == INT64_MAX) { run_trivial(); return; }
  if (m1 - m0 > bytes) violation("memory-grows", "hibp-%s: memory is not given back: it grows with the number of %s", what, of);
  if (f1 - f0 > fds) violation("descriptors-grow", "hibp-%s: descriptors are not closed: they grow with the number of %s", what, of);
}
namespace {
void check_peak(const char* what, int64_t allowed, const char* why) {
  trace("peak %lld bytes, allowed %lld; %d descriptors", (long long)W->live_peak, (long long)allowed, W->fd_peak);
  if (W->live_peak > allowed) violation("memory-peak", "%s held more than %lld kB (%s)", what, (long long)(allowed / 1024), why);
}
void cost_tool() {
  Rng g(choose(S_WORK, 1u << 20)); const Kind k = choose(S_WORK, 3) == 2 ? K_NTLM : K_SHA1;
  const uint32_t t = choose(S_WORK, 7);
  Recs db; uint32_t topn = 0, mem = 1; std::vector<std::string> a; const char* app; int64_t allowed = 3 * MB; const char* why = "a buffer of the database at a time"; unsigned bits = 15;
  const size_t n = (t == 3 ? 380000 : 240000) + choose(S_WORK, 60000);
  if (t == 4) db = toc_db(g, k, bits, 400, 1200); else db = random_db(g, k, n);
  auto out = [&] { if (choose(S_WORK, 3) == 2) a.push_back("--stdout"); else { a.push_back("-o"); a.push_back("out"); } };
  std::string in = bin(db, k);
  switch (t) {
  case 0: app = "convert"; a = {"--txt-to-bin", "-i", "in"}; in = text(db, k); out(); break;
  case 1: app = "convert"; a = {"--bin-to-txt", "-i", "in"}; out(); break;
  case 2: { app = "topn"; static const uint32_t N[] = {1, 1000, 20000}; topn = N[choose(S_WORK, 3)]; a = {"in", "-N", std::to_string(topn)}; out(); allowed += static_cast<int64_t>(topn) * rlen(k) * 2; why = "the chosen records"; break; }
  case 3: { app = "sort"; for (size_t i = db.size(); i > 1; --i) std::swap(db[i - 1], db[g.below(static_cast<uint32_t>(i))]); in = bin(db, k); a = {"-i", "in", "--max-memory", std::to_string(mem)}; if (choose(S_WORK, 2)) a.push_back("--sort-by-count"); allowed += 3 * MB; why = "about two times --max-memory"; break; }
  case 4: app = "search"; a = {"in", hexhash(draw_query(db, k), k), "--hash", "--toc", "--toc-bits", std::to_string(bits)}; allowed += (int64_t{4} << bits) * 3; why = "the table of contents"; break;
  case 5: { app = "diff"; Recs nw = db; for (size_t i = 1; i < nw.size(); i += 500) nw[i].c = nw[i].c == 5 ? 6 : 5; std::string s = bin(nw, k); vfs_put("/w/new", s.data(), s.size(), W->now - SEC); a = {"in", "new"}; break; }
  default: app = "dupes"; for (size_t i = 0; i + 1 < db.size(); i += 100) memcpy(db[i + 1].h, db[i].h, 6); sort_hash(db, k); in = bin(db, k); a = {"in", "--bits", "40"}; break;
  }
  if (k == K_NTLM) a.push_back("--ntlm");
  vfs_put("/w/in", in.data(), in.size(), W->now - SEC);
  Opt o = tool_opt(); if (choose(S_WORK, 2)) { o.disk = draw_soft_disk(); }
  describe_run("footprint of hibp-%s%s, %zu records", app, args_desc(a).c_str(), db.size());
  run_app(app, a, o); clear_faults();
  require_clean_end("footprint"); if (!exited_ok()) { run_trivial(); return; }
  check_peak((std::string("hibp-") + app).c_str(), allowed, why);
  if (W->fd_peak > 20 + static_cast<int>(in.size() / MB)) violation("descriptors-peak", "hibp-%s had more descriptors open than files", app);
}
void c23() { switch (pickw(S_WORK, {{2, 0}, {2, 1}, {3, 2}})) { case 0: cost_tool(); break; case 1: cost_download(); break; default: cost_server(); } }

// ------------------------------------------------------------------ C24
uint32_t log2_of(uint64_t n) { uint32_t b = 0; while (n >> b) ++b; return b; }
struct Reads { uint64_t bytes; uint32_t calls; };
Reads reads_of(const char* path) { Inode* i = vfs_find(path); return i ? Reads{i->rbytes, i->rcalls} : Reads{0, 0}; }
void forget_reads(const char* path) { if (Inode* i = vfs_find(path)) i->rbytes = i->rcalls = 0; }
void c24() {
  Rng g(choose(S_WORK, 1u << 20)); Search s; s.k = static_cast<Kind>(choose(S_WORK, 3));
  Opt o = tool_opt();
  if (choose(S_WORK, 2)) {                              // a table is built once, and then used
    const unsigned gb = 15 + choose(S_WORK, 4); s.toc = true; s.bits = 15 + choose(S_WORK, gb - 14);
    const uint32_t e = pickw(S_WORK, {{2, 2}, {2, 30}, {1, 300}, {0.5, 600}, {1, 4000}}), per = e == 4000 ? 80 : e >= 300 ? 300 : 20;
    const Recs db = toc_db(g, s.k, gb, e, per); const std::string f = bin(db, s.k);
    if (e == 4000 && choose(S_WORK, 4)) s.bits = gb;
    size_t chapter = 0; for (size_t i = 0, first = 0; i < db.size(); ++i) { auto p = [&](const Rec& r) { return (static_cast<uint32_t>(r.h[0]) << 24 | static_cast<uint32_t>(r.h[1]) << 16 | static_cast<uint32_t>(r.h[2]) << 8 | r.h[3]) >> (32 - s.bits); }; if (p(db[i]) != p(db[first])) first = i; chapter = std::max(chapter, i - first + 1); }
    const uint32_t most = log2_of(chapter) + 5;
    vfs_put("/w/db.bin", f.data(), f.size(), W->now - 10 * SEC);
    const uint32_t before_that = choose(S_WORK, 4);
    for (uint32_t i = 0; i + 1 < before_that; ++i) {     // nothing that went wrong earlier matters
      Opt e2 = tool_opt(); Faults f2; const bool kill = choose(S_WORK, 2); if (kill) crash_somewhere(e2, 6); else f2 = draw_tool_faults(e2, true, true, false, 0);
      s.q = draw_query(db, s.k); describe_run("before building a table of contents of %u bits, %s, %zu records; %s", s.bits, kind_name(s.k), db.size(), kill ? "killed" : faults_desc(e2, f2).c_str());
      run_app("search", search_args(s, "db.bin"), e2); clear_faults(); if (faulted()) count(C_P_FAULT_HIT); require_clean_end("building a table of contents", true); W->now += SEC;
    }
    describe_run("building a table of contents of %u bits once, %s, %zu records", s.bits, kind_name(s.k), db.size());
    s.q = draw_query(db, s.k); run_app("search", search_args(s, "db.bin"), o); require_clean_end("building a table of contents");
    if (!exited_ok()) { run_trivial(); return; }
    const uint32_t q = 1 + choose(S_WORK, 3);
    for (uint32_t i = 0; i < q; ++i) {
      W->now += SEC; std::vector<std::pair<std::string, int64_t>> before; for (auto& p : vfs_list()) if (p.rfind("/w/db.bin.", 0) == 0) before.push_back({p, vfs_find(p.c_str())->mtime});
      forget_reads("/w/db.bin"); s.q = draw_query(db, s.k); if (choose(S_WORK, 2)) s.q = db[choose(S_WORK, static_cast<uint32_t>(std::min<size_t>(3, db.size())))];   // which takes most steps without the table
      describe_run("searching with the table of contents of %u bits built before, %s, %zu records", s.bits, kind_name(s.k), db.size());
      run_app("search", search_args(s, "db.bin"), tool_opt()); require_clean_end("searching with a table of contents");
      if (!exited_ok()) violation("no-answer", "a search with the table built before failed: %s", end_desc().c_str());
      const Reads r = reads_of("/w/db.bin"); count(C_P_TOC_LOAD);
      // the chapter is bisected; the file's end, what was found and the neighbours are looked at as well
      if (r.calls > most) violation("table-saves-nothing", "searching %zu records with the table of contents built before, whose chapters have %zu records at most, makes %u reads of the database", db.size(), chapter, r.calls);
      if (W->ntouch) violation("built-again", "nothing changed since the table of contents was built, but the next search writes %s", W->touch[0].path);
      for (auto& p : before) { Inode* n = vfs_find(p.first.c_str()); if (!n || n->mtime != p.second) violation("built-again", "nothing changed since the table of contents was built, but the next search replaces %s", p.first.c_str()); }
      if (f.size() > 2'000'000 && r.bytes > f.size() / 2) violation("whole-database-read", "a search with the table of contents built before reads most of the database");
    }
    return;
  }
  const bool both = choose(S_WORK, 2); Huge h = put_huge("/w/db.bin", s.k, both); count(C_P_HUGE);
  const uint32_t lg = log2_of(h.n), nq = 2 + choose(S_WORK, 3); uint64_t plain = 0, with = 0;
  if (both) { s.bits = 16 + choose(S_WORK, 5); const std::string t = huge_toc(h, s.bits); vfs_put("/w/db.bin." + std::to_string(s.bits) + ".toc", t.data(), t.size(), W->now - 5 * SEC); }
  for (uint32_t i = 0; i < nq; ++i) {
    s.q = draw_query(h.some, s.k);
    for (int toc = 0; toc <= both; ++toc) {
      s.toc = toc; forget_reads("/w/db.bin"); Opt oo = tool_opt(); oo.sched.max_syscalls = 100000;
      describe_run("work of a search%s, %s, %llu records, query %u of %u", toc ? (" with a table of contents of " + std::to_string(s.bits) + " bits").c_str() : "", kind_name(s.k), (unsigned long long)h.n, i + 1, nq);
      run_app("search", search_args(s, "db.bin"), oo);
      if (toc && W->end_kind == E_STEPS) { run_trivial(); return; }          // it did not take the table that was laid there
      if (W->end_kind == E_STEPS) violation("too-many-reads", "a search of %llu records does not end within 100000 system calls", (unsigned long long)h.n);
      require_clean_end("search"); if (!exited_ok()) violation("no-answer", "a search failed without any fault: %s", end_desc().c_str());
      const Reads r = reads_of("/w/db.bin"); (toc ? with : plain) += r.calls;
      trace("%u reads, %llu bytes", r.calls, (unsigned long long)r.bytes);
      if (r.calls > 3 * lg + 16) violation("too-many-reads", "a search of %llu records makes more than %u reads of the database", (unsigned long long)h.n, 3 * lg + 16);
      if (r.bytes > uint64_t{65536} * (3 * lg + 16)) violation("too-much-read", "a search of %llu records reads more than %u kB of the database", (unsigned long long)h.n, 64 * (3 * lg + 16));
    }
  }
  // the database is spread over at least a sixteenth of the prefixes: the table stands for bits - 4 steps of each search
  if (both && (plain < with || plain - with < nq * (s.bits - 4) * 3 / 10) && with > uint64_t{nq} * (lg - s.bits + 6)) violation("table-saves-nothing", "searching %llu records %u times needs %llu reads of the database with the table of contents of %u bits, and %llu without", (unsigned long long)h.n, nq, (unsigned long long)with, s.bits, (unsigned long long)plain);
}
} // namespace
static const char* const TOOLS_STUB = "file system, range server, sockets, clients, clock, thread scheduling; the memory allocator is real, and counted";
static PropReg r23({"C23", {"search", "convert", "topn", "sort", "diff", "dupes", "download", "server"}, c23, "a tool ran to its end on a database of more than 4 MB, or a download or server handled at least 60 ranges or connections", "the programs with their repository sources, libcurl, libevent, restinio, asio, CLI11, libstdc++", TOOLS_STUB});
static PropReg r24({"C24", {"search"}, c24, "every run searches a database of more than 2 GB, or searches again with a table that an earlier search built", "hibp_search, toc.cpp, flat_file.hpp, CLI11, libstdc++", "file system (counting the reads), clock, thread scheduling"});
