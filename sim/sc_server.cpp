// C16, C17: the server with simulated clients, on a disk that may fail.
#include "tools.h"
#include "io.h"
#include <cstdio>
#include <cstdlib>

namespace {
enum ReqKind : int { Q_COUNT, Q_4XX, Q_OTHER };        // a count, a client error, anything but a count
struct Req { std::string wire, what; int kind = Q_COUNT; int32_t want = -1; bool close = false; std::vector<int32_t> later; };   // later: what is right as well once the database was replaced
enum Role : int { R_GOOD, R_GARBAGE, R_HALF, R_ABORT, R_HALFCLOSE, R_SILENT, R_HUGE, R_PROBE };
struct Plan { int role = R_GOOD; std::vector<Req> reqs; uint32_t depth = 1, frag = 0; int64_t start = 0, think = 0, gap = 0, act = 0; uint32_t cut = 0; bool rst = false; uint32_t knows = 0; };
struct SrvLog {                                         // in shared memory
  int  viol; char cls[48], text[1500];
  int  listening, phase2, done; uint32_t answered, errors, closed;
};
SrvLog* SL;
struct SrvCfg { int port = 8082; std::vector<Plan> plans, probes; DiskCfg disk; bool faults = false; bool json = false; bool lenient = false, sample = false; uint32_t patience = 0; std::vector<int64_t> replace_at;  // lenient: only a wrong count is wrong
  int64_t limit = 60 * SEC, plimit = 20 * SEC; };
SrvCfg sc;
void fail(const char* cls, const std::string& t) {
  if (!SL->viol) { SL->viol = 1; snprintf(SL->cls, sizeof SL->cls, "%s", cls); snprintf(SL->text, sizeof SL->text, "%s", t.c_str()); }
  end_incarnation(E_DONE, 0, "judged");
}
// any of the versions that have been in place is right
bool later_right(const Req& r, int64_t c) { for (size_t i = 0; i < r.later.size() && i < W->env_pos; ++i) if (r.later[i] == c) return true; return false; }
std::string later_text(const Req& r) { std::string t; for (size_t i = 0; i < r.later.size() && i < W->env_pos; ++i) t += " or " + std::to_string(r.later[i]); return t.empty() ? t : t + " (the database was replaced meanwhile)"; }
struct Client;
uint32_t open_plans; std::vector<std::shared_ptr<Client>>* all;
void plan_done();

struct Client : Endpoint, std::enable_shared_from_this<Client> {
  Plan p; SockP s; std::string in; size_t sent = 0, got = 0; bool over = false; int64_t busy = 0; uint64_t gen = 0;
  bool good() const { return p.role == R_GOOD || p.role == R_PROBE; }
  bool strict() const { return !sc.faults || p.role == R_PROBE; }
  void open() {
    s = sim_connect(sc.port, shared_from_this()); count(C_K_CONN);
    if (!s && sc.lenient) { finish(); return; }
    if (!s) { fail("gone", "the server does not listen any more"); return; }
    s->knows = p.knows;
    trace("client: connection %d, role %d, %zu requests", s->id, p.role, p.reqs.size());
    auto me = shared_from_this();
    switch (p.role) {
    case R_GOOD: case R_PROBE: pump(); break;
    case R_GARBAGE: { count(C_K_GARBAGE); faulthash(0x6A, p.cut); static const char* const g[] = {"\x16\x03\x01\x02\x01\xfc\x03\x03", "GET\r\n\r\n", "BREW /pot HTTP/1.1\r\n\r\n", "GET /check/sha1/AAAA HTTP/9.9\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: -5\r\n\r\n", "\r\n\r\n\r\n", "GET /check/plain/a HTTP/1.1\r\nbad header\r\n\r\n", "GET /check/plain/a HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"}; std::string w = g[p.cut % 8]; ep_deliver(s, w, 0); leave(); break; }
    case R_HALF: { count(C_K_STALL); std::string w = p.reqs[0].wire; w.resize(1 + p.cut % (w.size() - 1)); faulthash(0x6B, w.size()); ep_deliver(s, w, 0); leave(); break; }
    case R_ABORT: { count(C_K_ABORT); faulthash(0x6C, p.cut); for (auto& r : p.reqs) ep_deliver(s, r.wire, 0); leave(); break; }
    case R_HALFCLOSE: { count(C_K_HALFCLOSE); faulthash(0x6D, p.cut); ep_deliver(s, p.reqs[0].wire, 0); sent = 1; ep_fin(s, p.cut % 3 * MS); leave(); break; }
    case R_SILENT: count(C_K_STALL); faulthash(0x6E); leave(); break;
    case R_HUGE: { count(C_K_GARBAGE); faulthash(0x6F, p.cut); std::string w = "GET /check/plain/"; w += std::string(1000 + p.cut % 200000, 'a'); w += " HTTP/1.1\r\nHost: x\r\nX-A: "; w += std::string(p.cut % 70000, 'b'); w += "\r\n\r\n"; ep_deliver(s, w, 0); leave(); break; }
    }
  }
  // the misbehaving ones go away after a while, or never
  void leave() {
    auto me = shared_from_this();
    if (p.act >= 0) at_time(W->now + p.act, [me] { if (me->over) return; if (me->p.rst) ep_rst(me->s, 0); else ep_fin(me->s, 0); me->finish(); });
    else finish_soon();
  }
  void finish_soon() { auto me = shared_from_this(); at_time(W->now + 50 * MS, [me] { me->finish(); }); }
  void finish() { if (over) return; over = true; ++gen; plan_done(); }
  void pump() {
    while (!over && sent < p.reqs.size() && sent - got < p.depth) {
      auto& r = p.reqs[sent++]; count(C_K_REQ); { std::string w = r.wire; for (auto& c : w) if (c == 13 || c == 10) c = 124; trace("client: connection %d sends %s", s->id, w.substr(0, 150).c_str()); } if (sent - got > 1) { count(C_K_PIPELINE); }
      // in one piece or several
      size_t at = 0; int64_t d = 0;
      if (p.frag) { count(C_K_FRAG); for (uint32_t i = 0; i < p.frag && at + 1 < r.wire.size(); ++i) { size_t n = 1 + choose(S_NET, static_cast<uint32_t>(std::min<size_t>(r.wire.size() - at - 1, 60))); ep_deliver(s, r.wire.substr(at, n), d); at += n; d += p.gap; } }
      ep_deliver(s, r.wire.substr(at), d);
      evhash(0xC11, static_cast<uint64_t>(s->id) << 16 | sent);
      if (sent - got == 1) arm();
      if (r.close) { break; }
    }
  }
  void arm() {
    busy = W->now; auto me = shared_from_this(); uint64_t g = ++gen; int64_t lim = p.role == R_PROBE ? sc.plimit : sc.limit;
    at_time(W->now + lim, [me, g, lim] { if (me->gen != g || me->over) return; if (sc.lenient) { me->finish(); return; } fail(me->p.role == R_PROBE ? "no-recovery" : "no-answer", "no answer and no end of connection within " + std::to_string(lim / SEC) + " s: " + me->p.reqs[me->got].what + (me->p.role == R_PROBE && sc.faults ? " (asked after the faults had stopped)" : "")); });
  }
  void on_data(const SockP&, const char* d, size_t n) override {
    if (over && p.role != R_HALFCLOSE) return;
    in.append(d, n);
    while (good() || p.role == R_HALFCLOSE) {
      size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
      std::string h = in.substr(0, e + 2); size_t len = 0; { std::string l; for (char c : h) l += static_cast<char>(tolower(c)); size_t k = l.find("\r\ncontent-length:"); if (k != std::string::npos) len = strtoul(l.c_str() + k + 17, nullptr, 10); }
      if (in.size() < e + 4 + len) return;
      std::string body = in.substr(e + 4, len); in.erase(0, e + 4 + len);
      judge(h, body);
    }
  }
  void judge(const std::string& h, const std::string& body) {
    if (got >= sent) { fail("unasked", "a response without a request: " + h.substr(0, 80)); return; }
    auto& r = p.reqs[got]; ++gen; ++got; count(C_K_RESP); ++SL->answered;
    const int st = h.rfind("HTTP/1.", 0) == 0 && h.size() > 12 ? atoi(h.c_str() + 9) : 0;
    // the count in the body
    std::string b = body; while (!b.empty() && isspace(static_cast<unsigned char>(b.back()))) b.pop_back();
    bool has = false; int64_t c = 0;
    { std::string t = b; if (!t.empty() && t[0] == '{') { size_t k = t.find(':'); t = k == std::string::npos || t.back() != '}' || t.find("count") == std::string::npos ? "" : t.substr(k + 1, t.size() - k - 2); }
      char* end = nullptr; if (!t.empty()) { c = strtoll(t.c_str(), &end, 10); while (end && *end == ' ') ++end; has = end != t.c_str() && *end == 0; } }
    trace("client: connection %d got %d '%s' for %s", s->id, st, b.substr(0, 60).c_str(), r.what.c_str());
    evhash(0xC12, static_cast<uint64_t>(st) << 32 | static_cast<uint32_t>(c));
    const std::string show = r.what + " on connection " + std::to_string(s->id) + ": status " + std::to_string(st) + ", body '" + b.substr(0, 100) + "'";
    if (st >= 500) { ++SL->errors; count(C_K_RESP_5XX); if (strict()) { fail(p.role == R_PROBE ? "no-recovery" : "error-answer", "server error for " + show + (p.role == R_PROBE && sc.faults ? " (asked after the faults had stopped)" : "")); return; } }
    else if (r.kind == Q_COUNT) {
      if (st != 200 && sc.lenient && !has) {}
      else if (st != 200) { fail("wrong-status", show + ", expected the count " + std::to_string(r.want)); return; }
      else if (!has || (c != r.want && !later_right(r, c))) { fail("wrong-count", show + ", expected the count " + std::to_string(r.want) + later_text(r)); return; }
      else if (!b.empty() && (b[0] == '{') != sc.json) { fail("wrong-form", show + (sc.json ? ", expected json" : ", expected text")); return; }
      else { count(C_P_ANSWER_OK); count(r.want >= 0 ? C_P_FOUND : C_P_NOTFOUND); }
    } else {
      if (r.kind == Q_4XX && st / 100 != 4 && !sc.lenient) { fail("wrong-status", show + ", expected a client error"); return; }
      if (r.kind == Q_OTHER && st / 100 == 2) { fail("wrong-status", show + ", expected an error"); return; }
      if (has) { fail("count-in-error", show); return; }
      count(C_P_ANSWER_ERR);
    }
    if (!good()) return;
    if (got < sent) arm();
    if (over) return;
    if (got == p.reqs.size()) { auto me = shared_from_this(); ep_fin(s, p.think); finish(); return; }
    if (r.close) return;                                    // the server closes now
    if (p.think) { auto me = shared_from_this(); at_time(W->now + p.think, [me] { me->pump(); }); } else pump();
  }
  void ended() {
    if (!good()) { finish(); return; }
    if (over) return;
    ++SL->closed;
    // a fresh connection carries on, unless the end came without a reason
    const bool reason = got > 0 && (p.reqs[got - 1].close || p.reqs[got - 1].kind != Q_COUNT);
    if (strict() && !reason) {
      if (got < sent) { fail(p.role == R_PROBE ? "no-recovery" : "closed", "connection closed instead of an answer to " + p.reqs[got].what); return; }
    }
    if (!strict() && got < sent && !reason) ++got;           // this request is lost
    reopen();
  }
  void reopen() {
    ++gen; in.clear(); sent = got; auto me = shared_from_this();
    if (got >= p.reqs.size()) { finish(); return; }
    over = true; auto c = std::make_shared<Client>(); c->p = p; c->p.reqs.erase(c->p.reqs.begin(), c->p.reqs.begin() + static_cast<long>(got)); all->push_back(c);
    at_time(W->now + 1 * MS, [c] { c->open(); });
  }
  void on_fin(const SockP&) override { ep_fin(s, 0); ended(); }
  void on_reset(const SockP&) override { ended(); }
};
uint32_t next_plan;
void one_plan() { auto c = std::make_shared<Client>(); c->p = sc.plans[next_plan++]; all->push_back(c); c->open(); }
void start_plans(const std::vector<Plan>& ps) {
  if (sc.sample) { next_plan = 0; one_plan(); return; }          // one after the other
  open_plans = static_cast<uint32_t>(ps.size());
  for (auto& p : ps) { auto c = std::make_shared<Client>(); c->p = p; all->push_back(c); at_time(W->now + p.start, [c] { c->open(); }); }
  if (ps.empty()) { ++open_plans; plan_done(); }
}
void plan_done() {
  if (sc.sample && next_plan < sc.plans.size()) { at_time(W->now + 2 * MS, [] { sample_held(next_plan, static_cast<uint32_t>(sc.plans.size())); one_plan(); }); return; }
  if (sc.sample) open_plans = 1;
  if (--open_plans) return;
  if (!SL->phase2 && !sc.probes.empty()) {
    SL->phase2 = 1; trace("faults stop");
    at_time(W->now + 200 * MS, [] { g_disk.on = false; start_plans(sc.probes); });
    return;
  }
  SL->done = 1;
  end_incarnation(E_DONE, 0, "all requests judged");
}
void wait_listen() {
  if (app_listening(sc.port)) { SL->listening = 1; trace("server is up"); g_disk = sc.disk; for (int64_t t : sc.replace_at) at_time(W->now + t, env_next); start_plans(sc.plans); return; }
  // restinio 0.6.19 loses a failed start when it fails before all its threads run (see DESIGN.md)
  if (sc.lenient && --sc.patience == 0) { end_incarnation(E_DONE, 0, "the server never listened"); return; }
  at_time(W->now + 1 * MS, wait_listen);
}
struct Dbs { bool have[3] = {}; Recs db[3]; };
const char* const fmts[] = {"sha1", "ntlm", "sha1t64"};
const char* const words[] = {"password", "123456", "qwerty", "hunter2", "letmein", "a", "Zz9~_.-", "0", "admin", "iloveyou", "correct.horse",
  "correct horse", "p%40ss", "p@ss", "a/b?c=d#e", "100%", "50%25", "+1 (234)", "P\xC3\xA4ssw\xC3\xB6rd", "\xE2\x82\xAC""100", "\xF0\x9F\x94\x91", "a&b=c;d", "\"quoted\" <tag> \\ `", "!$'*,"};
// as a client encodes it: what must be encoded, and perhaps more
std::string in_url(const std::string& w) {
  const uint32_t how = choose(S_WORK, 4); std::string o;
  for (char ch : w) {
    const auto c = static_cast<unsigned char>(ch);
    const bool plain = isalnum(c) || strchr("-._~", c), sub = strchr("!$&'()*+,;=:@", c) != nullptr;
    if (how != 3 && (plain || (sub && how == 1))) o += ch; else { char x[4]; snprintf(x, sizeof x, how == 2 ? "%%%02x" : "%%%02X", c); o += x; }
  }
  return o;
}
Req draw_req1(const Dbs& d, uint32_t odd, const std::vector<Dbs>* vers) {
  Req r; std::string path; const bool malformed = choose(S_WORK, odd) == 1;
  uint32_t f = choose(S_WORK, 4);
  if (f != 3 && !d.have[f] && choose(S_WORK, 4)) { f = 3; for (uint32_t i = 0; i < 3; ++i) if (d.have[i]) { f = i; if (choose(S_WORK, 2)) break; } }
  if (malformed) {
    static const char* const bad[] = {"/check/md5/", "/check/SHA1/", "/check/sha256/", "/check/sha1t/"};
    switch (choose(S_WORK, 4)) {
    case 0: path = bad[choose(S_WORK, 4)]; path += choose(S_WORK, 2) ? "password" : "CBFDAC6008F9CAB4083784CBD1874F76618D2A97"; r.kind = Q_4XX; break;
    case 1: { static const char* const o[] = {"/", "/check", "/check/plain", "/check/sha1/", "/favicon.ico", "/check/sha1/AB/CD"}; path = o[choose(S_WORK, 6)]; r.kind = Q_OTHER; break; }
    default: {
      f %= 3; Rec q = draw_query(d.db[f], static_cast<Kind>(f)); std::string h = hexhash(q, static_cast<Kind>(f));
      switch (choose(S_WORK, 5)) { case 0: h.pop_back(); break; case 1: h += 'A'; break; case 2: h[choose(S_WORK, static_cast<uint32_t>(h.size()))] = 'G'; break; case 3: h.resize(1 + choose(S_WORK, static_cast<uint32_t>(h.size() - 1))); break; default: h[choose(S_WORK, static_cast<uint32_t>(h.size()))] = "-._~zX"[choose(S_WORK, 6)]; }
      path = std::string("/check/") + fmts[f] + "/" + h; r.kind = Q_4XX;
    } }
  } else if (f == 3) {
    std::string w = words[choose(S_WORK, sizeof words / sizeof *words)]; if (choose(S_WORK, 4) == 3) w += std::to_string(choose(S_WORK, 100)); if (choose(S_WORK, 20) == 19) w = std::string(1 + choose(S_WORK, 300), 'x');
    path = "/check/plain/" + in_url(w); int k = d.have[0] ? 0 : d.have[1] ? 1 : 2;
    const Rec* p = lookup(d.db[k], pw_rec(w, static_cast<Kind>(k)), static_cast<Kind>(k)); r.want = p ? p->c : -1;
    if (vers) for (auto& v : *vers) { p = lookup(v.db[k], pw_rec(w, static_cast<Kind>(k)), static_cast<Kind>(k)); r.later.push_back(p ? p->c : -1); }
  } else {
    const uint32_t from = vers ? choose(S_WORK, static_cast<uint32_t>(vers->size() + 1)) : 0; const Recs& some = from ? (*vers)[from - 1].db[f] : d.db[f];
    Rec q = draw_query(some, static_cast<Kind>(f)); if (vers && choose(S_WORK, 2)) { q = some[choose(S_WORK, static_cast<uint32_t>(some.size()))]; q.c = -1; }
    path = std::string("/check/") + fmts[f] + "/" + hexhash(q, static_cast<Kind>(f));
    if (!d.have[f]) r.kind = Q_4XX; else { const Rec* p = lookup(d.db[f], q, static_cast<Kind>(f)); r.want = p ? p->c : -1; if (vers) for (auto& v : *vers) { p = lookup(v.db[f], q, static_cast<Kind>(f)); r.later.push_back(p ? p->c : -1); } }
  }
  r.what = "GET " + path; r.wire = r.what + " HTTP/1.1\r\nHost: localhost:8082\r\n";
  if (choose(S_WORK, 4) == 3) r.wire += "User-Agent: sim/1.0\r\nAccept: */*\r\nX-Pad: " + std::string(choose(S_WORK, 400), 'p') + "\r\n";
  if (choose(S_WORK, 8) == 7) { r.wire += "Connection: close\r\n"; r.close = true; }
  r.wire += "\r\n";
  return r;
}
const std::vector<Dbs>* g_vers;
Req draw_req(const Dbs& d, uint32_t odd) { return draw_req1(d, odd, g_vers); }
Plan draw_plan(const Dbs& d, uint32_t nreq, uint32_t odd) {
  static const int64_t st[] = {0, 0, 1 * MS, 20 * MS, 300 * MS}, th[] = {0, 0, 1 * MS, 30 * MS}, gp[] = {0, 100 * US, 5 * MS, 200 * MS};
  Plan p; p.start = st[choose(S_NET, 5)]; p.think = th[choose(S_NET, 4)]; p.gap = gp[choose(S_NET, 4)];
  p.depth = pickw(S_WORK, {{3, 1}, {1, 2}, {1, 5}, {0.5, 8}}); p.frag = pickw(S_NET, {{3, 0}, {1, 1}, {1, 3}, {0.5, 12}});
  for (uint32_t i = 0; i < nreq; ++i) p.reqs.push_back(draw_req(d, odd));
  return p;
}
std::string setup_server(Dbs& d, std::vector<std::string>& a, bool big) {
  Rng g(choose(S_WORK, 1u << 20));
  const uint32_t mask = pickw(S_WORK, {{3, 1}, {1, 2}, {1, 4}, {1, 3}, {1, 5}, {1, 6}, {2, 7}});
  const bool toc = choose(S_WORK, 3) == 2; unsigned bits = 15 + choose(S_WORK, 6);
  std::string desc;
  for (int k = 0; k < 3; ++k) {
    if (!(mask & (1u << k))) { d.db[k] = random_db(g, static_cast<Kind>(k), 3); continue; }
    d.have[k] = true; const Kind kd = static_cast<Kind>(k);
    if (!toc && big && choose(S_WORK, 12) == 11) {
      const std::string f = std::string(fmts[k]) + ".bin"; const Huge h = put_huge("/w/" + f, kd, false); d.db[k] = h.some; count(C_P_HUGE);
      a.push_back(std::string("--") + fmts[k] + "-db"); a.push_back(f); desc += std::string(" ") + fmts[k] + " " + std::to_string(h.n); continue;
    }
    size_t n = pickw(S_WORK, {{1, 3}, {2, 60}, {3, 700}, {big ? 1.0 : 0.3, 3000}});
    n = 1 + choose(S_WORK, static_cast<uint32_t>(n));
    if (toc) { uint32_t e = pickw(S_WORK, {{1, 1}, {2, 4}, {1, 40}}); d.db[k] = toc_db(g, kd, bits, e, static_cast<uint32_t>(1 + n / e)); } else d.db[k] = random_db(g, kd, n);
    for (auto w : words) if (g.p(0.6)) { Rec r = pw_rec(w, kd); if (toc) { uint32_t top = static_cast<uint32_t>(r.h[0]) << 24 | static_cast<uint32_t>(r.h[1]) << 16 | static_cast<uint32_t>(r.h[2]) << 8; if ((top >> (32 - bits)) > 40) continue; } r.c = draw_count(g); d.db[k].push_back(r); }
    distinct(d.db[k], kd);
    std::string f = std::string(fmts[k]) + ".bin", b = bin(d.db[k], kd); vfs_put("/w/" + f, b.data(), b.size(), W->now - 10 * SEC);
    a.push_back(std::string("--") + fmts[k] + "-db"); a.push_back(f); desc += std::string(" ") + fmts[k] + " " + std::to_string(d.db[k].size());
  }
  const uint32_t th = pickw(S_WORK, {{1, 1}, {2, 2}, {2, 3}, {1, 4}, {0.5, 8}});
  a.push_back("--threads"); a.push_back(std::to_string(th)); desc += ", " + std::to_string(th) + " threads";
  if (toc) { a.push_back("--toc"); if (bits != 20 || choose(S_WORK, 2)) { a.push_back("--toc-bits"); a.push_back(std::to_string(bits)); } desc += ", toc " + std::to_string(bits); }
  sc.json = choose(S_WORK, 3) == 2; if (sc.json) { a.push_back("--json"); desc += ", json"; }
  if (choose(S_WORK, 4) == 3) { sc.port = 9000; a.push_back("--port"); a.push_back("9000"); }
  return desc;
}
void run_server(const std::vector<std::string>& a, Opt& o) {
  SL = static_cast<SrvLog*>(shm_alloc(sizeof(SrvLog))); memset(static_cast<void*>(SL), 0, sizeof *SL);
  o.setup = [] { all = new std::vector<std::shared_ptr<Client>>; at_time(W->now + 1 * MS, wait_listen); };
  run_app("server", a, o);
  if (SL->viol) violation(SL->cls, "%s", SL->text);
  if (W->end_kind == E_EXIT && !exited_ok() && !SL->listening && W->env_pos) return;      // replaced while it started
  if (W->end_kind == E_EXIT) violation("exited", "the server ended: %s", end_desc().c_str());
  if (W->end_kind != E_DONE) require_clean_end("server");
  if (!SL->done) sim_error("the server run ended early");
}
void c16() {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 1800 * SEC;
  std::string desc = setup_server(d, a, true);
  const uint32_t n = 1 + choose(S_WORK, 6), per = 1 + choose(S_WORK, 10);
  for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, per, 7));
  if (choose(S_WORK, 3) == 2) { sc.disk = draw_soft_disk(); }
  describe_run("hibp-server:%s; %u connections of %u requests%s", desc.c_str(), n, per, sc.disk.on ? "; short reads and EINTR" : "");
  run_server(a, o);
  if (W->io_faults) sim_error("a disk fault in a run without faults");
}
void c17() {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 3600 * SEC;
  std::string desc = setup_server(d, a, false); sc.faults = true; sc.limit = 200 * SEC;
  const uint32_t n = 1 + choose(S_WORK, 4), per = 1 + choose(S_WORK, 10);
  for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, per, 12));
  uint32_t bad = choose(S_WORK, 3) == 0 ? 0 : 1 + choose(S_WORK, 5);
  static const int64_t acts[] = {0, 200 * US, 2 * MS, 50 * MS, 3 * SEC, -1};
  for (uint32_t i = 0; i < bad; ++i) { Plan p = draw_plan(d, 1 + choose(S_WORK, 3), 12); p.role = static_cast<int>(pickw(S_NETF, {{1, R_GARBAGE}, {1, R_HALF}, {2, R_ABORT}, {1, R_HALFCLOSE}, {0.5, R_SILENT}, {0.7, R_HUGE}})); p.act = acts[choose(S_NETF, 6)]; p.rst = choose(S_NETF, 2) == 0; p.cut = choose(S_NETF, 1u << 20); sc.plans.push_back(p); }
  bool disk = bad == 0 || choose(S_WORK, 4) != 3;
  if (disk) {
    sc.disk = draw_soft_disk(); sc.disk.on = true; sc.disk.max_hard = static_cast<int>(pickw(S_DISK, {{3, 1}, {2, 3}, {1, 30}}));
    switch (choose(S_DISK, 5)) {   // accept() never fails here: restinio 0.6.19 stops accepting for good (see DESIGN.md)
    case 0: sc.disk.nth_read = 1 + choose(S_DISK, 60); break;
    case 1: sc.disk.p_eior = 0.1; break;
    case 2: sc.disk.p_eior = 0.6; break;
    case 3: if (choose(S_DISK, 2)) sc.disk.nth_open = 1 + choose(S_DISK, 6); else sc.disk.p_open = 0.5; break;
    default: sc.disk.p_open = 0.3; sc.disk.p_eior = 0.2; sc.disk.p_stat = 0.2; sc.disk.p_close = 0.2; }
  }
  const uint32_t np = 1 + choose(S_WORK, 4), pp = 3 + choose(S_WORK, 8);
  for (uint32_t i = 0; i < np; ++i) { Plan p = draw_plan(d, pp, 12); p.role = R_PROBE; sc.probes.push_back(p); }
  describe_run("hibp-server:%s; %u connections of %u requests, %u misbehaving clients, %s; then %u new connections of %u requests", desc.c_str(), n, per, bad, disk ? "disk errors" : "healthy disk", np, pp);
  run_server(a, o);
  if (faulted()) count(C_P_FAULT_HIT);
  if (!SL->phase2) sim_error("no requests after the faults");
}
} // namespace
// a server for C18: its databases are in /w, a few clients ask it something, nothing is judged
std::vector<std::string> touch_server(Opt& o, std::string& desc) {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; o.sched = draw_sched(); o.sched.max_time = 1800 * SEC;
  desc = setup_server(d, a, false); sc.faults = true; sc.disk = o.disk;
  const uint32_t n = 1 + choose(S_WORK, 3);
  for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, 1 + choose(S_WORK, 4), 5));
  SL = static_cast<SrvLog*>(shm_alloc(sizeof(SrvLog))); memset(static_cast<void*>(SL), 0, sizeof *SL);
  o.setup = [] { all = new std::vector<std::shared_ptr<Client>>; at_time(W->now + 1 * MS, wait_listen); };
  return a;
}
// what requests and connections took is given back, also when clients misbehave
void cost_server() {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.p_stall = 0; o.sched.preempt_mean = 0; o.sched.max_time = 3600 * SEC;
  std::string desc = setup_server(d, a, false);
  const uint32_t n = 80 + choose(S_WORK, 160), per = 1 + choose(S_WORK, 5); const bool bad = choose(S_WORK, 2); sc.faults = bad; sc.sample = true;
  for (uint32_t i = 0; i < n; ++i) {
    Plan p = draw_plan(d, per, choose(S_WORK, 2) ? 4 : 12); p.think = 0; p.gap = 0;
    for (auto& r : p.reqs) if (r.kind == Q_COUNT && !r.close && choose(S_WORK, 2)) {      // always another password, and a long one
      r = Req{}; const std::string w = std::string(100 + choose(S_WORK, 200), 'x') + std::to_string(i); r.what = "GET /check/plain/" + w; r.wire = r.what + " HTTP/1.1\r\nHost: localhost:8082\r\n\r\n";
    }
    if (bad && choose(S_WORK, 4) == 3) { p.role = static_cast<int>(pickw(S_NETF, {{1, R_GARBAGE}, {1, R_HALF}, {3, R_ABORT}, {1, R_HALFCLOSE}, {1, R_HUGE}})); p.act = 100 * US; p.rst = choose(S_NETF, 2) == 0; p.cut = choose(S_NETF, 1u << 20); }
    sc.plans.push_back(p);
  }
  const bool one = choose(S_WORK, 2); for (size_t i = 0; i + 1 < a.size(); ++i) if (a[i] == "--threads") a[i + 1] = one ? "1" : "2";
  describe_run("footprint of hibp-server:%s, in fact %d; %u connections of %u requests, one after the other%s", desc.c_str(), one ? 1 : 2, n, per, bad ? ", some of clients that misbehave" : "");
  run_server(a, o);
  check_growth("server", "connections", one ? 24 * 1024 : 128 * 1024, one ? 3 : 8);          // a thread opens its databases when it is first used
}
// a server whose clients send passwords that nobody else may get to see; what it did is in W->leak and W->net
std::string local_server(const std::vector<std::string>& secrets, std::string& desc) {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 3600 * SEC;
  desc = "hibp-server:" + setup_server(d, a, false); sc.faults = sc.lenient = true; sc.limit = 70 * SEC; sc.patience = 5000;
  if (std::find(a.begin(), a.end(), "--toc") == a.end()) for (int k = 0; k < 3; ++k) if (d.have[k] && choose(S_WORK, 2)) {
    for (auto& w : secrets) { Rec r = pw_rec(w, static_cast<Kind>(k)); r.c = 5; d.db[k].push_back(r); }
    distinct(d.db[k], static_cast<Kind>(k)); const std::string b = bin(d.db[k], static_cast<Kind>(k)); vfs_put(std::string("/w/") + fmts[k] + ".bin", b.data(), b.size(), W->now - 10 * SEC);
  }
  static const char* const ads[] = {"", "127.0.0.1", "0.0.0.0", "192.168.7.5", "127.0.0.2"};
  const std::string ad = ads[choose(S_WORK, 5)]; if (!ad.empty()) { a.push_back("--bind-address"); a.push_back(ad); desc += " at " + ad; }
  const uint32_t n = 2 + choose(S_WORK, 5), per = 1 + choose(S_WORK, 8);
  for (uint32_t i = 0; i < n; ++i) {
    Plan p = draw_plan(d, per, 6); const uint32_t w = choose(S_WORK, static_cast<uint32_t>(secrets.size())); p.knows = 1u << w;
    for (auto& r : p.reqs) if (!r.close && choose(S_WORK, 3)) { r = Req{}; r.kind = Q_OTHER; r.what = "GET /check/plain/" + in_url(secrets[w]); r.wire = r.what + " HTTP/1.1\r\nHost: localhost:8082\r\n\r\n"; r.kind = Q_COUNT; }
    if (choose(S_WORK, 4) == 3) { p.role = static_cast<int>(pickw(S_NETF, {{1, R_HALF}, {3, R_ABORT}, {1, R_HALFCLOSE}, {0.5, R_GARBAGE}})); p.act = choose(S_NETF, 2) ? 200 * US : 20 * MS; p.rst = choose(S_NETF, 2) == 0; p.cut = choose(S_NETF, 1u << 20); }
    sc.plans.push_back(p);
  }
  if (choose(S_WORK, 2)) { sc.disk = draw_soft_disk(); sc.disk.on = true; sc.disk.max_hard = static_cast<int>(pickw(S_DISK, {{3, 1}, {2, 3}, {1, 30}})); switch (choose(S_DISK, 3)) { case 0: sc.disk.nth_read = 1 + choose(S_DISK, 40); break; case 1: sc.disk.p_eior = 0.4; break; default: sc.disk.p_open = 0.5; } desc += ", disk errors"; }
  desc += ", " + std::to_string(n) + " clients";
  describe_run("%s", desc.c_str());
  SL = static_cast<SrvLog*>(shm_alloc(sizeof(SrvLog))); memset(static_cast<void*>(SL), 0, sizeof *SL);
  o.setup = [] { all = new std::vector<std::shared_ptr<Client>>; at_time(W->now + 1 * MS, wait_listen); };
  run_app("server", a, o);
  if (faulted()) count(C_P_FAULT_HIT);
  return (ad.empty() ? "127.0.0.1" : ad) + ":" + std::to_string(sc.port);
}
// the server, refused allocations, threads or descriptors: whatever it answers, it never gives a wrong count
void res_server() {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 1800 * SEC;
  std::string desc = setup_server(d, a, false);
  const uint32_t n = 1 + choose(S_WORK, 4), per = 1 + choose(S_WORK, 6);
  for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, per, 6));
  const std::string what = "hibp-server:" + desc + "; " + std::to_string(n) + " connections of " + std::to_string(per) + " requests";
  describe_run("%s, nothing refused", what.c_str());
  run_server(a, o);
  const Asked na = asked(); const uint32_t runs = 1 + choose(S_WORK, 4);
  sc.faults = sc.lenient = true; sc.limit = 70 * SEC;
  for (uint32_t i = 0; i < runs; ++i) {
    const std::string how = draw_refusal(o.res, na); W->now += SEC;
    describe_run("%s, %s", what.c_str(), how.c_str());
    memset(static_cast<void*>(SL), 0, sizeof *SL); sc.patience = 5000;
    run_app("server", a, o);
    if (W->res_faults) count(C_P_FAULT_HIT);
    if (SL->viol) violation(SL->cls, "%s: %s", how.c_str(), SL->text);
    if (W->end_kind == E_SIGNAL) continue;               // restinio 0.6.19 does not survive every refusal (a new connection)
    if (W->end_kind == E_DONE || (W->end_kind == E_EXIT && !SL->listening)) continue;
    require_res_end(how.c_str());
  }
}
// the server on a database that some interrupted tool left; it may refuse to start, but not answer wrongly
void chain_server(Kind k, const std::string& file, const Recs& have, bool may_refuse, unsigned bits) {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 1800 * SEC; Rng g(choose(S_WORK, 1u << 20));
  for (int i = 0; i < 3; ++i) if (i != k) d.db[i] = random_db(g, static_cast<Kind>(i), 3);
  d.have[k] = true; d.db[k] = have;
  a = {std::string("--") + fmts[k] + "-db", file, "--threads", std::to_string(1 + choose(S_WORK, 3))};
  if (bits) a.insert(a.end(), {"--toc", "--toc-bits", std::to_string(bits)});
  const uint32_t n = 1 + choose(S_WORK, 3), per = 1 + choose(S_WORK, 6);
  for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, per, 9));
  SL = static_cast<SrvLog*>(shm_alloc(sizeof(SrvLog))); memset(static_cast<void*>(SL), 0, sizeof *SL);
  o.setup = [] { all = new std::vector<std::shared_ptr<Client>>; at_time(W->now + 1 * MS, wait_listen); };
  run_app("server", a, o); count(C_P_HISTLEN);
  if (SL->viol) violation(SL->cls, "%s", SL->text);
  if (W->end_kind == E_EXIT && !exited_ok() && may_refuse && !SL->listening) return;
  if (W->end_kind == E_EXIT) violation("exited", "the server ended: %s", end_desc().c_str());
  if (W->end_kind != E_DONE) require_clean_end("server");
}
// C25: a server whose database is replaced while it starts or runs
Recs changed_db(Rng& g, const Recs& old, Kind k);              // sc_env.cpp
EnvOp replace_op(const std::string& f, const std::string& data, int64_t mtime);
void replace_server() {
  sc = SrvCfg{}; Dbs d; std::vector<std::string> a; Opt o; o.sched = draw_sched(); o.sched.max_time = 1800 * SEC; g_env = EnvCfg{}; env_record(false);
  Rng g(choose(S_WORK, 1u << 20)); d.have[0] = d.have[1] = d.have[2] = false;
  const uint32_t mask = pickw(S_WORK, {{3, 1}, {1, 2}, {1, 4}, {1, 3}, {1, 7}}); const bool toc = choose(S_WORK, 4) != 0; const unsigned bits = 15 + choose(S_WORK, 6); std::string desc;
  auto gen = [&](Kind k) { const uint32_t e = pickw(S_WORK, {{1, 1}, {2, 4}, {2, 40}, {1, 200}}); Recs r = toc_db(g, k, bits, e, pickw(S_WORK, {{2, 3}, {2, 20}, {1, 200}})); sort_hash(r, k); return r; };
  for (int k = 0; k < 3; ++k) {
    const Kind kd = static_cast<Kind>(k); if (!(mask & (1u << k))) { d.db[k] = random_db(g, kd, 3); continue; }
    d.have[k] = true; d.db[k] = gen(kd); const std::string f = std::string(fmts[k]) + ".bin", b = bin(d.db[k], kd); vfs_put("/w/" + f, b.data(), b.size(), W->now - 10 * SEC);
    a.push_back(std::string("--") + fmts[k] + "-db"); a.push_back(f); desc += std::string(" ") + fmts[k] + " " + std::to_string(d.db[k].size());
  }
  const uint32_t th = pickw(S_WORK, {{1, 1}, {2, 2}, {2, 4}}); a.insert(a.end(), {"--threads", std::to_string(th)}); if (toc) a.insert(a.end(), {"--toc", "--toc-bits", std::to_string(bits)});
  desc += ", " + std::to_string(th) + " threads" + (toc ? ", toc " + std::to_string(bits) : "");
  std::vector<Dbs> vers; const uint32_t nv = 1 + choose(S_WORK, 3); static const int64_t age[] = {0, -20 * SEC, -5 * SEC, 5 * SEC};
  for (uint32_t i = 0; i < nv; ++i) {
    Dbs v = i ? vers.back() : d; int k; do k = static_cast<int>(choose(S_WORK, 3)); while (!d.have[k]); const Kind kd = static_cast<Kind>(k);
    v.db[k] = choose(S_WORK, 2) ? gen(kd) : changed_db(g, v.db[k], kd); vers.push_back(v);
    g_env.ops.push_back(replace_op(std::string("/w/") + fmts[k] + ".bin", bin(v.db[k], kd), age[choose(S_WORK, 4)]));
  }
  const bool early = choose(S_WORK, 2); static const int64_t when[] = {0, 1 * MS, 5 * MS, 30 * MS, 300 * MS};
  if (early) { g_env.first = 1 + choose(S_TIME, 80); g_env.gap = 1 + choose(S_TIME, 40); } else { g_env.first = UINT32_MAX; for (uint32_t i = 0; i < nv; ++i) sc.replace_at.push_back(when[choose(S_TIME, 5)]); }
  g_vers = &vers; const uint32_t n = 1 + choose(S_WORK, 5), per = 1 + choose(S_WORK, 10); for (uint32_t i = 0; i < n; ++i) sc.plans.push_back(draw_plan(d, per, 12)); g_vers = nullptr;
  if (choose(S_WORK, 3) == 2) { std::string f = "/w/"; for (int k = 0; k < 3; ++k) if (d.have[k]) { vfs_put(f + fmts[k] + ".bin." + std::to_string(bits) + ".toc", "", 0, W->now - 3 * SEC); break; } }
  describe_run("hibp-server:%s; %u connections of %u requests; a database replaced %u times %s", desc.c_str(), n, per, nv, early ? "from its start on" : "while it serves");
  env_start(); run_server(a, o);
  if (W->env_pos) count(C_P_FAULT_HIT);
  env_finish(false);
}
static PropReg r16({"C16", {"server"}, c16, "every run has at least one connection and one request; most have several connections and worker threads", "hibp_server, server.cpp, restinio, asio, http_parser, toc.cpp, flat_file.hpp, ntlm.cpp; SHA-1 is a stand-in for the missing hash-library", "sockets, epoll, clients, pthreads scheduling, file system, clock"});
static PropReg r17({"C17", {"server"}, c17, "every run has disk errors or misbehaving clients, and requests after they stopped", "hibp_server, server.cpp, restinio, asio, http_parser, toc.cpp, flat_file.hpp, ntlm.cpp; SHA-1 is a stand-in for the missing hash-library", "sockets, epoll, clients, pthreads scheduling, file system, clock"});
