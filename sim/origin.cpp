#include "origin.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <dlfcn.h>
#include <netdb.h>

OriginLog* OL = nullptr;
const char* const fault_names[] = {"none", "status", "status+body", "redirect", "204", "206", "truncated", "truncated-chunked", "bad-chunk", "reset-before", "reset-mid", "empty-reply", "garbage", "stall-before", "stall-in-headers", "stall-mid-body"};

void origin_log_new(const std::vector<RangeData>& data) {
  size_t n = data.size();
  OL = static_cast<OriginLog*>(shm_alloc(sizeof(OriginLog) + n * sizeof(RangeLog)));
  memset(static_cast<void*>(OL), 0, sizeof(OriginLog) + n * sizeof(RangeLog));
  OL->base = n ? data[0].prefix : 0; OL->n = static_cast<uint32_t>(n); OL->probe = ~0u; OL->first_prefix = ~0u; OL->gap_since = -1;
}
std::string make_body(const Recs& recs, Kind k, uint32_t style) {
  const bool crlf = !(style & 1), trail = style & 2;
  std::string o; bool first = true;
  for (auto& r : recs) {
    if (!first) o += crlf ? "\r\n" : "\n";
    first = false; o += text_line(r, k).substr(5);
  }
  if (trail && !recs.empty()) o += crlf ? "\r\n" : "\n";
  return o;
}
namespace {
OriginCfg cfg; int conn_used, idle_used; uint32_t nconn;
struct Conn;
std::vector<std::weak_ptr<Conn>>& conns = *new std::vector<std::weak_ptr<Conn>>;

void bad(const char* fmt, const std::string& what) { if (OL->bad++ == 0) snprintf(OL->bad_text, sizeof OL->bad_text, fmt, what.substr(0, 150).c_str()); trace("origin: bad request: %s", OL->bad_text); }
void on_change();

struct Conn : Endpoint, std::enable_shared_from_this<Conn> {
  SockP s; std::string in; bool active = false; uint32_t cur = 0; bool reused = false; bool dead = false; bool stalling = false; int64_t stall_t = 0; uint32_t served = 0; uint64_t gen = 0; bool replied = false;
  bool resetting = false;
  void on_open(const SockP& k) override { s = k; if (resetting) { ep_rst(k, 1 * MS); dead = true; } }
  void gone() {
    if (stalling) { stalling = false; int64_t d = W->now - stall_t; if (d > OL->longest_stall) OL->longest_stall = d; ++OL->lowspeed; count(C_P_LOWSPEED); }
    active = false; dead = true; ++gen; on_change();
  }
  void on_fin(const SockP&) override { gone(); if (s) ep_fin(s, 200 * US); }
  void on_reset(const SockP&) override { gone(); }
  void on_data(const SockP&, const char* d, size_t n) override {
    if (dead) return;
    in.append(d, n);
    for (;;) {
      size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
      std::string req = in.substr(0, e); in.erase(0, e + 4);
      if (active) { bad("request while another is outstanding on the connection: %s", req); return; }
      handle(req);
    }
  }
  void handle(const std::string& req) {
    count(C_N_REQ); ++OL->requests;
    std::string line = req.substr(0, req.find("\r\n"));
    const std::string suffix = cfg.kind == K_NTLM ? "?mode=ntlm HTTP/1.1" : " HTTP/1.1";
    bool ok = line.size() == 10 + suffix.size() && line.compare(0, 5, "GET /") == 0 && line.compare(10, std::string::npos, suffix) == 0;
    uint32_t p = 0;
    if (ok) for (int i = 5; i < 10; ++i) { char c = line[static_cast<size_t>(i)]; if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) { ok = false; break; } p = p * 16 + static_cast<uint32_t>(c <= '9' ? c - '0' : c - 'A' + 10); }
    if (!ok) { bad("malformed request line '%s'", line); reply_status(404, ""); return; }
    if (p < OL->base || p >= OL->base + OL->n) { bad("request for a range outside the expected ones: '%s'", line); reply_status(404, ""); return; }
    if (OL->first_prefix == ~0u) OL->first_prefix = p;
    cur = p - OL->base; active = true; replied = false; ++served;
    RangeLog& r = OL->r[cur]; ++r.attempts;
    if (r.ok_done) ++r.after_ok;
    evhash(0x09, static_cast<uint64_t>(p) << 8 | r.attempts);
    trace("origin: request %05X attempt %u (connection %d)", p, r.attempts, s->id);
    if (!OL->first_req) OL->first_req = W->now;
    on_change();
    int f = F_NONE;
    if (cfg.silent) f = F_STALL_BEFORE;
    else if (r.faults < cfg.quota[cur] || cfg.quota[cur] == 255) f = cfg.kinds.empty() ? F_STATUS : cfg.kinds[choose(S_NETF, static_cast<uint32_t>(cfg.kinds.size()))];
    if (f != F_NONE) { ++r.faults; OL->last_fault_time = W->now; faulthash(static_cast<uint64_t>(f), p); count(C_P_FAULT_HIT); }
    const bool internal_retry = served > 1 && (f == F_RST_BEFORE || f == F_EMPTY);   // repeated by libcurl itself on a new connection
    if (!internal_retry) ++r.counted;
    static const int64_t lat[] = {1 * MS, 5 * MS, 40 * MS, 200 * MS, 700 * MS, 1500 * MS};
    int64_t t = cfg.slow ? 1000 * MS : lat[f == F_NONE ? pickw(S_NET, {{4, 0}, {3, 1}, {2, 2}, {1, 3}, {0.4, 4}, {0.2, 5}}) : pickw(S_NET, {{4, 0}, {2, 1}, {1, 2}, {0.3, 3}})];
    if (cfg.next && OL->requests > cfg.next_after) { trace("origin: THE DATA ARE UPDATED"); faulthash(0xD0, OL->requests); cfg.data = cfg.next; cfg.next = nullptr; }
    const RangeData& rd = (*cfg.data)[cur];
    if (f != F_NONE) trace("origin: FAULT %s for %05X", fault_names[f], p);
    static const int codes[] = {500, 503, 429, 404, 403, 400, 502, 201, 202, 203, 226, 410, 507};
    static const Counter cnt[] = {C_N_OK, C_N_STATUS, C_N_STATUS_BODY, C_N_REDIRECT, C_N_204, C_N_204, C_N_TRUNC, C_N_TRUNC_CHUNKED, C_N_TRUNC_CHUNKED, C_N_RST_BEFORE, C_N_RST_MID, C_N_EMPTY, C_N_GARBAGE, C_N_STALL_BEFORE, C_N_STALL_HDR, C_N_STALL_MID};
    count(cnt[f]);
    auto b = rd.body.empty() ? std::string("0123456789ABCDEF0123456789ABCDEF012:5\r\n") : rd.body;
    switch (f) {
    case F_NONE: reply_ok(rd.body, t); return;
    case F_STATUS: { int c = codes[choose(S_NETF, 13)]; send_reply(c, "", "", choose(S_NETF, 2) == 0, t, false, false); return; }
    case F_STATUS_BODY: { int c = codes[choose(S_NETF, 13)]; send_reply(c, "", choose(S_NETF, 2) ? std::string("{ \"statusCode\": 500, \"message\": \"no: 1\" }") : b, choose(S_NETF, 2) == 0, t, false, false); return; }
    case F_REDIRECT: send_reply(choose(S_NETF, 2) ? 301 : 302, cfg.away ? "Location: http://elsewhere.example/FFFFF\r\n" : "Location: http://localhost:8090/FFFFF\r\n", choose(S_NETF, 2) ? b : "", choose(S_NETF, 2) == 0, t, false, false); return;
    case F_204: send_reply(204, "", "", true, t, false, false); return;
    case F_206: send_reply(206, "Content-Range: bytes 0-9/100\r\n", b.substr(0, b.size() / 2), choose(S_NETF, 2) == 0, t, false, false); return;
    case F_TRUNC: case F_TRUNC_CHUNKED: case F_RST_MID: case F_STALL_MID: case F_BADCHUNK: {
      bool ch = f == F_TRUNC_CHUNKED || f == F_BADCHUNK || (f != F_TRUNC && choose(S_NETF, 3) == 1);
      // cut inside the body, with a bias to record boundaries
      size_t cut = choose(S_NETF, static_cast<uint32_t>(b.size()));
      if (choose(S_NETF, 2) == 1) { size_t k = b.find('\n', cut); if (k != std::string::npos && k + 1 < b.size()) cut = k + 1; }
      std::string w = "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n";
      if (ch) { w += "Transfer-Encoding: chunked\r\n\r\n"; char x[32]; if (cut) { snprintf(x, sizeof x, "%zx\r\n", cut); w += x; w += b.substr(0, cut); w += "\r\n"; } if (f == F_BADCHUNK) w += "zz\r\nnot a chunk\r\n"; }
      else w += "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b.substr(0, cut);
      frags(w, t, 300 * MS);
      if (f == F_TRUNC || f == F_TRUNC_CHUNKED || f == F_BADCHUNK) { ep_fin(s, end_t - W->now + 1 * MS); die_at(end_t + 1 * MS); }
      else if (f == F_RST_MID) { ep_rst(s, end_t - W->now + 2 * MS); die_at(end_t + 2 * MS); }
      else begin_stall();
      return; }
    case F_RST_BEFORE: ep_rst(s, t); die_at(W->now + t); return;
    case F_EMPTY: ep_fin(s, t); die_at(W->now + t); return;
    case F_GARBAGE: { static const char* const g[] = {"\x16\x03\x01\x02garbage", "SSH-2.0-OpenSSH_9.6\r\n", "<html>bad</html>\n", "HTTP/1.1\r\n\r\n", "HTTQ/9 200 OK\r\n\r\n"}; std::string w = g[choose(S_NETF, 5)]; if (choose(S_NETF, 2)) w += b; frags(w, t, 0); ep_fin(s, end_t - W->now + 1 * MS); die_at(end_t + 1 * MS); return; }
    case F_STALL_BEFORE: begin_stall(); return;
    case F_STALL_HDR: { std::string w = "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: " + std::to_string(b.size()) + "\r\n\r\n"; frags(w.substr(0, 1 + choose(S_NETF, static_cast<uint32_t>(w.size()))), t, 0); begin_stall(); return; }
    default: abort();
    }
  }
  int64_t end_t = 0;
  void begin_stall() { stalling = true; stall_t = W->now; ++OL->stalls; }
  void die_at(int64_t t) { auto me = shared_from_this(); uint64_t g = ++gen; at_time(t, [me, g] { if (me->gen == g) { me->active = false; me->dead = true; on_change(); } }); }
  // sends the bytes in one or several pieces
  void frags(const std::string& w, int64_t t0, int64_t spread) {
    static const uint32_t ns[] = {1, 2, 3, 6, 14};
    uint32_t n = ns[pickw(S_NET, {{5, 0}, {3, 1}, {2, 2}, {1, 3}, {0.5, 4}})];
    if (n > 1) count(C_N_FRAG);
    static const int64_t sp[] = {0, 1 * MS, 30 * MS, 250 * MS, 900 * MS};
    int64_t total = n > 1 ? std::min(spread, sp[choose(S_NET, 5)]) : 0;
    std::vector<size_t> cuts; for (uint32_t i = 1; i < n && w.size() > 1; ++i) cuts.push_back(1 + choose(S_NET, static_cast<uint32_t>(w.size() - 1)));
    cuts.push_back(w.size()); std::sort(cuts.begin(), cuts.end());
    size_t at = 0; int64_t i = 0; int64_t d = t0;
    for (size_t c : cuts) { d = t0 + total * i / static_cast<int64_t>(cuts.size()); ++i; if (c > at) ep_deliver(s, w.substr(at, c - at), d); at = c; }
    end_t = W->now + d;
  }
  void reply_status(int code, const std::string& body) { active = true; send_reply(code, "", body, true, 1 * MS, false, false); }
  void reply_ok(const std::string& body, int64_t t) { count(C_N_OK); if (body.size() > 16384) count(C_P_BIGBODY); send_reply(200, "", body, weighted(S_NET, {6, 1}) == 0, t, weighted(S_NET, {3, 1}) == 1, true); }
  void send_reply(int code, const std::string& extra, const std::string& body, bool keep, int64_t t, bool chunked, bool ok) {
    std::string w = "HTTP/1.1 " + std::to_string(code) + (code == 200 ? " OK" : " Status") + "\r\n" + extra;
    bool delim = false; if (ok && cfg.slow) keep = true;
    if (ok && !keep && choose(S_NET, 2) == 1) delim = true;
    if (ok) switch (choose(S_NET, 4)) { case 1: w += "Content-Type: text/plain\r\nETag: W/\"0x8DB\"\r\n"; break; case 2: w += "cf-cache-status: HIT\r\nServer: cloudflare\r\n"; break; case 3: w += "X-Long: " + std::string(3000, 'x') + "\r\n"; break; }
    if (!keep) w += "Connection: close\r\n";
    if (code == 204) w += "\r\n";
    else if (delim) w += "\r\n" + body;
    else if (chunked) {
      count(C_N_CHUNKED); w += "Transfer-Encoding: chunked\r\n\r\n";
      size_t at = 0; char x[32];
      while (at < body.size()) { size_t n = std::min(body.size() - at, static_cast<size_t>(1 + choose(S_NET, static_cast<uint32_t>(body.size())))); snprintf(x, sizeof x, "%zx\r\n", n); w += x; w += body.substr(at, n); w += "\r\n"; at += n; }
      w += "0\r\n\r\n";
    } else w += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
    frags(w, t, cfg.slow ? 100 * MS : 1000 * MS);
    if (!keep) ep_fin(s, end_t - W->now + (delim ? 1 * MS : 0));
    auto me = shared_from_this(); uint64_t g = ++gen; uint32_t idx = cur; bool close_after = keep && idle_used < cfg.idle_budget && flip(S_NETF, cfg.p_idleclose);
    at_time(end_t + (delim ? 1 * MS : 0), [me, g, ok, idx, keep, close_after] {
      if (me->gen != g) return;
      me->active = false; if (!keep) me->dead = true;
      if (ok && !me->s->app_closed) { ++OL->r[idx].ok_done; OL->last_done = W->now; sample_held(++OL->done, OL->n); }
      if (close_after) { ++idle_used; count(C_N_IDLECLOSE); faulthash(0x1D1E, idx); int64_t d = static_cast<int64_t>(choose(S_NETF, 4)) * 300 * US; me->dead = true; if (choose(S_NETF, 2)) ep_rst(me->s, d); else ep_fin(me->s, d); trace("origin: closes idle connection %d", me->s->id); }
      on_change();
    });
  }
};
void on_change() {
  uint32_t a = 0;
  for (size_t i = 0; i < conns.size();) { auto c = conns[i].lock(); if (!c) { conns.erase(conns.begin() + static_cast<long>(i)); continue; } if (c->active && c->s && !c->s->app_closed) ++a; ++i; }
  OL->active = a; if (a > OL->max_active) OL->max_active = a;
  if (cfg.todo) {                       // how long were fewer requests outstanding than could have been?
    uint32_t startd = 0; for (uint32_t i = 0; i < OL->n; ++i) if (OL->r[i].attempts) ++startd;
    OL->started = startd;
    bool want = startd < cfg.todo && a < cfg.par;
    if (!want) { if (OL->gap_since >= 0) { int64_t g = W->now - OL->gap_since; if (g > OL->max_gap) { OL->max_gap = g; OL->gap_at = startd; } } OL->gap_since = -1; }
    else if (OL->gap_since < 0 && OL->last_done) OL->gap_since = W->now;
  }
}
} // namespace

// The public endpoint speaks TLS, which the simulated server does not: its urls are redirected here, and nothing else is.
// Every url the program passes must belong to the endpoint it was asked to use.
extern "C" __attribute__((visibility("default"))) int curl_easy_setopt(void* h, int opt, ...) {
  va_list ap; va_start(ap, opt); void* arg = va_arg(ap, void*); va_end(ap);
  using F = int (*)(void*, int, ...); static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "curl_easy_setopt"));
  if ((opt == 64 || opt == 81) && !arg && g_active && cfg.prod) { InSim g; bad("%s", "the identity of the public endpoint is not verified (certificate checks are switched off)"); }
  if (opt != 10002 || !arg || !g_active) return real(h, opt, arg);
  const char* u = static_cast<const char*>(arg); static const char pub[] = "https://api.pwnedpasswords.com/range/";
  InSim g; std::string t; { t = u; const bool is = strncmp(u, pub, sizeof pub - 1) == 0;
    if (is != cfg.prod) { bad("url '%s' is not of the endpoint in use", t); }
    if (is) { t = "http://pwned.sim:8090/" + t.substr(sizeof pub - 1); trace("public endpoint: %s", u); } }
  const int in = t_insim; t_insim = 0; const int rc = real(h, opt, t.c_str()); t_insim = in; return rc;
}

// with the public endpoint, what the simulated network does to a connection may also look like trouble with TLS to the program
static int as_tls(int result) {
  if (!g_active || !cfg.prod || (result != 7 && result != 56)) return result;      // could not connect, receive error
  InSim g; static const int tls[] = {60, 35, 58}; const uint32_t k = choose(S_NETF, 4); if (!k) return result;      // peer not verified, handshake, local certificate
  faulthash(0x715, k); trace("transfer ends with %d instead of %d", tls[k - 1], result); return tls[k - 1];
}
struct CMsg { int msg; void* easy; union { void* p; int result; } data; };
extern "C" __attribute__((visibility("default"))) CMsg* curl_multi_info_read(void* m, int* n) {
  using F = CMsg* (*)(void*, int*); static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "curl_multi_info_read"));
  CMsg* c = real(m, n); if (c && c->msg == 1) c->data.result = as_tls(c->data.result); return c;
}
extern "C" __attribute__((visibility("default"))) int curl_easy_perform(void* h) {
  using F = int (*)(void*); static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "curl_easy_perform")); return as_tls(real(h));
}

void origin_install(const OriginCfg& c) {
  cfg = c; conn_used = idle_used = 0; nconn = 0; conns.clear();
  if (cfg.quota.size() < OL->n) cfg.quota.resize(OL->n, 0);
  on_app_resolve = [](const char* host) {
    ResolveDecision d;
    if (strcmp(host, "pwned.sim")) { d.err = EAI_NONAME; return d; }
    d.v6 = cfg.v6;
    static const int64_t lat[] = {200 * US, 2 * MS, 40 * MS, 600 * MS};
    if (!cfg.slow) d.delay = lat[pickw(S_NET, {{4, 0}, {3, 1}, {2, 2}, {0.5, 3}})];
    if (conn_used < cfg.conn_budget && flip(S_NETF, cfg.p_conn)) {
      ++conn_used; ++OL->conn_faults; OL->last_fault_time = W->now; count(C_P_FAULT_HIT); count(C_N_RESOLVE);
      d.err = choose(S_NETF, 2) ? EAI_NONAME : EAI_AGAIN; faulthash(0xCE, static_cast<uint64_t>(d.err)); trace("origin: NAME RESOLUTION FAULT %d", d.err);
    }
    return d;
  };
  on_app_connect = [](const SockP& s) {
    ConnectDecision d;
    if (s->peer_port != 8090) { bad("connection to an unexpected port%s", ""); d.err = ECONNREFUSED; return d; }
    if (s->peer_v6 && !cfg.v6) { d.err = ECONNREFUSED; d.delay = 100 * US; return d; }
    ++nconn; ++OL->conns;
    static const int64_t lat[] = {300 * US, 1 * MS, 10 * MS, 80 * MS};
    d.delay = cfg.slow ? 1 * MS : lat[pickw(S_NET, {{4, 0}, {3, 1}, {2, 2}, {1, 3}})];
    bool dead = cfg.conn_dead && nconn > (cfg.conn_dead_after == ~0u ? 0 : cfg.conn_dead_after);
    bool fault = dead || (conn_used < cfg.conn_budget && flip(S_NETF, cfg.p_conn));
    auto c2 = std::make_shared<Conn>(); c2->s = s;
    if (fault) {
      ++conn_used; ++OL->conn_faults; OL->last_fault_time = W->now; count(C_P_FAULT_HIT);
      int k = cfg.conn_hang ? 3 : static_cast<int>(pickw(S_NETF, {{3, 0}, {1, 1}, {2, 2}, {0.3, 3}}));
      faulthash(0xCF, static_cast<uint64_t>(k)); trace("origin: CONNECTION FAULT %d", k);
      if (k == 0) { count(C_N_REFUSED); d.err = ECONNREFUSED; return d; }
      if (k == 1) { count(C_N_REFUSED); d.err = choose(S_NETF, 2) ? EHOSTUNREACH : ETIMEDOUT; return d; }
      if (k == 3) { count(C_N_CONNECT_HANG); ++OL->conn_hangs; d.hang = true; return d; }
      count(C_N_CONNRESET); c2->resetting = true;
    }
    conns.push_back(c2); d.ep = c2;
    return d;
  };
}
