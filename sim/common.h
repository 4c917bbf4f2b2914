// Shared by the scenarios: data generation, reference encodings, running an application, drawing configurations.
#pragma once
#include "prop.h"
#include <algorithm>
#include <string>
#include <vector>

struct Rng {                          // bulk data; seeded by one recorded choice so that replays agree
  uint64_t s;
  explicit Rng(uint64_t x) : s(mix64(x ^ 0xABCDEF)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 16) % n) : 0; }
  bool     p(double x) { return static_cast<double>(next() >> 11) * 0x1.0p-53 < x; }
};

enum Kind : int { K_SHA1, K_NTLM, K_T64 };
inline int hlen(Kind k) { return k == K_SHA1 ? 20 : k == K_NTLM ? 16 : 8; }
inline int rlen(Kind k) { return hlen(k) + 4; }
const char* kind_name(Kind k);
struct Rec {
  uint8_t h[20]; int32_t c;
  int cmp(const Rec& o, Kind k) const { return memcmp(h, o.h, static_cast<size_t>(hlen(k))); }
};
using Recs = std::vector<Rec>;
std::string bin(const Recs& v, Kind k);                   // database file
std::string hexhash(const Rec& r, Kind k);
std::string text_line(const Rec& r, Kind k);              // HASH:COUNT
std::string text(const Recs& v, Kind k);                  // one line each
Recs parse_bin(const std::string& s, Kind k);
int32_t draw_count(Rng& r);
Recs random_db(Rng& r, Kind k, size_t n);                 // sorted, distinct
void distinct(Recs& v, Kind k); void relative(Rng& r, Rec& x, const Rec& o, Kind k);
void sort_hash(Recs& v, Kind k);
void sort_count(Recs& v, Kind k);                         // count descending, then hash

// running an application
struct Opt {
  SchedCfg sched; DiskCfg disk; CrashCfg crash; ResCfg res; std::function<void()> setup; bool tty = false;
};
void run_app(const char* app, const std::vector<std::string>& args, const Opt& o);
inline bool exited(int code = -1) { return W->end_kind == E_EXIT && (code < 0 ? true : W->end_code == code); }
inline bool exited_ok() { return exited(0); }
inline bool exited_bad() { return W->end_kind == E_EXIT && W->end_code != 0; }
std::string end_desc();                                    // "exit 1: stderr tail"
// the run ended by a crash of its own, a deadlock, a livelock or a time-out: a violation of the given property clause
void require_clean_end(const char* what, bool crash_ok = false);
std::string tail(const std::string& s, size_t n = 300);

// configurations
SchedCfg draw_sched(bool races = false);                  // for applications with several threads
DiskCfg  draw_soft_disk();                                 // short reads and writes, EINTR only
void     draw_hard_disk(DiskCfg& d, bool reads, bool writes);
uint32_t pickw(Stream s, std::initializer_list<std::pair<double, uint32_t>> w);   // weighted value
std::string db_diff(const std::string& got, const std::string& want, int rec);    // first difference, for messages
std::string hexs(const std::string& s, size_t n = 24);
void check_untouched(const char* cls, const std::vector<std::pair<std::string, std::string>>& before);
// running out of resources (sc_resource.cpp)
struct Asked { uint32_t ge[6] = {}, late[6] = {}, threads = 0, fds = 0; };   // what a run without refusals asked for
Asked asked();
std::string draw_refusal(ResCfg& r, const Asked& n);
void require_res_end(const char* what);
