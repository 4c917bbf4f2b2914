// The simulated range server (http://localhost:8090/PREFIX[?mode=ntlm]).
#pragma once
#include "common.h"

struct RangeData { uint32_t prefix = 0; Recs recs; std::string body; };
enum FaultKind : int {
  F_NONE, F_STATUS, F_STATUS_BODY, F_REDIRECT, F_204, F_206, F_TRUNC, F_TRUNC_CHUNKED, F_BADCHUNK, F_RST_BEFORE, F_RST_MID, F_EMPTY,
  F_GARBAGE, F_STALL_BEFORE, F_STALL_HDR, F_STALL_MID, F_MAX
};
extern const char* const fault_names[];

struct RangeLog { uint32_t attempts, counted, faults, ok_done, after_ok; };
struct OriginLog {                       // in shared memory, outlives the incarnation
  uint32_t base, n;
  uint32_t requests, bad; char bad_text[300];
  uint32_t active, max_active, outstanding_max;
  int64_t  last_fault_time, longest_stall, first_req, last_done;
  uint32_t stalls, conn_faults, conn_hangs, conns, lowspeed;
  int64_t  gap_since, max_gap; uint32_t gap_at, started, done;
  uint32_t probe;                        // prefix of the first request of a resume, or ~0
  uint32_t first_prefix;
  RangeLog r[1];
};
struct OriginCfg {
  Kind kind = K_SHA1;
  const std::vector<RangeData>* data = nullptr;      // consecutive prefixes
  const std::vector<RangeData>* next = nullptr; uint32_t next_after = ~0u;     // a newer version of the data, served after that many requests
  std::vector<uint8_t> quota;                        // deliberate failures of each range, 255: always
  std::vector<uint8_t> kinds;                        // enabled fault kinds
  double p_conn = 0; int conn_budget = 0; bool conn_dead = false; bool conn_hang = false; uint32_t conn_dead_after = ~0u;
  bool silent = false;                               // never answers anything
  int  v6 = 0;                                       // 1: also reachable over ::1
  int  slow = 0;                                     // 1: every reply takes 1 s (parallelism), 0: drawn
  double p_idleclose = 0.03; int idle_budget = 3;
  uint32_t todo = 0;                                 // ranges expected to be requested (parallelism), 0: off
  uint32_t par = 0;                                  // the bound
  bool away = false;                                 // redirects lead to another host
  bool prod = false;                                 // run without --testing: the public endpoint, reached through curl_easy_setopt below
};
extern OriginLog* OL;
void origin_log_new(const std::vector<RangeData>& data);       // in the runner, before an incarnation
void origin_install(const OriginCfg& c);                       // in the incarnation (Opt::setup)
std::string make_body(const Recs& recs, Kind k, uint32_t style);
