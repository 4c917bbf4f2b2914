// Shared by the scenarios of the tools and of the server.
#pragma once
#include "common.h"
struct Faults { int mode = 0; bool capacity = false; };        // 0 none, 1 short transfers and EINTR, 2 a hard error, 3 full disk
Faults draw_tool_faults(Opt& o, bool reads, bool writes, bool std_streams, double p_none);
bool faulted();
void clear_faults();
size_t draw_n(size_t page, bool big);
Opt tool_opt();
void crash_somewhere(Opt& o, uint32_t spread);
Recs toc_db(Rng& g, Kind k, unsigned bits, uint32_t entries, uint32_t per);
const Rec* lookup(const Recs& v, const Rec& q, Kind k);
void from_hex(Rec& r, const std::string& hex);
Rec pw_rec(const std::string& pw, Kind k);
Rec draw_query(const Recs& db, Kind k);
int parse_answer(const std::string& out, std::string& rec);
std::vector<std::string> kind_args(Kind k);
bool has_gap(const Recs& db, unsigned bits);              // some prefix up to the last one has no record
std::string faults_desc(const Opt& o, const Faults& f);
std::string args_desc(const std::vector<std::string>& a);
// memory and descriptors held late in the work must not exceed those held early
void check_growth(const char* what, const char* of, int64_t bytes, int fds);
struct Search { Kind k; bool toc = false; unsigned bits = 20; bool by_pw = false; std::string pw; Rec q{}; std::string raw; };      // raw: a malformed hash
std::vector<std::string> search_args(const Search& s, const std::string& db);
void check_answer(const Search& s, const Recs& db, const char* cls, const char* what, bool std_fault);
std::string diff_error(const Recs& old, const Recs& nw, const std::string& out, Kind k);   // the report applied to the old database; empty if it gives the new one
std::string dupes_report(const Recs& db, Kind k, unsigned bits);
std::string junk(Rng& g, size_t n);
// a sorted database of the size real ones have, or around the limits of 32 bits; it is computed where it is read
uint64_t draw_huge(uint32_t rec);                         // how many records
struct Huge { uint64_t n = 0, step = 0; Recs some; };    // some: records of it, around the interesting places
Huge put_huge(const std::string& path, Kind k, bool below_2_32);
std::string huge_toc(const Huge& h, unsigned bits);
