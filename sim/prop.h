// Scenarios: one function per property; it runs once per seed inside a forked runner.
#pragma once
#include "core.h"
struct Result {
  int      status;                  // 0 not finished, 1 held, 2 violation, 3 simulator error
  char     cls[48];                 // violation class, stable under minimisation
  char     text[1800];
  char     desc[400];               // the generated workload, in words
  char     known[1200];             // known findings met
  uint64_t evhash, schedhash, faulthash, nevents;
  uint64_t counters[NCOUNTERS];
  int64_t  sim_time;
  uint64_t tape_n, tape_pos; int tape_overflow;
  int      trivial;                 // nothing to exercise in this run
};
struct Prop {
  const char* id;
  std::vector<const char*> apps;    // app_<name>.so
  void (*run)();
  const char* rule;                 // what makes a run non-trivial
  const char* real;                 // components that run real code
  const char* stub;                 // components that are simulated
};
extern std::vector<Prop>& props();
struct PropReg { PropReg(Prop p) { props().push_back(std::move(p)); } };
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void describe_run(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void run_trivial();                 // marks this run as trivial
int (*app_main(const char* name))(int, char**);
extern int g_tier;                  // 0 quick, 1 thorough
// ends the run with a violation/error if the incarnation ended in a way no scenario accepts
