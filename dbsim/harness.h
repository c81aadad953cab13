#pragma once
#include "sim.h"

/* One simulated execution = a program (what the clients do), a configuration
 * and either a seed (decisions are drawn) or a list of decisions (replay). */
struct Program {
  std::map<std::string, i64> cfg;
  std::vector<std::vector<std::vector<i64>>> ops;   /* [client][op] */
  i64 get(const char *k, i64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};

struct Check {
  const char *name;
  Program (*gen)(u64 seed);
  /* runs one execution; returns "" or "class: text" */
  std::string (*exec)(const Program &p, u64 seed, const std::vector<Dec> *replay);
};
extern std::vector<Check> checks;
void register_checks();
/* policy from the seed, with the step costs of the program's cfg */
Policy draw_policy(Rng &r, const Program &p);
void fold_stats();     /* called by exec after each S.run() */
extern const char *variant_name;
extern bool quiet_stderr;
