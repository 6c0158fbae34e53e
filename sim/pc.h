// Helpers shared by the properties: drawing configurations, building plans, reading results.
#pragma once
#include "fw.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <set>
typedef std::vector<std::string> Strs;
enum {
  CF_EXACT = 1,
  CF_NOENUM = 2,
  CF_ZLZ = 4,
  CF_GRID = 8,
  CF_SMALL = 16,
  CF_FASTPURGE = 32,
  CF_STATS = 64,
  CF_NODISCOUNT1 = 128,
  CF_TINY = 256,
  CF_WIDE = 512, // now and then up to eight states and five actions and observations
  CF_BIG = 1024, // now and then tens of states
  CF_EX = 2048   // now and then one of the program's example models
};
void rand_example(Rng &r, Scenario &s);
std::string model_text(const Scenario &s);
void rand_model(Rng &r, Scenario &s, int flags);
void rand_long(Rng &r, Scenario &s, int lo, int hi);
void rand_options(Rng &r, Scenario &s, int flags); // solution method, purging, sampling options
void rand_env(Rng &r, Scenario &s);                // heap contents, buffering, chunking, pid, clocks, random stream
Model model_of(const Scenario &s);
ProcSpec proc_of(const Scenario &s, const Strs &more = {}); // pomdp-solve -pomdp m.pomdp -o r <options>
Plan plan_of(const Scenario &s, const Strs &more = {});     // one phase, model file m.pomdp, no faults
void term_values(const Scenario &s, Plan &p, const Model &m); // scenario key "term": a file of terminal values
ProcSpec tool_of(const Scenario &s, const Strs &args);
bool solved(const ProcResult &p);                // claims success
bool clean_end(const ProcResult &p);             // exit by itself (any code)
std::string how(const ProcResult &p);            // outcome in words
int epochs_of(const std::string &out);           // number of "Epoch: k..." announcements
int epoch_at(const ProcResult &p, size_t evidx); // announcements written before event index
struct EpochLine {
  int k;
  bool done;
  long size;
  double err;
  double secs, total;
};
std::vector<EpochLine> epoch_lines(const std::string &out);
bool alpha_of(const RunResult &r, const std::string &f, const Model &m, ASet &a, std::string *why);
std::string fstr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int first_fired(const ProcResult &p, int act);                            // event index of the injected fault, -1
int ev_find(const ProcResult &p, int op, const char *path, int from = 0); // event with exact path
size_t announce_pos(const std::string &out, int k);
bool fail(Violation &v, const char *cls, const std::string &msg);
inline const ProcResult &only(const RunResult &r) { return r.p[0]; }
std::string runsum(const ProcResult &p);
std::string tail(const std::string &s, size_t n = 300);
// pick points of execution for asynchronous faults: (seam operation, blocks after it), uniform over time or near operations
Fault rand_async(Rng &r, const ProcResult &base, int act, uint64_t lo_tick, uint64_t hi_tick, int64_t arg = 0);
bool is_work_file(const std::string &n); // the files a run owns besides its results
std::string pgcheck(const Model &m, const ASet &cur, const ASet &prev, const std::string &pgtext, double tol); // "" or why not
extern const double RELTOL;
#define NEED(c, why)                                                                                                             \
  do {                                                                                                                           \
    if (!(c)) throw Skip{why};                                                                                                   \
  } while (0)
void small(Rng &r, Scenario &s, int lo, int hi, int fl = CF_EXACT | CF_FASTPURGE | CF_STATS);
void vary(Rng &r, Scenario &s, bool zlz);
Plan fplan(const Scenario &s, const Strs &more = {}, bool faults = true);
Plan tool_plan(const Scenario &s);
// property checkers
#define DECLP(n)                                                                                                                 \
  void gen_##n(Rng &, Ctx &, std::vector<Scenario> &);                                                                           \
  bool chk_##n(const Scenario &, Ctx &, Violation &)
