// Framework: scenarios, violations, per-property generators and checkers.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <map>
#include "sim.h"
#include "model.h"

struct Scenario {
  std::string prop;
  std::map<std::string, std::string> kv;
  std::vector<Fault> faults;
  std::string s(const std::string &k, const std::string &d = "") const {
    auto i = kv.find(k);
    return i == kv.end() ? d : i->second;
  }
  long i(const std::string &k, long d = 0) const {
    auto j = kv.find(k);
    return j == kv.end() ? d : strtol(j->second.c_str(), nullptr, 10);
  }
  uint64_t u(const std::string &k, uint64_t d = 0) const {
    auto j = kv.find(k);
    return j == kv.end() ? d : strtoull(j->second.c_str(), nullptr, 10);
  }
  double f(const std::string &k, double d = 0) const {
    auto j = kv.find(k);
    return j == kv.end() ? d : strtod(j->second.c_str(), nullptr);
  }
  bool has(const std::string &k) const { return kv.count(k) != 0; }
  void set(const std::string &k, const std::string &v) { kv[k] = v; }
  void set(const std::string &k, const char *v) { kv[k] = v; }
  void set(const std::string &k, long v) { kv[k] = std::to_string(v); }
  void set(const std::string &k, int v) { kv[k] = std::to_string(v); }
  void set(const std::string &k, uint64_t v) { kv[k] = std::to_string(v); }
  void set(const std::string &k, double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    kv[k] = b;
  }
  std::string text() const;
  static bool parse(const std::string &t, Scenario &out);
};
struct Violation {
  std::string cls, msg;
};

struct Ctx {
  uint64_t hash = 1469598103934665603ull;
  uint64_t runs = 0;
  bool nontrivial = false, tool = false;
  std::string toolmsg;
  bool trace = false;                     // replay mode: print what happens
  bool guard = false;                     // P26: fenced memory, and every run again with other contents of fresh memory
  uint64_t guard_heap = 0;
  Violation mem;                          // first memory error seen in such a run
  std::map<std::string, RunResult> cache; // fault-free reference runs, by plan text
  const RunResult &base(const Plan &p);   // cached (deterministic) run
  RunResult run(const Plan &p);
  RunResult guarded(const Plan &p);
  void probe(const char *name);
  void note(const std::string &s);
};
struct Skip {
  std::string why;
}; // thrown when a scenario is outside the property's precondition

struct Prop {
  const char *id, *title;
  int quick_n, thorough_n;
  void (*gen)(Rng &r, Ctx &c, std::vector<Scenario> &out); // one family from one seed
  bool (*check)(const Scenario &s, Ctx &c, Violation &v);  // true: violated
};
int peer_main(const Scenario &s); // p_mem.cpp
extern const std::vector<Prop> kProps;
std::string plan_text(const Plan &p);
std::string fault_text(const Fault &f);
