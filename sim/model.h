// Small POMDP generator and the executable reference model the simulated runs are checked against.
#pragma once
#include <string>
#include <vector>
#include "sim.h"
typedef std::vector<double> Vec;
struct Model {
  int S = 2, A = 2, O = 2;
  double disc = 0.9;
  bool cost = false;
  std::vector<std::vector<Vec>> T;              // [a][s][s']
  std::vector<std::vector<Vec>> Z;              // [a][s'][o]
  std::vector<std::vector<std::vector<Vec>>> R; // [a][s][s'][o]
  int rkind = 0;                                // 0 (a,s)  1 (a,s,s')  2 full  3 sparse full
  Vec start;
  std::vector<Vec> q; // expected immediate value [a][s]
  void finish();
};
struct ModelSpec {
  uint64_t seed = 1;
  int S = 2, A = 2, O = 2;
  int kind = 0;
}; // kind bits below
enum {
  MK_COST = 1,
  MK_DETT = 2,
  MK_DETZ = 4,
  MK_UNINF = 8,
  MK_SPARSE = 16,
  MK_LOWDISC = 32,
  MK_START = 64,
  MK_NEG = 128,
  MK_NONNEG = 256,
  MK_IMPOSS = 512,
  MK_SMALLR = 1024,
  MK_MIDDISC = 2048
};
Model gen_model(const ModelSpec &s);
std::string render(const Model &m, uint64_t style); // style 0: plain per-entry

struct Alpha {
  int a;
  Vec v;
};
typedef std::vector<Alpha> ASet;
// strict parse of a value function file: 0 ok, else a description in *why
bool parse_alpha(const std::string &t, int S, int A, ASet &out, std::string *why);
struct PgNode {
  long id;
  long a;
  std::vector<long> next;
};
bool parse_pg(const std::string &t, int O, std::vector<PgNode> &out, std::string *why);
std::string write_alpha(const ASet &s);
double value_at(const ASet &s, const Vec &b);
double backup_at(const Model &m, const ASet &prev, const Vec &b);            // one exact DP step
double horizon_value(const Model &m, const ASet &term, int k, const Vec &b); // k exact DP steps by recursion
void action_value_vec(const Model &m, int a, const std::vector<const Vec *> &next, Vec &out);
ASet zero_terminal(const Model &m);
std::vector<Vec> critical_beliefs(const ASet &s, int S, Rng &r, size_t cap, int nrandom);
bool same_set(const ASet &a, const ASet &b, double tol, std::string *why);                   // as multisets of (action, vector)
bool same_values(const ASet &a, const ASet &b, int S, double tol, Rng &r, std::string *why); // as value functions
double usefulness(const ASet &s, size_t i, int S); // max over beliefs of advantage over all others (S<=3)
double vscale(const ASet &s);
