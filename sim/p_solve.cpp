// Value functions, policy graphs and reports, over random models, options, random streams and memory contents.
#include "pc.h"
static const Strs SAVE = {"-save_all", "true"};
// horizon suited to the size of the model
static int rand_h(Rng &r, const Scenario &s, int cap) {
  long S = s.i("m.S"), A = s.i("m.A"), O = s.i("m.O");
  int h = r.chance(1, 7) ? r.range(6, 11) : r.range(1, cap);
  if (s.has("m.ex")) h = r.range(1, S > 8 || A * O > 12 ? 2 : 4);
  else if (S > 8 || (S >= 4 && A * O >= 12)) h = r.chance(1, 8) ? 2 : 1;
  else if (S >= 4 || A * O >= 9) h = std::min(h, 2);
  else if (A * O >= 6 || (S >= 3 && A * O >= 4 && !(s.i("m.kind") & (MK_LOWDISC | MK_MIDDISC)))) h = std::min(h, 3);
  if (s.s("o.method") == "enum") h = std::min(h, O == 1 ? 6 : 3);
  return h;
}
// runs the scenario, saving every epoch; sets[0] is the terminal value function
struct Hist {
  std::vector<ASet> sets;
  std::vector<std::string> pgs;
  ASet fin;
  std::string finpg;
  Model m;
  const ProcResult *p;
  bool final_is_last;
};
static ASet terminal_of(const Scenario &s, const Model &m) {
  if (!s.has("term")) return zero_terminal(m);
  Rng r(mix2(s.u("term"), 7));
  ASet t;
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) {
    Alpha a;
    a.a = (int)r.below((uint64_t)m.A);
    for (int k = 0; k < m.S; k++) {
      char b[32];
      snprintf(b, sizeof b, "%.3f", r.unit() * 12 - 6);
      a.v.push_back(strtod(b, nullptr));
    }
    t.push_back(a);
  }
  return t;
}
static Plan hist_plan(const Scenario &s, const Model &m, const Strs &more) {
  Plan p = plan_of(s, more);
  if (s.has("term")) {
    p.files["term.alpha"] = write_alpha(terminal_of(s, m));
    p.phases[0].procs[0].args.push_back("-terminal_values");
    p.phases[0].procs[0].args.push_back("term.alpha");
  }
  return p;
}
static bool history(const Scenario &s, Ctx &c, Hist &h, Violation &v) {
  h.m = model_of(s);
  Plan p = hist_plan(s, h.m, SAVE);
  const RunResult &r = c.run(p);
  static RunResult keep;
  keep = r;
  h.p = &keep.p[0];
  NEED(h.p->outcome != O_HANG, "too large");
  NEED(h.p->err.find("Out of memory") == std::string::npos, "more than the simulated memory");
  if (!solved(*h.p)) return fail(v, "no-solution", "a fault-free run gave no solution: " + how(*h.p));
  std::string why;
  h.sets.push_back(terminal_of(s, h.m));
  int n = epochs_of(h.p->out);
  if (n < 1) return fail(v, "no-solution", "no epoch was announced: " + how(*h.p));
  for (int k = 1; k <= n; k++) {
    ASet a;
    if (!alpha_of(keep, "r.alpha" + std::to_string(k), h.m, a, &why))
      return fail(v, "epoch-file", "after " + std::to_string(n) + " epochs: " + why);
    h.sets.push_back(a);
    auto i = keep.disk.find("r.pg" + std::to_string(k));
    h.pgs.push_back(i == keep.disk.end() ? "" : i->second);
  }
  if (!alpha_of(keep, "r.alpha", h.m, h.fin, &why)) return fail(v, "final-file", why);
  auto i = keep.disk.find("r.pg");
  if (i == keep.disk.end()) return fail(v, "final-file", "r.pg does not exist");
  h.finpg = i->second;
  return false;
}
// ---------------------------------------------------------------- P01 value functions
void gen_P01(Rng &r, Ctx &, std::vector<Scenario> &out) {
  Scenario s;
  rand_model(r, s, CF_WIDE | CF_BIG | CF_EX);
  rand_options(r, s, CF_EXACT | CF_FASTPURGE);
  s.set("h", rand_h(r, s, 6));
  rand_long(r, s, 1, 6);
  rand_env(r, s);
  if (r.chance(1, 4)) s.set("term", (long)r.below(1u << 20));
  if (r.chance(1, 8)) s.set("o.discount", fstr("%.2f", 0.5 + r.below(45) / 100.0));
  out.push_back(s);
  if (r.chance(1, 2)) {
    Scenario t = s;
    for (auto it = t.kv.begin(); it != t.kv.end();)
      if (it->first.compare(0, 2, "o.") == 0) it = t.kv.erase(it);
      else ++it;
    rand_options(r, t, CF_EXACT);
    if (s.has("o.discount")) t.set("o.discount", s.s("o.discount"));
    if (t.s("o.method") == "enum") t.set("h", std::min(t.i("h"), 2l));
    rand_env(r, t);
    out.push_back(t);
  }
}
bool chk_P01(const Scenario &s, Ctx &c, Violation &v) {
  Hist h;
  if (history(s, c, h, v)) return true;
  if (s.has("o.discount")) h.m.disc = s.f("o.discount");
  c.nontrivial = true;
  Rng r(mix2(s.u("m.seed"), 11));
  for (size_t k = 1; k < h.sets.size(); k++) {
    double tol = RELTOL * std::max(vscale(h.sets[k]), vscale(h.sets[k - 1]));
    for (auto &b : critical_beliefs(h.sets[k], h.m.S, r, 400, 25)) {
      double x = value_at(h.sets[k], b), y = backup_at(h.m, h.sets[k - 1], b);
      if (!(std::fabs(x - y) <= tol)) {
        std::string bs;
        for (double q : b) bs += fstr("%.9f ", q);
        return fail(v, "value",
                    fstr("epoch %zu of %zu: at belief (%s) the solution is worth %.12g, one exact step from the previous one "
                         "%.12g (%zu vectors)",
                         k, h.sets.size() - 1, bs.c_str(), x, y, h.sets[k].size()));
      }
    }
  }
  std::string why;
  if (!same_set(h.fin, h.sets.back(), RELTOL * vscale(h.fin), &why))
    return fail(v, "final", "final solution differs from the last epoch's: " + why);
  size_t K = h.sets.size() - 1;
  if (K <= 3 && h.m.A * h.m.O <= 6)
    for (int i = 0; i < 6; i++) {
      Vec b(h.m.S);
      double t = 0;
      for (auto &x : b) {
        x = -std::log(1 - r.unit() * 0.999);
        t += x;
      }
      for (auto &x : b) x /= t;
      double x = value_at(h.fin, b), y = horizon_value(h.m, h.sets[0], (int)K, b);
      if (!(std::fabs(x - y) <= 10 * RELTOL * vscale(h.fin)))
        return fail(v, "value-tree", fstr("%zu-step value %.12g, by the whole decision tree %.12g", K, x, y));
    }
  if (s.has("h") && K < (size_t)s.i("h")) c.probe("stopped before the horizon");
  if (K >= 3) c.probe("three or more epochs");
  if (h.fin.size() >= 8) c.probe("eight or more vectors");
  if (h.m.cost) c.probe("cost model");
  if (h.m.S >= 5) c.probe("five or more states");
  if (h.m.A >= 4 || h.m.O >= 4) c.probe("four or more actions or observations");
  c.probe(("method " + s.s("o.method", "incprune")).c_str());
  return false;
}
// ---------------------------------------------------------------- P02 nothing superfluous
void gen_P02(Rng &r, Ctx &, std::vector<Scenario> &out) {
  Scenario s;
  rand_model(r, s, CF_WIDE | CF_EX);
  rand_options(r, s, CF_EXACT);
  s.set("h", rand_h(r, s, 6));
  rand_long(r, s, 1, 6);
  rand_env(r, s);
  if (r.chance(1, 5)) s.set("term", (long)r.below(1u << 20));
  out.push_back(s);
}
bool chk_P02(const Scenario &s, Ctx &c, Violation &v) {
  Hist h;
  if (history(s, c, h, v)) return true;
  c.nontrivial = true;
  for (size_t k = 1; k < h.sets.size(); k++) {
    ASet &a = h.sets[k];
    double sc = vscale(a);
    for (size_t i = 0; i < a.size(); i++) {
      for (size_t j = i + 1; j < a.size(); j++) {
        double d = 0;
        for (int q = 0; q < h.m.S; q++) d = std::max(d, std::fabs(a[i].v[q] - a[j].v[q]));
        if (d < 1e-11 * sc)
          return fail(v, "duplicate", fstr("epoch %zu: vectors %zu and %zu of %zu are the same", k, i, j, a.size()));
      }
      double u = usefulness(a, i, h.m.S);
      if (u < -1e-6 * sc)
        return fail(v, "useless",
                    fstr("epoch %zu: vector %zu of %zu is below the others by %.3g everywhere", k, i, a.size(), -u));
    }
    // the simulator's own history: fewest vectors any belief sweep can justify
    if (a.size() >= 4) c.probe("four or more vectors");
  }
  std::string why;
  if (!same_set(h.fin, h.sets.back(), RELTOL * vscale(h.fin), &why))
    return fail(v, "final", "final solution differs from the last epoch's: " + why);
  return false;
}
// ---------------------------------------------------------------- P03 policy graph
void gen_P03(Rng &r, Ctx &, std::vector<Scenario> &out) {
  Scenario s;
  rand_model(r, s, CF_WIDE | CF_BIG | CF_EX);
  if (r.chance(1, 4)) s.set("m.kind", s.i("m.kind") | MK_IMPOSS);
  rand_options(r, s, CF_EXACT | CF_GRID | CF_FASTPURGE);
  s.set("h", rand_h(r, s, 6));
  rand_long(r, s, 1, 6);
  rand_env(r, s);
  if (r.chance(1, 4)) s.set("term", (long)r.below(1u << 20));
  out.push_back(s);
}
bool chk_P03(const Scenario &s, Ctx &c, Violation &v) {
  Hist h;
  if (history(s, c, h, v)) return true;
  c.nontrivial = true;
  std::string w;
  for (size_t k = 1; k < h.sets.size(); k++) {
    w = pgcheck(h.m, h.sets[k], h.sets[k - 1], h.pgs[k - 1], RELTOL * std::max(vscale(h.sets[k]), vscale(h.sets[k - 1])));
    if (!w.empty()) return fail(v, "graph", fstr("epoch %zu: ", k) + w);
  }
  w = pgcheck(h.m, h.fin, h.sets[h.sets.size() - 2], h.finpg,
              RELTOL * std::max(vscale(h.fin), vscale(h.sets[h.sets.size() - 2])));
  if (!w.empty()) return fail(v, "graph", "final: " + w);
  if (h.finpg.find(" -") != std::string::npos) c.probe("impossible observations");
  if (h.sets.size() > 2) c.probe("two or more epochs");
  c.probe(("method " + s.s("o.method", "incprune")).c_str());
  return false;
}
