// Progress: runs end, within a number of steps that other runs of the same task bound.
#include "pc.h"
typedef std::vector<Scenario> Fam;
static const char *TOOLS[] = {"sort_alphas", "purge_alphas", "compare_alphas", "map_beliefs", "belief_alpha_compare", "pg_eval", "pg_relink",
                              "update_beliefs"};
static void rand_faults(Rng &r, Scenario &t, const ProcResult &b) {
  int n = r.range(1, 3);
  while (n--) {
    Fault f;
    int k = (int)r.below(12);
    if (k < 3) {
      f.trig = 'a';
      f.act = r.chance(1, 3) ? A_ALLOC_FAIL_FROM : A_ALLOC_FAIL;
      f.n = 1 + r.below(b.allocs + 1);
    } else if (k < 8) {
      static const int A[] = {A_WRITE_ERR, A_WRITE_SHORT, A_OPEN_FAIL, A_CLOSE_ERR, A_RENAME_FAIL, A_UNLINK_FAIL, A_READ_ERR, A_READ_SHORT, A_DISK_FULL};
      static const int O[] = {OP_WRITE, OP_WRITE, OP_OPEN, OP_CLOSE, OP_RENAME, OP_UNLINK, OP_READ, OP_READ, OP_WRITE};
      int w = (int)r.below(9);
      std::vector<uint64_t> at;
      for (auto &e : b.ev)
        if (e.op == O[w]) at.push_back(e.n);
      if (at.empty()) continue;
      f.trig = 'o';
      f.act = A[w];
      f.n = r.pick(at);
      f.arg = f.act == A_WRITE_SHORT ? (int64_t)r.below(4000) * 256 : f.act == A_READ_SHORT ? (int64_t)r.below(64) : f.act == A_OPEN_FAIL || f.act == A_RENAME_FAIL || f.act == A_UNLINK_FAIL ? 13 : r.chance(1, 2) ? 5 : 28;
    } else if (k < 10) {
      static const int A[] = {A_SIGINT, A_SIGTERM};
      f = rand_async(r, b, A[r.below(2)], 0, b.ticks);
    } else if (k == 10) {
      static const int64_t J[] = {-1, 1, -3600, 3600, -86400, 100000000, -2000000000, 2147483647};
      f = rand_async(r, b, A_CLOCK_JUMP, 0, b.ticks, J[r.below(8)]);
    } else f = rand_async(r, b, r.chance(1, 2) ? A_TIMES_FAIL : A_STALL, 0, b.ticks, (int64_t)r.below(1000000));
    t.faults.push_back(f);
  }
}
static Scenario plain(const Scenario &s) { // the same task, by the default method
  Scenario t = s;
  t.faults.clear();
  for (auto it = t.kv.begin(); it != t.kv.end();)
    if (it->first.compare(0, 2, "o.") == 0) it = t.kv.erase(it);
    else ++it;
  return t;
}
void gen_P25(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  int k = (int)r.below(10);
  if (k < 4) { // the methods against each other
    small(r, s, 1, 6, CF_EXACT | CF_GRID | CF_STATS);
    if (r.chance(1, 4)) s.set("term", (long)r.below(1u << 20) + 1);
    s.set("live", "method");
    out.push_back(s);
  } else if (k < 6) { // no horizon
    small(r, s, 1, 3, CF_EXACT | CF_STATS);
    s.kv.erase("o.enum_purge");
    if (s.s("o.method") == "enum") s.kv.erase("o.method");
    if (r.chance(1, 4)) s.set("term", (long)r.below(1u << 20) + 1);
    s.set("m.kind", (s.i("m.kind") & ~MK_MIDDISC) | MK_LOWDISC);
    if (r.chance(1, 3)) s.set("o.discount", fstr("%.2f", r.range(2, 40) / 100.0));
    s.set("o.stop_criteria", "bellman");
    static const char *D[] = {"0.01", "0.1", "0.5", "3"};
    s.set("o.stop_delta", std::string(D[r.below(4)]));
    s.kv.erase("h");
    s.set("live", "stop");
    out.push_back(s);
  } else if (k < 8) { // anything may fail
    small(r, s, 1, 4, CF_EXACT | CF_GRID | CF_FASTPURGE | CF_STATS);
    vary(r, s, true);
    const RunResult &B = c.base(fplan(s, {}, false));
    NEED(solved(B.p[0]), "base fails");
    s.set("live", "fault");
    for (int i = 0; i < 6; i++) {
      Scenario t = s;
      rand_faults(r, t, B.p[0]);
      out.push_back(t);
    }
  } else if (k == 8) { // damaged models
    small(r, s, 1, 2, CF_EXACT);
    s.set("live", "input");
    std::string x = render(model_of(s), s.u("style"));
    for (int i = 0; i < 5; i++) {
      Scenario t = s;
      if (r.chance(1, 3)) t.set("x.cut", (long)r.below(x.size()));
      else {
        t.set("x.flip", (long)r.below(x.size()));
        t.set("x.byte", (long)(r.chance(1, 2) ? r.below(256) : (uint64_t) ".:-*\n #aRTO"[r.below(11)]));
      }
      out.push_back(t);
    }
  } else {
    rand_model(r, s, 0);
    rand_env(r, s);
    s.set("tool", std::string(TOOLS[r.below(8)]));
    for (auto q : {"n", "k", "nb"}) s.set(q, (long)r.range(1, 8));
    s.set("seed", (long)r.below(1u << 30));
    s.set("live", "tool");
    const RunResult &B = c.base(tool_plan(s));
    NEED(B.p[0].outcome == O_EXIT, "base fails");
    for (int i = 0; i < 5; i++) {
      Scenario t = s;
      rand_faults(r, t, B.p[0]);
      out.push_back(t);
    }
  }
}
static void limit(Plan &p, uint64_t blocks) {
  for (auto &ph : p.phases)
    for (auto &q : ph.procs) q.budget = blocks;
}
bool chk_P25(const Scenario &s, Ctx &c, Violation &v) {
  std::string live = s.s("live");
  if (live == "method") {
    Plan p = fplan(plain(s), {}, false);
    limit(p, 3000000);
    const RunResult b = c.base(p);
    NEED(solved(b.p[0]), "too large");
    uint64_t most = 100 * b.p[0].ticks + 1000000;
    p = fplan(s, {}, false);
    limit(p, most);
    RunResult a = c.run(p);
    c.nontrivial = true;
    c.probe(("method " + s.s("o.method", "incprune")).c_str());
    if (a.p[0].ticks > 5 * b.p[0].ticks) c.probe("more than five times the work of the default method");
    if (a.p[0].outcome == O_HANG)
      return fail(v, "endless", fstr("the default method takes %llu blocks for this, -method %s has not ended after %llu",
                                     (unsigned long long)b.p[0].ticks, s.s("o.method", "incprune").c_str(), (unsigned long long)most));
    return false;
  }
  if (live == "stop") {
    Model m = model_of(s);
    if (s.has("o.discount")) m.disc = s.f("o.discount");
    Plan p = fplan(s, {}, false);
    double R = 0, V = 0;
    for (auto &x : m.R)
      for (auto &y : x)
        for (auto &z : y)
          for (double w : z) R = std::max(R, std::fabs(w));
    if (s.has("term")) V = 100; // term_values goes no further
    double first = R + (1 + m.disc) * V, thr = s.f("o.stop_delta") * (1 - m.disc) / (2 * m.disc);
    int K = 1;
    while (first * std::pow(m.disc, K - 1) > 0.99 * thr) K++;
    p.phases[0].procs[0].args.push_back("-horizon");
    p.phases[0].procs[0].args.push_back(std::to_string(K + 2));
    RunResult a = c.run(p);
    NEED(a.p[0].outcome != O_HANG, "too large");
    if (!solved(a.p[0])) return fail(v, "no-solution", how(a.p[0]));
    c.nontrivial = true;
    int n = epochs_of(a.p[0].out);
    c.probe(n > 3 ? "stopped by itself after more than three epochs" : "stopped by itself early");
    if (n > K) return fail(v, "went-on", fstr("after %d epochs the value functions cannot differ by more than %.4g, but the run goes on", K, thr));
    return false;
  }
  if (live == "fault" || live == "tool") {
    Scenario s0 = s;
    s0.faults.clear();
    bool tool = live == "tool";
    const RunResult b = c.base(tool ? tool_plan(s0) : fplan(s0, {}, false));
    NEED(tool ? b.p[0].outcome == O_EXIT : solved(b.p[0]), "base fails");
    uint64_t most = 20 * b.p[0].ticks + 200000;
    Plan p = tool ? tool_plan(s0) : fplan(s0, {}, false);
    p.faults = s.faults;
    limit(p, most);
    RunResult a = c.run(p);
    for (size_t i = 0; i < a.fired.size(); i++)
      if (a.fired[i]) c.nontrivial = true, c.probe(kActionName[s.faults[i].act]);
    if (a.p[0].outcome == O_HANG)
      return fail(v, "stuck", fstr("%s ends after %llu blocks; with the fault it has not ended after %llu", tool ? s.s("tool").c_str() : "the run",
                                   (unsigned long long)b.p[0].ticks, (unsigned long long)most));
    return false;
  }
  Plan p = fplan(s, {}, false);
  std::string &x = p.files["m.pomdp"];
  if (s.has("x.cut")) {
    if ((size_t)s.i("x.cut") < x.size()) x.resize((size_t)s.i("x.cut"));
  } else if ((size_t)s.i("x.flip") < x.size()) x[(size_t)s.i("x.flip")] = (char)s.i("x.byte");
  long number = 0, big = 0; // a size may have become a large one
  for (char ch : x) {
    number = ch >= '0' && ch <= '9' ? number * 10 + ch - '0' : 0;
    if (number > 100000) number = 100000;
    big = std::max(big, number);
  }
  limit(p, 5000000);
  RunResult a = c.run(p);
  c.nontrivial = true;
  c.probe(epochs_of(a.p[0].out) ? "a damaged model is solved" : "a damaged model is refused");
  NEED(big < 1000, "too large");
  if (a.p[0].outcome == O_HANG && !epochs_of(a.p[0].out)) return fail(v, "reading", fstr("the model is still being read after %llu blocks", (unsigned long long)a.p[0].ticks));
  return false;
}
