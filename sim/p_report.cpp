// Files of every epoch, truthful reports, stopping guarantees, approximate methods, configuration, equivalent inputs.
#include "pc.h"
#include <memory>
typedef std::vector<Scenario> Fam;
static std::string get(const RunResult &r, const std::string &f) {
  auto i = r.disk.find(f);
  return i == r.disk.end() ? "" : i->second;
}
static Plan seeded(const Scenario &s, const Strs &more = {}, bool faults = false) {
  Plan p = plan_of(s, more);
  if (s.has("term")) term_values(s, p, model_of(s));
  if (s.has("oldrep") && std::find(more.begin(), more.end(), std::string("rep.txt")) != more.end()) {
    std::string o;
    for (long i = 0; i < s.i("oldrep"); i++) o += fstr("line %ld of an older report\n", i);
    p.files["rep.txt"] = o + "Solution found.\n";
  }
  if (!s.has("o.rand_seed")) {
    auto &a = p.phases[0].procs[0].args;
    a.push_back("-rand_seed");
    a.push_back("1:2:3");
  }
  if (faults) p.faults = s.faults;
  return p;
}
static bool toolarge(const ProcResult &p) { return p.outcome == O_HANG || p.err.find("Out of memory") != std::string::npos; }
static const Strs ALL = {"-save_all", "true"};
static uint64_t announce_tick(const ProcResult &p, int k) {
  size_t pos = announce_pos(p.out, k);
  if (pos == std::string::npos) return p.ticks;
  for (auto &e : p.ev)
    if (e.op == OP_OUT && e.a + (uint64_t)e.res > pos) return e.tick;
  return p.ticks;
}
static double worst_gain(const ASet &cur, const ASet &prev, int S) {
  double w = -INFINITY;
  for (auto &c : cur) {
    ASet t = prev;
    t.push_back(c);
    w = std::max(w, usefulness(t, t.size() - 1, S));
  }
  return w;
} // sup over beliefs of max(cur) - max(prev)
static void mid(Rng &r, Scenario &s, int lo, int hi, int fl) {
  do {
    s.kv.clear();
    rand_model(r, s, CF_TINY);
  } while (s.i("m.S") == 3 && s.i("m.A") * s.i("m.O") > 4);
  rand_options(r, s, fl | CF_NOENUM * (r.chance(2, 3) ? 1 : 0));
  int h = r.range(lo, hi);
  if (s.s("o.method") == "enum") h = std::min(h, 3);
  s.set("h", h);
  rand_long(r, s, lo, hi);
  rand_env(r, s);
  s.set("p.budget", 60000000l);
}

static void widen(Rng &r, Scenario &s, int h) { // a model of more states, actions or observations
  Scenario w;
  do {
    w.kv.clear();
    rand_model(r, w, CF_WIDE | CF_BIG);
  } while (w.i("m.S") < 4);
  for (auto k : {"m.seed", "m.S", "m.A", "m.O", "m.kind"}) s.set(k, w.s(k));
  s.set("h", h);
  if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
}
// ---------------------------------------------------------------- P14 files of every epoch
void gen_P14(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  mid(r, s, 1, 5, CF_EXACT | CF_GRID | CF_FASTPURGE);
  s.set("o.save_all", "true");
  if (r.chance(2, 3)) s.set("o.save_penultimate", "true");
  out.push_back(s);
  if (r.chance(1, 2)) {
    const RunResult &B = c.base(seeded(s));
    if (solved(B.p[0]))
      for (int i = 0; i < 2; i++) {
        Scenario t = s;
        t.set("p.so", SO_UNBUF);
        t.faults = {rand_async(r, B.p[0], A_SIGINT, B.p[0].ticks / 8, B.p[0].ticks)};
        out.push_back(t);
      }
  }
}
// Without parsimonious pruning a solution may hold identical vectors, and sorting leaves open which comes first.
static bool tied(const std::string &text, const Model &m, ASet &a) {
  if (!parse_alpha(text, m.S, m.A, a, nullptr)) return false;
  for (size_t i = 0; i < a.size(); i++)
    for (size_t j = 0; j < i; j++) {
      size_t x = 0;
      while (x < a[i].v.size() && a[i].v[x] == a[j].v[x]) x++;
      if (x == a[i].v.size() || std::fabs(a[i].v[x] - a[j].v[x]) < 1e-13) return true;
    }
  return false;
}
static bool same_alpha_text(const std::string &x, const std::string &y, const Model &m) {
  ASet a, b;
  if (x == y) return true;
  return tied(x, m, a) && tied(y, m, b) && same_set(a, b, 0, nullptr);
}
bool chk_P14(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  Plan p = seeded(s, {}, true);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  NEED(!toolarge(q), "too large");
  bool sig = false;
  for (auto &e : q.ev)
    if (e.op == OP_DELIVER) {
      if (!e.res) throw Skip{"before the run was set up"};
      sig = true;
    }
  if (sig) c.probe("interrupted");
  if (!solved(q)) return fail(v, "no-solution", how(q));
  int K = epochs_of(q.out);
  c.nontrivial = K >= 1;
  std::set<std::string> want{"m.pomdp", "r.alpha", "r.pg"};
  std::string why;
  ASet a;
  std::vector<char> tie((size_t)K + 1, 0);
  for (int k = 1; k <= K; k++) {
    Scenario t = s;
    t.faults.clear();
    t.set("h", k);
    t.kv.erase("o.save_penultimate");
    t.kv.erase("o.save_all");
    const RunResult &H = c.base(seeded(t));
    NEED(solved(H.p[0]) && epochs_of(H.p[0].out) == k, "shorter run");
    for (auto n : {"alpha", "pg"}) {
      std::string f = std::string("r.") + n + std::to_string(k);
      want.insert(f);
      if (!r.disk.count(f)) return fail(v, "missing", fstr("%d epochs, but %s was not written", K, f.c_str()));
      if (n[0] == 'a') {
        tie[k] = tied(get(r, f), m, a);
        if (tie[k]) c.probe("identical vectors in a solution");
      }
      std::string h = get(H, std::string("r.") + n);
      if (n[0] == 'a' ? !same_alpha_text(get(r, f), h, m) : get(r, f) != h && !tie[k] && !tie[k - 1])
        return fail(v, "differs", fstr("%s is not what a run of %d epoch(s) gives", f.c_str(), k));
    }
  }
  if (!same_alpha_text(get(r, "r.alpha"), get(r, "r.alpha" + std::to_string(K)), m))
    return fail(v, "final", "r.alpha is not the last epoch's file");
  if (get(r, "r.pg") != get(r, "r.pg" + std::to_string(K)) && !tie[K] && !tie[K - 1])
    return fail(v, "final", "r.pg is not the last epoch's file");
  if (s.s("o.save_penultimate") == "true" && K >= 2) {
    want.insert("r.prev.alpha");
    if (!same_alpha_text(get(r, "r.prev.alpha"), get(r, "r.alpha" + std::to_string(K - 1)), m))
      return fail(v, "penultimate", fstr("r.prev.alpha is not the value function of epoch %d of %d", K - 1, K));
    c.probe("penultimate file");
  }
  for (auto &d : r.disk)
    if (!want.count(d.first)) return fail(v, "extra", d.first + " was not asked for");
  if (K >= 3) c.probe("three or more epochs");
  return false;
}
// ---------------------------------------------------------------- P15 what the report says
void gen_P15(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  do mid(r, s, 1, 6, CF_EXACT | CF_GRID);
  while (s.i("m.S") > 3);
  s.set("p.so", SO_UNBUF);
  s.set("p.ns", (long)(r.chance(1, 6) ? r.range(1000000, 100000000) : r.range(10, 60000))); // up to hours
  if (r.chance(1, 3)) s.set("x.again", 1);
  if (r.chance(2, 3)) {
    static const char *C[] = {"weak", "bellman", "exact"};
    s.set("o.stop_criteria", std::string(C[r.below(3)]));
  }
  if (r.chance(4, 5)) {
    static const char *D[] = {"0.0001", "0.01", "0.5", "3", "20"};
    s.set("o.stop_delta", std::string(D[r.below(5)]));
  }
  if (r.chance(1, 2)) {
    s.set("h", (long)r.range(5, 14));
    s.set("m.kind", (s.i("m.kind") & ~MK_MIDDISC) | MK_LOWDISC);
    if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
  }
  if (r.chance(1, 5)) { // far enough for two value functions in a row to be the same
    s.set("o.discount", fstr("%.2f", r.range(2, 25) / 100.0));
    s.set("h", (long)r.range(12, 24));
    if (r.chance(2, 3)) s.set("o.stop_criteria", "exact");
    if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
  }
  if (r.chance(1, 4)) s.set("o.stat_summary", "true");
  if (s.s("o.method") == "grid") s.set("o.fg_save", "true");
  else if (r.chance(1, 6)) {
    widen(r, s, r.range(2, 4));
    if (r.chance(2, 3)) s.set("o.stop_criteria", "bellman");
  }
  out.push_back(s);
}
// the times at the end: add up, and are the simulated clock's
static bool end_times(const std::string &out, double last, double most, Vec &parts, Violation &v) {
  double sum[3] = {0, 0, 0};
  static const char *N[] = {"User time", "System time", "Total execution time"};
  for (int i = 0; i < 3; i++) {
    size_t p = out.find(N[i]);
    if (p == std::string::npos) return fail(v, "end-times", std::string(N[i]) + " is not reported");
    int h, m;
    double x;
    if (sscanf(out.c_str() + p + strlen(N[i]), " = %d hrs., %d mins, %lf secs. (= %lf secs)", &h, &m, &x, &sum[i]) != 4)
      return fail(v, "end-times", std::string(N[i]) + " is not reported as it should be");
    if (h < 0 || m < 0 || m > 59 || x < -0.006 || x > 60.006 || std::fabs(3600.0 * h + 60.0 * m + x - sum[i]) > 0.011)
      return fail(v, "end-times", fstr("%s: %d h %d min %.2f s are not %.2f s", N[i], h, m, x, sum[i]));
  }
  if (std::fabs(sum[0] + sum[1] - sum[2]) > 0.016)
    return fail(v, "end-times", fstr("user %.2f s and system %.2f s are not %.2f s in total", sum[0], sum[1], sum[2]));
  if (sum[2] > most + 0.02 || sum[2] < last - 0.02)
    return fail(v, "end-times", fstr("%.2f s in total; the last epoch ended after %.2f s, the run after %.2f s", sum[2], last, most));
  size_t p = out.find("Total context time: ");
  if (p == std::string::npos) return false;
  double t = atof(out.c_str() + p + 20), u = 0;
  size_t q = out.find("Total execution time"), k = 0;
  while (q != std::string::npos && q < p) {
    size_t e = out.find('\n', q);
    if (e == std::string::npos) break;
    q = e + 1;
    size_t c = out.find(" time: ", q);
    if (c < out.find('\n', q) && q < out.rfind('\n', p)) parts.push_back(atof(out.c_str() + c + 7)), u += parts.back(), k++;
  }
  if (std::fabs(t - u) > 0.006 * (double)(k + 1))
    return fail(v, "end-times", fstr("the parts' times add up to %.2f s, %.2f s are reported", u, t));
  if (t > sum[2] + 0.02) return fail(v, "end-times", fstr("the parts took %.2f s of %.2f s", t, sum[2]));
  return false;
}
static std::string canon_err(double e) { return std::isinf(e) ? "inf" : fstr("%.2e", e); }
bool chk_P15(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  if (s.has("o.discount")) m.disc = s.f("o.discount");
  NEED(m.S <= 8, "too many states");
  Plan p = seeded(s, ALL);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  NEED(!toolarge(q), "too large");
  if (!solved(q)) return fail(v, "no-solution", how(q));
  c.nontrivial = true;
  auto L = epoch_lines(q.out);
  int K = (int)L.size();
  std::string crit = s.s("o.stop_criteria", "weak"), why;
  bool grid = s.s("o.method") == "grid";
  double delta = s.f("o.stop_delta", 1e-9), thr = delta * (1 - m.disc) / (2 * m.disc);
  std::vector<Vec> gp;
  if (grid) {
    std::string t = get(r, "r.belief");
    const char *x = t.c_str();
    std::vector<double> num;
    char *e;
    for (;;) {
      double d = strtod(x, &e);
      if (e == x) break;
      num.push_back(d);
      x = e;
    }
    NEED(num.size() % (size_t)m.S == 0 && !num.empty(), "no grid file");
    for (size_t i = 0; i < num.size(); i += (size_t)m.S) gp.push_back(Vec(num.begin() + (long)i, num.begin() + (long)i + m.S));
  }
  ASet prev = zero_terminal(m), cur;
  double tot = 0;
  uint64_t ns = p.phases[0].procs[0].ns_per_tick;
  for (int k = 1; k <= K; k++, prev = cur) {
    const EpochLine &l = L[(size_t)k - 1];
    if (l.k != k) return fail(v, "numbering", fstr("epoch %d is reported as %d", k, l.k));
    if (!l.done) return fail(v, "unfinished", fstr("epoch %d has no result line", k));
    if (!alpha_of(r, "r.alpha" + std::to_string(k), m, cur, &why)) return fail(v, "file", why);
    if ((size_t)l.size != cur.size())
      return fail(v, "size", fstr("epoch %d reports %ld vectors, its file has %zu", k, l.size, cur.size()));
    double sc = vscale(cur);
    double e = 0, tol = 0, alt = -1;
    if (grid) {
      for (auto &b : gp) e = std::max(e, std::fabs(value_at(cur, b) - value_at(prev, b)));
      tol = 1e-8 * sc;
    } else if (crit == "weak") {
      e = 0;
      for (auto &x : cur) {
        double mn = INFINITY;
        for (auto &y : prev) {
          double d = 0;
          for (int j = 0; j < m.S; j++) d = std::max(d, std::fabs(x.v[j] - y.v[j]));
          mn = std::min(mn, d);
        }
        e = std::max(e, mn);
      }
      for (auto &x : prev) {
        double mn = INFINITY;
        for (auto &y : cur) {
          double d = 0;
          for (int j = 0; j < m.S; j++) d = std::max(d, std::fabs(x.v[j] - y.v[j]));
          mn = std::min(mn, d);
        }
        e = std::max(e, mn);
      }
      tol = 1e-10 * sc;
      if (std::fabs(e - delta) < 1e-9 * sc) continue;
      if (e > delta) e = INFINITY;
    } else if (crit == "bellman") {
      double g = worst_gain(cur, prev, m.S), h = worst_gain(prev, cur, m.S);
      if (std::isinf(g) || std::isinf(h)) continue; // no certain answer
      e = std::max(0.0, std::max(g, h));
      tol = 2e-6 * sc;
    } else {
      ASet c0 = cur, p0 = prev;
      for (auto &x : c0) x.a = 0;
      for (auto &x : p0) x.a = 0;
      bool same = same_set(c0, p0, 2e-9, nullptr), samev = same_set(c0, p0, 0.5e-9, nullptr);
      if (same != samev) continue;
      bool tie = false; // such vectors may be sorted either way
      for (size_t i = 0; i < cur.size(); i++)
        for (size_t j = 0; j < i; j++) tie |= std::fabs(cur[i].v[0] - cur[j].v[0]) < 1e-8;
      if (same && tie) continue;
      if (same) c.probe("the same value function twice");
      e = same ? 0 : INFINITY;
    }
    (void)alt;
    bool ok = std::isinf(e) ? std::isinf(l.err) : std::fabs(l.err - e) <= tol + 0.006 * std::fabs(e);
    if (!ok)
      return fail(v, "error",
                  fstr("epoch %d reports a difference of %.3g (%s), it is %.6g", k, l.err, grid ? "grid" : crit.c_str(), e));
    bool stop = l.err <= thr * 1.006 + 1e-300, sure = l.err < thr * 0.994 || (l.err == 0 && thr >= 0);
    if (crit == "exact" && !grid) {
      stop = l.err == 0;
      sure = stop;
    }
    if (k < K && sure)
      return fail(
          v, "went-on",
          fstr("epoch %d reports a difference of %.3g, below the stopping threshold %.3g, but the run went on", k, l.err, thr));
    if (k == K && !stop && !(s.has("h") && K == s.i("h")))
      return fail(v, "stopped",
                  fstr("stopped after %d epochs although the difference %.3g is above %.3g and the horizon is %ld", K, l.err, thr,
                       s.i("h")));
    if (k == K && stop) c.probe("stopped by its criterion");
    if (l.secs < -1e-9 || l.total < tot - 0.011)
      return fail(v, "times", fstr("epoch %d: %.2f s, total %.2f s after %.2f s", k, l.secs, l.total, tot));
    double t0 = (double)announce_tick(q, k) * (double)ns * 1e-9,
           t1 = (double)(k < K ? announce_tick(q, k + 1) : q.ticks) * (double)ns * 1e-9,
           first = (double)announce_tick(q, 1) * (double)ns * 1e-9;
    if (l.secs > t1 - t0 + 0.045)
      return fail(v, "times", fstr("epoch %d took at most %.3f s of processor time, %.2f s are reported", k, t1 - t0, l.secs));
    if (l.total > t1 - first + 0.045 || l.total + 0.045 < t0 - first)
      return fail(v, "times",
                  fstr("after epoch %d %.3f to %.3f s of processor time were used, %.2f s are reported", k, t0 - first,
                       t1 - first, l.total));
    tot = l.total;
  }
  if (s.has("h") && K > s.i("h")) return fail(v, "horizon", fstr("%d epochs for horizon %ld", K, s.i("h")));
  Vec parts;
  if (end_times(q.out, tot, (double)q.ticks * (double)ns * 1e-9, parts, v)) return true;
  if (s.i("x.again")) { // the files of the epochs make no difference
    RunResult r2 = c.run(seeded(s, {}));
    auto M = epoch_lines(r2.p[0].out);
    NEED(crit != "bellman" || M.size() == L.size() || M.empty() ||
             std::fabs(L[std::min(L.size(), M.size()) - 1].err - thr) > 0.01 * thr + 4e-6 * vscale(prev),
         "at the threshold");
    if (!solved(r2.p[0]) || M.size() != L.size()) return fail(v, "again", fstr("%zu epochs, without -save_all %zu", L.size(), M.size()));
    for (size_t k = 0; k < M.size(); k++)
      if (M[k].size != L[k].size || (canon_err(M[k].err) != canon_err(L[k].err) &&
                                     !(std::fabs(M[k].err - L[k].err) <= 4e-6 * vscale(prev) + 0.006 * L[k].err))) // sorted or not
        return fail(v, "again", fstr("epoch %zu: %ld vectors, difference %.3g, without -save_all %ld and %.3g", k + 1, L[k].size, L[k].err,
                                     M[k].size, M[k].err));
    c.probe("with and without -save_all");
  }
  if (s.s("o.stat_summary") == "true") { // the table repeats the lines
    size_t t = q.out.find("Epoch  Size");
    if (t == std::string::npos) return fail(v, "summary", "no table");
    int k = 0;
    const char *x = q.out.c_str() + t;
    x = strchr(x, '\n');
    Vec total(7, 0.0);
    while (x && *x) {
      x++;
      if (*x == '\n') {
        x = strchr(x, '\n');
        continue;
      }
      long ep, sz;
      char er[40];
      double tm;
      if (sscanf(x, "%ld %ld %39s %lf", &ep, &sz, er, &tm) == 4) {
        k++;
        if (k > K || ep != k || sz != L[(size_t)k - 1].size || std::fabs(tm - L[(size_t)k - 1].secs) > 0.0051)
          return fail(v, "summary", fstr("row %d of the table does not repeat epoch %d's line", k, k));
        double d[6], u = 0;
        if (sscanf(x, "%*d %*d %*s %*f %*s %lf %lf %lf %lf %lf %lf", d, d + 1, d + 2, d + 3, d + 4, d + 5) != 6)
          return fail(v, "summary", fstr("row %d of the table lacks times", k));
        for (int i = 0; i < 6; i++) u += d[i], total[(size_t)i + 1] += d[i];
        total[0] += tm;
        if (u > tm + 0.045) return fail(v, "summary", fstr("epoch %d: %.2f s for its parts, %.2f s in all", k, u, tm));
      } else if (k) {
        double d[7];
        if (sscanf(x, " Totals %lf %lf %lf %lf %lf %lf %lf", d, d + 1, d + 2, d + 3, d + 4, d + 5, d + 6) != 7)
          return fail(v, "summary", "the row of totals is missing");
        for (size_t i = 0; i < 7; i++)
          if (std::fabs(d[i] - total[i]) > 0.006 * (K + 1))
            return fail(v, "summary", fstr("column %zu adds up to %.2f, its total is given as %.2f", i, total[i], d[i]));
        for (size_t i = 0; i < 6 && parts.size() == 6; i++)
          if (std::fabs(parts[i] - total[i + 1]) > 0.006 * (K + 1))
            return fail(v, "summary", fstr("part %zu took %.2f s, in the table %.2f s", i + 1, parts[i], total[i + 1]));
        if (total[1] + total[2] + total[3] + total[4] > 0.1) c.probe("times of parts");
        break;
      }
      x = strchr(x + (*x == '\n'), '\n');
    }
    if (k != K) return fail(v, "summary", fstr("%d rows for %d epochs", k, K));
    c.probe("summary table");
  }
  c.probe(grid ? "grid" : ("criterion " + crit).c_str());
  return false;
}
// ---------------------------------------------------------------- P24 what a stopped run guarantees
static void rand_trap(Rng &r, Scenario &s) { // values that fall although the vectors that are left stay the same
  long n = r.range(2, 4);
  s.set("m.trap", n);
  s.set("m.S", n + 2);
  s.set("m.A", 3l);
  s.set("m.O", n + 2);
  s.set("m.kind", 0l);
  s.set("h", 30l);
}
void gen_P24(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  do { mid(r, s, 30, 30, CF_EXACT | CF_NOENUM); } while (s.s("o.method") == "enum");
  s.set("m.kind", (s.i("m.kind") & ~MK_MIDDISC) | MK_LOWDISC);
  s.set("o.stop_criteria", std::string(r.chance(2, 3) ? "bellman" : r.chance(2, 3) ? "weak" : "exact"));
  static const char *D[] = {"0.001", "0.01", "0.1", "1", "5"};
  s.set("o.stop_delta", std::string(D[r.below(5)]));
  if (r.chance(2, 5)) {
    s.set("o.vi_variation", "zlz");
    s.set("o.witness_points", "true");
  }
  if (r.chance(1, 4)) s.kv.erase("h");
  if (r.chance(1, 8)) {
    rand_trap(r, s);
    s.set("o.stop_criteria", std::string(r.chance(1, 2) ? "weak" : r.chance(1, 2) ? "bellman" : "exact"));
  } else if (s.s("o.vi_variation") != "zlz" && r.chance(1, 2)) {
    s.set("term", (long)r.below(1u << 20) + 1);
    if (r.chance(1, 2)) s.set("m.kind", (s.i("m.kind") & ~(MK_COST | MK_NEG)) | MK_NONNEG);
  }
  out.push_back(s);
}
bool chk_P24(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  NEED(m.disc < 0.9, "slow to converge");
  if (s.has("m.trap")) c.probe("values that fall while the vectors stay");
  std::string crit = s.s("o.stop_criteria", "weak");
  Plan p = seeded(s);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  NEED(!toolarge(q), "too large");
  if (!solved(q)) return fail(v, "no-solution", how(q));
  int K = epochs_of(q.out);
  NEED(!s.has("h") || K < s.i("h"), "stopped by its horizon");
  c.nontrivial = true;
  ASet a;
  std::string why;
  if (!alpha_of(r, "r.alpha", m, a, &why)) return fail(v, "file", why);
  double delta = crit == "exact" ? 0 : s.f("o.stop_delta", 1e-9), lim = delta * (1 - m.disc) / 2, sc = vscale(a), tol = 5e-6 * sc;
  Rng rr(mix2(s.u("m.seed"), 23));
  for (auto &b : critical_beliefs(a, m.S, rr, 500, 60)) {
    double x = value_at(a, b), y = backup_at(m, a, b);
    if (std::fabs(y - x) > lim + tol)
      return fail(v, "not-optimal",
                  fstr("stopped after %d epochs: one more exact step changes the value by %.6g, for a result within %g of "
                       "optimal it may be %.6g at most",
                       K, y - x, delta / 2, lim));
  }
  c.probe(s.s("o.vi_variation") == "zlz" ? "with point-based speedup" : "plain");
  c.probe(crit == "weak" ? "weak criterion" : crit == "exact" ? "exact criterion" : "Bellman criterion");
  if (s.has("term")) c.probe("from given terminal values");
  return false;
}
// ---------------------------------------------------------------- P16 variations of value iteration
void gen_P16(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  mid(r, s, 2, 6, CF_EXACT);
  bool z = r.chance(1, 2);
  if (z) {
    s.set("o.vi_variation", "zlz");
    s.set("o.witness_points", "true");
    s.set("m.kind", (s.i("m.kind") & ~(MK_MIDDISC | MK_NEG)) | MK_LOWDISC);
    if (r.chance(2, 3)) s.set("m.kind", (s.i("m.kind") & ~MK_COST) | MK_NONNEG);
    if (r.chance(1, 2)) {
      s.set("o.stop_criteria", "bellman");
      s.set("o.stop_delta", "0.001");
    }
  } else if (r.chance(1, 3)) { // one coarse precision for the whole run
    static const char *E[] = {"0.0001", "0.001", "0.01", "0.1", "0.5"};
    if (r.chance(1, 3)) {
      s.set("o.epsilon", std::string(E[r.below(4)]));
      if (r.chance(1, 2)) s.set("o.lp_epsilon", std::string(r.chance(1, 2) ? "0.00000001" : "0.0000000001"));
    } else {
      std::string k = s.s("o.method") == "enum" ? "o.enum_purge" : r.chance(2, 3) ? "o.q_purge" : "o.proj_purge";
      s.set(k, "epsilon_prune");
      if (r.chance(3, 4)) s.set("o.prune_epsilon", std::string(E[r.below(5)]));
    }
    s.set("h", (long)r.range(1, 6));
    if (s.s("o.method") == "enum") s.set("h", 3);
  } else {
    s.set("o.vi_variation", "adjustable_epsilon");
    static const char *E[] = {"0.001", "0.01", "0.1", "0.5"};
    s.set("o.start_epsilon", std::string(E[r.below(4)]));
    bool two = r.chance(1, 2);
    if (r.chance(3, 4)) s.set("o.epsilon_adjust", std::string(two ? "2" : r.chance(1, 2) ? "4" : "10"));
    if (r.chance(1, 2)) s.set("o.end_epsilon", "0.0001");
    else if (r.chance(2, 3)) { // exactly on the way down
      double e = s.f("o.start_epsilon", 0.1), f = s.f("o.epsilon_adjust", 10);
      for (int k = r.range(0, 3); k > 0; k--) e /= f;
      s.set("o.end_epsilon", fstr("%.17g", e));
    }
    if (r.chance(5, 6)) s.set("o.history_length", (long)r.range(1, 3));
    if (r.chance(3, 4)) s.set("o.history_delta", (long)(r.chance(1, 3) ? 50 : r.range(1, 5)));
    if (r.chance(1, 6)) s.kv.erase("o.start_epsilon");
    if (r.chance(1, 3)) s.set("o.q_purge", "epsilon_prune");
    s.set("h", (long)r.range(2, 9));
    if (s.s("o.method") == "enum") s.set("h", 3);
    if (r.chance(1, 3)) s.set("o.stat_summary", "true");
  }
  out.push_back(s);
}
bool chk_P16(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  bool z = s.s("o.vi_variation") == "zlz";
  Plan p = seeded(s, ALL);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  NEED(!toolarge(q), "too large");
  if (!solved(q)) return fail(v, "no-solution", how(q));
  int K = epochs_of(q.out);
  c.nontrivial = true;
  std::string why;
  Rng rr(mix2(s.u("m.seed"), 29));
  ASet prev = zero_terminal(m), cur;
  bool mono = !m.cost;
  for (auto &x : m.q)
    for (double y : x)
      if (y < 0) mono = false;
  if (z) { // only grows on top of exact steps, and never passes what acting for ever can give
    if (!mono) {
      c.nontrivial = false;
      return false;
    }
    double rmax = 0;
    for (auto &x : m.q)
      for (double y : x) rmax = std::max(rmax, y);
    Alpha mdp;
    mdp.a = 0;
    mdp.v = Vec((size_t)m.S, 0.0);
    for (int it = 0; it < 3000; it++) {
      Vec n((size_t)m.S, 0.0);
      for (int i = 0; i < m.S; i++)
        for (int a = 0; a < m.A; a++) {
          double u = m.q[(size_t)a][(size_t)i];
          for (int j = 0; j < m.S; j++) u += m.disc * m.T[(size_t)a][(size_t)i][(size_t)j] * mdp.v[(size_t)j];
          n[(size_t)i] = std::max(n[(size_t)i], u);
        }
      mdp.v = n;
    }
    for (auto &x : mdp.v) x += std::pow(m.disc, 3000) * rmax / (1 - m.disc);
    ASet top{mdp}, plain;
    double tail = -1;
    auto judge = [&](bool exact) { // exact: the reference run must not lose vectors (known finding of P01)
      tail = -1;
      if (m.disc < 0.85) {
        Scenario t = s;
        for (auto k : {"o.vi_variation", "o.stop_criteria", "o.stop_delta", "o.witness_points"}) t.kv.erase(k);
        t.set("h", 9);
        std::unique_ptr<LpTight> tight(exact ? new LpTight : nullptr);
        Plan hp = seeded(t);
        if (exact) hp.files["exact"] = ""; // not the remembered run
        const RunResult &H = c.base(hp);
        if (solved(H.p[0]) && epochs_of(H.p[0].out) == 9 && alpha_of(H, "r.alpha", m, plain, &why))
          tail = std::pow(m.disc, 9) * rmax / (1 - m.disc);
      }
      for (int k = 1; k <= K + 1; k++) {
        if (!alpha_of(r, k > K ? "r.alpha" : "r.alpha" + std::to_string(k), m, cur, &why)) return fail(v, "file", why);
        double sc = vscale(cur), tol = 5e-6 * sc;
        auto bs = critical_beliefs(cur, m.S, rr, 200, 20);
        for (auto &b : bs) {
          double x = value_at(cur, b);
          if (tail >= 0 && x > value_at(plain, b) + tail + tol)
            return fail(v, "too-high",
                        fstr("epoch %d of %d: the value %.9g cannot be reached, %.9g is an upper limit", k, K, x,
                             value_at(plain, b) + tail));
          if (x > backup_at(m, top, b) + tol)
            return fail(
                v, "too-high",
                fstr("epoch %d of %d: the value %.9g cannot be reached, %.9g is an upper limit", k, K, x, backup_at(m, top, b)));
        }
        if (m.A * m.O <= 4)
          for (int i = 0; i < 6; i++) {
            const Vec &b = bs[rr.below(bs.size())];
            int n = std::min(3, k > K ? K : k);
            double x = value_at(cur, b), y = horizon_value(m, zero_terminal(m), n, b);
            if (x < y - 1e-5 * sc)
              return fail(v, "too-low", fstr("after %d epochs the value is %.9g, %d plain steps give %.9g", k, x, n, y));
          }
        if (tail >= 0 && k == K + 1 && K >= 9)
          for (auto &b : bs)
            if (value_at(cur, b) < value_at(plain, b) - tol)
              return fail(
                  v, "too-low",
                  fstr("after %d epochs the value is %.9g, 9 plain steps give %.9g", K, value_at(cur, b), value_at(plain, b)));
      }
      return false;
    };
    if (judge(false) && judge(true)) return true;
    v = Violation();
    if (tail >= 0) c.probe("compared with long plain run");
    c.probe("point-based speedup");
    if (!s.has("h") || K < s.i("h")) c.probe("converged");
    return false;
  }
  bool adj = s.has("o.vi_variation");
  bool drops = false; // at most one of these
  for (auto k : {"o.q_purge", "o.proj_purge", "o.enum_purge"}) drops = drops || s.s(k) == "epsilon_prune";
  double eps = adj ? s.f("o.start_epsilon", 0.1) : std::max(s.f("o.epsilon", 1e-9), drops ? s.f("o.prune_epsilon", 1e-3) : 0.0);
  // after an epoch: refined if it is still coarser than the end, and the last sizes are close together
  double endeps = s.f("o.end_epsilon", 1e-3), factor = s.f("o.epsilon_adjust", 10);
  long hl = s.i("o.history_length", 5), hd = s.i("o.history_delta", 3);
  auto L = epoch_lines(q.out);
  size_t pos = 0; // the program says which precision each epoch uses
  for (int k = 1; k <= K; k++) {
    size_t a = announce_pos(q.out, k);
    std::string seg = q.out.substr(pos, a - pos);
    size_t e = seg.find(">>");
    pos = a;
    if (adj && e != std::string::npos) {
      const char *n = strpbrk(seg.c_str() + e, "0123456789");
      double x = n ? strtod(n, nullptr) : -1;
      if (k == 1 ? std::fabs(x - eps) > 1e-3 * eps : !(x < eps))
        return fail(v, "epsilon", fstr("before epoch %d the precision goes from %g to %g", k, eps, x));
      if (k > 1) {
        if (std::fabs(x - eps / factor) > 1e-3 * eps / factor)
          return fail(v, "epsilon", fstr("before epoch %d the precision goes from %g to %g, with factor %g", k, eps, x, factor));
        if (eps <= endeps)
          return fail(v, "epsilon", fstr("before epoch %d the precision goes from %g to %g, beyond the end %g", k, eps, x, endeps));
        eps /= factor;
        c.probe("precision refined");
      }
    }
    if (adj && k > 1 && k - 2 < (int)L.size() && L[(size_t)k - 2].done) {
      long lo = 1l << 40, hi = -1;
      bool have = k - 1 >= hl;
      for (long j = k - 1 - hl; have && j < k - 1; j++) {
        lo = std::min(lo, L[(size_t)j].size);
        hi = std::max(hi, L[(size_t)j].size);
      }
      double before = e != std::string::npos ? eps * factor : eps;
      bool want = have && hi - lo <= hd && before > endeps;
      bool close = std::fabs(before - endeps) < 1e-9 * endeps; // rounding decides
      if (close && factor != 10) close = false;
      if (!close && want != (e != std::string::npos))
        return fail(v, "epsilon",
                    fstr("after epoch %d the precision %g was%s refined; end %g, the last %ld sizes differ by %ld, allowed %ld", k - 1,
                         before, want ? " not" : "", endeps, hl, have ? hi - lo : -1, hd));
      if (before == endeps) c.probe("precision has reached its end exactly");
    }
    if (!alpha_of(r, "r.alpha" + std::to_string(k), m, cur, &why)) return fail(v, "file", why);
    double sc = vscale(cur), tol = 1e-6 * std::max(sc, vscale(prev));
    // one purge drops what costs less than eps; with a coarse arithmetic the linear programs of all stages do
    double slack = s.s("o.q_purge") == "epsilon_prune" && s.s("o.method") != "enum" ? 1.001 * eps
                   : s.s("o.enum_purge") == "epsilon_prune"                        ? 1.001 * eps
                                                                                   : eps * (2 * m.O + 3);
    if (s.s("o.proj_purge") == "epsilon_prune") slack = 1.001 * m.O * eps;
    for (auto &b : critical_beliefs(cur, m.S, rr, 200, 20)) {
      double x = value_at(cur, b), y = backup_at(m, prev, b);
      if (x > y + tol) return fail(v, "too-high", fstr("epoch %d: the value %.9g is above one exact step (%.9g)", k, x, y));
      if (x < y - slack - tol)
        return fail(v, "too-low",
                    fstr("epoch %d with precision %g: the value %.9g is too far below one exact step (%.9g)", k, eps, x, y));
    }
    std::string w = pgcheck(m, cur, prev, get(r, "r.pg" + std::to_string(k)), RELTOL * std::max(vscale(cur), vscale(prev)));
    if (!w.empty()) return fail(v, "graph", fstr("epoch %d: ", k) + w);
    prev = cur;
  }
  c.probe(adj ? "adjustable precision" : drops ? "epsilon pruning" : "coarse precision");
  return false;
}
// ---------------------------------------------------------------- P17 grids
void gen_P17(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  mid(r, s, 1, 6, CF_EXACT);
  for (auto k : {"o.inc_prune", "o.enum_purge"}) s.kv.erase(k);
  s.set("o.method", "grid");
  static const char *T[] = {"simplex", "pairwise", "search", "initial"};
  s.set("o.fg_type", std::string(T[r.below(4)]));
  s.set("o.fg_points", (long)(r.chance(1, 2) ? r.range(1, 12) : r.range(10, 80)));
  if (r.chance(1, 3)) s.set("o.fg_purge", std::string(r.chance(1, 2) ? "none" : "domonly"));
  s.set("o.fg_save", "true");
  if (r.chance(1, 4)) s.set("o.fg_epsilon", std::string(r.chance(1, 3) ? "0.05" : r.chance(1, 2) ? "0.01" : "0.000001"));
  if (r.chance(1, 8)) {
    widen(r, s, r.range(1, 3));
    s.set("o.method", "grid");
    // the normal pruning of tens of states meets linear programs the bundled solver fails on (a known finding)
    if (s.i("m.S") > 8) s.set("o.fg_purge", std::string(r.chance(1, 2) ? "none" : "domonly"));
  }
  if (r.chance(1, 2)) s.set("m.kind", s.i("m.kind") | MK_START);
  out.push_back(s);
}
bool chk_P17(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  Plan p = seeded(s, ALL);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  NEED(!toolarge(q), "too large");
  if (!solved(q)) return fail(v, "no-solution", how(q));
  c.nontrivial = true;
  int K = epochs_of(q.out);
  std::string why, t = get(r, "r.belief"), type = s.s("o.fg_type", "initial");
  if (t.empty()) return fail(v, "grid-file", "the grid was not saved");
  std::vector<Vec> gp;
  std::vector<double> num;
  const char *x = t.c_str();
  char *e;
  for (;;) {
    double d = strtod(x, &e);
    if (e == x) break;
    num.push_back(d);
    x = e;
  }
  if (num.empty() || num.size() % (size_t)m.S) return fail(v, "grid-file", "the saved grid is incomplete");
  for (size_t i = 0; i < num.size(); i += (size_t)m.S) gp.push_back(Vec(num.begin() + (long)i, num.begin() + (long)i + m.S));
  for (auto &b : gp) {
    double sum = 0;
    for (double y : b) {
      if (y < -1e-12) return fail(v, "grid", "a grid point has a negative entry");
      sum += y;
    }
    if (std::fabs(sum - 1) > 1e-6) return fail(v, "grid", fstr("a grid point sums to %.9g", sum));
  }
  double same = s.f("o.fg_epsilon", 1e-9);
  auto has = [&](const Vec &b, double tol) {
    for (auto &g : gp) {
      double d = 0;
      for (int i = 0; i < m.S; i++) d = std::max(d, std::fabs(g[(size_t)i] - b[(size_t)i]));
      if (d < tol) return true;
    }
    return false;
  };
  if (type == "simplex" || type == "pairwise") {
    size_t want = (size_t)m.S + (type == "pairwise" ? (size_t)(m.S * (m.S - 1) / 2) : 0);
    if (gp.size() != want) return fail(v, "grid", fstr("%zu grid points instead of %zu", gp.size(), want));
    for (int i = 0; i < m.S; i++)
      for (int j = 0; j <= (type == "pairwise" ? i : 0); j++) {
        Vec b((size_t)m.S, 0.0);
        if (j == i || type == "simplex") b[(size_t)i] = 1;
        else b[(size_t)i] = b[(size_t)j] = 0.5;
        if (!has(b, 1e-7)) return fail(v, "grid", "a corner or midpoint is missing from the grid");
      }
  } else {
    long cap = s.i("o.fg_points", 10000);
    if ((long)gp.size() > cap + m.A * m.O + 1 + (type == "search" ? m.A * m.O + 1 : 0))
      return fail(v, "grid", fstr("%zu grid points where %ld were asked for", gp.size(), cap));
    auto near = [&](const Vec &a, const Vec &b, double d) {
      for (int i = 0; i < m.S; i++)
        if (std::fabs(a[(size_t)i] - b[(size_t)i]) >= d) return false;
      return true;
    };
    for (size_t i = 0; i < gp.size(); i++)
      for (size_t j = 0; j < i; j++)
        if (near(gp[i], gp[j], 0.99 * same)) return fail(v, "grid", fstr("grid points %zu and %zu are the same", j, i));
    std::vector<Vec> seeds{m.start.empty() || type == "search" ? Vec((size_t)m.S, 1.0 / m.S) : m.start};
    if (!has(seeds[0], 1e-7))
      return fail(v, "grid", fstr("the %s belief is not on the grid", type == "search" ? "uniform" : "initial"));
    if (type == "search") // what can be seen, whatever was before
      for (int a = 0; a < m.A; a++)
        for (int o = 0; o < m.O; o++) {
          bool odd = false; // something as rare as the precision: counted or not
          Vec b;
          for (double lim : {0.999 * same, 1.001 * same}) {
            double n = 0;
            b.assign((size_t)m.S, 0.0);
            for (int i = 0; i < m.S; i++) {
              double z = m.Z[(size_t)a][(size_t)i][(size_t)o];
              odd = odd || (z > 0 && z < lim);
              if (z >= lim) b[(size_t)i] = 1, n++;
            }
            if (n == 0) {
              odd = true;
              continue;
            }
            for (auto &y : b) y /= n;
            seeds.push_back(b);
          }
          if (!odd && !has(b, 1.01 * same))
            return fail(v, "grid", fstr("the states that show observation %d after action %d are not on the grid", o, a));
        }
    // every point is reached from another, and a grid below its limit is closed under what can happen
    bool closed = (long)gp.size() < cap;
    std::vector<char> reached(gp.size());
    for (size_t i = 0; i < gp.size(); i++)
      for (auto &x : seeds)
        if (near(gp[i], x, 1e-7)) reached[i] = 1;
    for (auto &b : gp)
      for (int a = 0; a < m.A; a++)
        for (int o = 0; o < m.O; o++) {
          Vec nb((size_t)m.S, 0.0);
          double tt = 0;
          for (int j = 0; j < m.S; j++) {
            double u = 0;
            for (int i = 0; i < m.S; i++) u += b[(size_t)i] * m.T[(size_t)a][(size_t)i][(size_t)j];
            nb[(size_t)j] = u * m.Z[(size_t)a][(size_t)j][(size_t)o];
            tt += nb[(size_t)j];
          }
          if (tt <= 0) continue;
          for (auto &y : nb) y /= tt;
          for (size_t i = 0; i < gp.size(); i++)
            if (!reached[i] && near(gp[i], nb, 1e-7)) reached[i] = 1;
          if (closed && tt >= 1e-7 && !has(nb, std::max(1e-7, 1.01 * same)))
            return fail(
                v, "grid",
                fstr("the grid has %zu of %ld points and is finished, but a reachable belief is missing", gp.size(), cap));
        }
    for (size_t i = 0; i < gp.size(); i++)
      if (!reached[i]) return fail(v, "grid", fstr("grid point %zu is reached from no other", i));
    if (closed) c.probe("all reachable beliefs on the grid");
    if (s.has("o.fg_epsilon")) c.probe("coarse grid");
  }
  ASet prev = zero_terminal(m), cur;
  Rng rr(mix2(s.u("m.seed"), 31));
  for (int k = 1; k <= K; k++, prev = cur) {
    if (!alpha_of(r, "r.alpha" + std::to_string(k), m, cur, &why)) return fail(v, "file", why);
    double tol = 1e-6 * std::max(vscale(cur), vscale(prev));
    for (auto &b : gp) {
      double y = value_at(cur, b), w = backup_at(m, prev, b);
      if (!(std::fabs(y - w) <= tol))
        return fail(v, "grid-value", fstr("epoch %d: %.12g at a grid point, one exact step gives %.12g", k, y, w));
    }
    for (auto &b : critical_beliefs(cur, m.S, rr, 200, 20))
      if (value_at(cur, b) > backup_at(m, prev, b) + tol)
        return fail(v, "too-high", fstr("epoch %d: the value is above one exact step", k));
    if (cur.size() > gp.size()) return fail(v, "size", fstr("%zu vectors for %zu grid points", cur.size(), gp.size()));
    std::string w = pgcheck(m, cur, prev, get(r, "r.pg" + std::to_string(k)), tol);
    if (!w.empty()) return fail(v, "graph", fstr("epoch %d: ", k) + w);
  }
  c.probe(("grid type " + type).c_str());
  return false;
}
// ---------------------------------------------------------------- P18 the report file
static std::string norm(const std::string &o) {
  std::string t;
  size_t p = 0;
  while (p < o.size()) {
    size_t e = o.find('\n', p);
    if (e == std::string::npos) e = o.size();
    std::string l = o.substr(p, e - p);
    p = e + 1;
    size_t k = l.find(" vectors in "), q = l.find("(err=");
    if (k != std::string::npos) l = l.substr(0, k) + (q == std::string::npos ? "" : l.substr(q));
    else if (l.find("ime =") != std::string::npos || l.find("ime: ") != std::string::npos ||
             l.find("secs") != std::string::npos || l.compare(0, 9, "stdout = ") == 0 || l.compare(0, 4, "f = ") == 0)
      continue;
    if (l.find("PID=") != std::string::npos) continue;
    if (l.size() > 20 && l[4] >= '0' && l[4] <= '9' && l.find("N/A") != std::string::npos) continue;
    if (l.find("Totals") != std::string::npos) continue;
    t += l + "\n";
  }
  return t;
}
void gen_P18(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  mid(r, s, 1, 4, CF_EXACT | CF_GRID);
  s.set("x.rep", 1);
  if (r.chance(1, 5)) s.set("o.verbose", "main");
  if (r.chance(1, 2)) s.set("oldrep", (long)(r.chance(1, 2) ? r.range(0, 3) : r.range(20, 400)));
  const RunResult &B = c.base(seeded(s, {"-stdout", "rep.txt"}));
  NEED(solved(B.p[0]), "base fails");
  out.push_back(s);
  const ProcResult &b = B.p[0];
  for (int i = 0; i < 4; i++) {
    Scenario t = s;
    int k = (int)r.below(4);
    if (k == 0) t.faults = {rand_async(r, b, A_CRASH, 0, b.ticks)};
    else if (k == 1) t.faults = {rand_async(r, b, A_SIGINT, b.ticks / 3, b.ticks)};
    else {
      std::vector<const Ev *> w;
      for (auto &e : b.ev)
        if (!strcmp(e.path, "rep.txt") && (e.op == OP_WRITE || e.op == OP_OPEN || (e.op == OP_CLOSE && e.a))) w.push_back(&e);
      NEED(!w.empty(), "no report");
      const Ev *e = r.pick(w);
      Fault f;
      f.trig = 'o';
      f.n = e->n;
      f.act = e->op == OP_OPEN ? A_OPEN_FAIL : e->op == OP_CLOSE ? A_CLOSE_ERR : A_WRITE_ERR;
      f.arg = f.act == A_OPEN_FAIL ? 13 : 28;
      t.faults = {f};
      if (r.chance(1, 4)) {
        t.faults[0] = rand_async(r, b, A_VTALRM, announce_tick(c.base(seeded(s)).p[0], 1), b.ticks);
        t.set("o.time_limit", 100000);
      }
    }
    out.push_back(t);
  }
}
// are the lines of all those of a and those of b, each in their order (warnings
// go to the report where they occur, between the lines of the report proper)?
bool is_merge(const std::string &all, const std::string &a, const std::string &b) {
  auto split = [](const std::string &x) {
    std::vector<std::string> l;
    size_t i = 0;
    while (i < x.size()) {
      size_t j = x.find('\n', i);
      if (j == std::string::npos) j = x.size();
      l.push_back(x.substr(i, j - i));
      i = j + 1;
    }
    return l;
  };
  auto L = split(all), A = split(a), B = split(b);
  if (L.size() != A.size() + B.size()) return false;
  std::vector<char> ok(B.size() + 1, 0); // ok[j]: the first i+j lines are a merge of i of A and j of B
  for (size_t i = 0; i <= A.size(); i++)
    for (size_t j = 0; j <= B.size(); j++) {
      char x = !i && !j;
      if (i && ok[j] && A[i - 1] == L[i + j - 1]) x = 1;
      if (j && ok[j - 1] && B[j - 1] == L[i + j - 1]) x = 1;
      ok[j] = x;
    }
  return ok[B.size()];
}
bool chk_P18(const Scenario &s, Ctx &c, Violation &v) {
  Plan p = seeded(s, {"-stdout", "rep.txt"}, true), pb = seeded(s), pr = seeded(s, {"-stdout", "rep.txt"});
  const RunResult &B = c.base(pb);
  NEED(solved(B.p[0]), "base fails");
  const RunResult R0 = c.base(pr);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string rep = get(r, "rep.txt"), why;
  c.nontrivial = true;
  int act = s.faults.empty() ? 0 : s.faults[0].act;
  bool fired = false;
  for (int x : r.fired) fired = fired || x;
  auto same_results = [&]() {
    for (auto &d : B.disk)
      if (get(r, d.first) != d.second) {
        why = d.first;
        return false;
      }
    for (auto &d : r.disk)
      if (d.first != "rep.txt" && !B.disk.count(d.first)) {
        why = d.first;
        return false;
      }
    return true;
  };
  if (!fired) {
    if (!solved(q)) return fail(v, "outcome", "with its report in a file the run ended with " + how(q));
    if (!same_results()) return fail(v, "results", "with its report in a file the run gives another " + why);
    if (!is_merge(norm(rep), norm(B.p[0].out), norm(B.p[0].err))) {
      std::string x = norm(rep), y = norm(B.p[0].out + B.p[0].err);
      size_t i = 0;
      while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
      return fail(v, "report",
                  "the report file is not what would have been shown: \"" + x.substr(i, 60) + "\" / \"" + y.substr(i, 60) + "\"");
    }
    if (q.out.find("Epoch") != std::string::npos || q.out.find("Solution") != std::string::npos)
      return fail(v, "duplicate", "the report appears on the standard output too: " + tail(q.out));
    return false;
  }
  std::string full = norm(get(R0, "rep.txt"));
  if (act == A_CRASH) {
    if (q.outcome != O_CRASH) return false;
    std::string x = rep;
    if (s.has("oldrep") && rep == p.files["rep.txt"]) { // killed before the report was opened
      if (epochs_of(q.out) || r.disk.count("r.alpha")) return fail(v, "behind", "killed, and the report file is still the old one");
      return false;
    }
    size_t nl = x.rfind('\n');
    std::string part = nl == std::string::npos ? "" : norm(x.substr(0, nl + 1));
    if (full.compare(0, part.size(), part))
      return fail(v, "prefix", "killed: the report file is not the beginning of the report");
    bool vb = s.s("o.verbose") == "main";
    if (!vb) {
      int started = 0;
      for (auto &e : q.ev)
        if ((e.op == OP_RENAME || (e.op == OP_CLOSE && e.a)) && strncmp(e.path, "rep", 3)) started = 1;
      if (started && epochs_of(rep) < 1)
        return fail(v, "behind",
                    "killed after the first value function was stored, but the report does not even mention the first epoch");
    }
    c.probe("killed");
    return false;
  }
  if (act == A_SIGINT) {
    bool dead = false;
    for (auto &e : q.ev)
      if (e.op == OP_DELIVER && !e.res) dead = true;
    if (dead) return false;
    if (!solved(q)) return fail(v, "outcome", "interrupted: " + how(q));
    int K = epochs_of(rep);
    Scenario t = s;
    t.faults.clear();
    t.set("h", K);
    const RunResult &H = c.base(seeded(t));
    NEED(solved(H.p[0]), "shorter");
    for (auto n : {"r.alpha", "r.pg"})
      if (get(r, n) != get(H, n))
        return fail(v, "results", fstr("interrupted, report in a file: %s is not that of %d epochs", n, K));
    c.probe("interrupted");
    return false;
  }
  if (act == A_VTALRM) {
    if (q.outcome != O_EXIT) return false;
    if (q.code == 0) return false;
    if (rep.find("erminated") == std::string::npos) return fail(v, "silent", "the report file does not say why the run ended");
    c.probe("time limit");
    return false;
  }
  if (q.outcome != O_EXIT) return fail(v, "outcome", "a report that cannot be written ended the run with " + how(q));
  if (!same_results()) return fail(v, "results", "a report that cannot be written changed or lost " + why);
  if (act == A_OPEN_FAIL) {
    if (norm(q.out).find("Epoch: 1") == std::string::npos)
      return fail(v, "silent", "the report file could not be opened, and nothing is shown instead");
    c.probe("report file cannot be opened");
  } else c.probe("report file cannot be written");
  return false;
}
// ---------------------------------------------------------------- P21 configuration files
void gen_P21(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  mid(r, s, 1, 4, CF_EXACT | CF_GRID | CF_FASTPURGE | CF_STATS);
  s.set("cfg", (long)r.below(1u << 30) + 1);
  if (r.chance(1, 3)) s.set("o.stop_delta", "0.01");
  if (r.chance(1, 3)) s.set("o.epsilon", "0.000001");
  if (r.chance(1, 4)) s.set("o.save_all", "true");
  if (r.chance(1, 4)) s.set("o.discount", "0.75");
  out.push_back(s);
  if (r.chance(1, 3)) {
    Scenario t = s;
    Fault f;
    f.trig = 'o';
    f.n = 1 + r.below(6);
    f.act = r.chance(1, 2) ? A_READ_ERR : A_READ_SHORT;
    f.arg = f.act == A_READ_ERR ? 5 : (int64_t)r.below(300);
    t.faults = {f};
    out.push_back(t);
  }
  for (int i = 0; i < 2; i++) { // options that cannot be meant
    Scenario t = s;
    t.set("x.bad", (long)r.below(5));
    t.set("x.badseed", (long)r.below(1u << 30));
    if (r.chance(1, 3)) t.set("x.tools", 1);
    out.push_back(t);
  }
}
// One option that cannot be meant, among good ones, on the command line or in the file.
bool bad_options(const Scenario &s, Ctx &c, Violation &v) {
  Rng r(s.u("x.badseed"));
  bool tools = s.i("x.tools");
  Plan p;
  if (tools) {
    int S = (int)s.i("m.S", 2);
    ASet a;
    for (int i = 0; i < 3; i++) {
      Alpha x;
      x.a = 0;
      for (int k = 0; k < S; k++) x.v.push_back((double)r.range(-9, 9));
      a.push_back(x);
    }
    p.files["a1"] = write_alpha(a);
    p.phases.push_back(
        Phase{{tool_of(s, {"-tool", r.chance(1, 2) ? "sort_alphas" : "purge_alphas", "-alpha1", "a1", "-states", std::to_string(S), "-o", "r.alpha"})}});
  } else p = seeded(s);
  static const Strs INTS = {"horizon",        "time_limit",    "history_length", "history_delta", "fg_points",
                            "mcgs_num_traj",  "memory_limit",  "prune_rand",     "alg_rand",      "mcgs_traj_length"};
  static const Strs REALS = {"stop_delta", "epsilon",     "discount",      "lp_epsilon",   "prune_epsilon",
                             "fg_epsilon", "end_epsilon", "start_epsilon", "max_soln_size", "epsilon_adjust"};
  static const Strs ENUMS = {"method",   "inc_prune",     "q_purge",      "proj_purge",   "enum_purge", "stop_criteria",    "verbose",
                             "dom_check", "witness_points", "vi_variation", "stat_summary", "save_all",   "save_penultimate", "fg_type",
                             "fg_save",   "fg_purge"};
  static const Strs TYPOS = {"horizn",  "stopdelta",  "disc",   "epsilons", "Horizon",     "time-limit", "pomdp_file", "zzz",
                             "saveall", "terminal",   "0",      "q_prune",  "rand_seed2",  "fg_point",   "dom_checks", "method_"};
  int k = (int)s.i("x.bad");
  std::string n, val;
  if (k == 1 || k == 2) {
    bool ints = k == 1;
    n = ints ? (tools ? std::string("states") : r.pick(INTS)) : (tools ? std::string("epsilon") : r.pick(REALS));
    static const Strs GI = {"abc", "3x", "2.5", "1e3", "0x4", "7,5", "99999999999999999999", "true", "3-", "nan", "-4", "+-3"};
    static const Strs GD = {"abc", "0.5x", "0,01", "1e-3.5", "nan", "-0.25", "..5", "1e", "0.1.2", "true", "O.1", "1e-"};
    val = r.pick(ints ? GI : GD);
    if (!ints && n == "discount" && r.chance(1, 3)) val = "1.5";
    if (ints && n != "prune_rand" && n != "alg_rand" && r.chance(1, 6)) val = "0";
  } else if (k == 3) {
    n = tools ? std::string("tool") : r.pick(ENUMS);
    static const Strs GE = {"nonsense", "True", "yes", "1", "0", "norma", "normal_prune2", "fals", "trues", "INCPRUNE", "."};
    val = r.pick(GE);
    if (!tools && r.chance(1, 4)) {
      static const Strs GS = {"1:2", "1:2:3:4", "1:2:3x", "a:b:c", "1:2:x", "7", "1,2,3", "1:2:3:", "1:2:3.5", "::"};
      n = "rand_seed";
      val = r.pick(GS);
    }
  } else if (k == 0) {
    n = r.pick(TYPOS);
    val = r.pick(Strs{"5", "true", "x", "0.1"});
    if (r.chance(1, 8)) n = std::string((size_t)r.range(200, 1000), 'q');
  }
  auto &args = p.phases[0].procs[0].args;
  for (size_t i = 0; i + 1 < args.size();)
    if (args[i] == "-" + n) args.erase(args.begin() + (long)i, args.begin() + (long)i + 2);
    else i += 2;
  bool incfg = k == 4 || r.chance(1, 2) || val[0] == '-';
  if (!incfg) {
    size_t at = 2 * r.below(args.size() / 2 + 1);
    args.insert(args.begin() + (long)at, {"-" + n, val});
  } else {
    std::string cfg = r.chance(1, 2) ? "# options\n" : "";
    size_t keep = args.size() / 2 * r.below(2);
    keep -= keep % 2;
    for (size_t i = keep; i + 1 < args.size(); i += 2) cfg += args[i].substr(1) + " = " + args[i + 1] + "\n";
    args.resize(keep);
    if (k == 4) { // not an entry at all
      static const Strs BAD = {"stop_delta 0.1\n",    "stop_delta\n",           "= 3\n",          "stop_delta = = 2\n", "stop_delta = 0.1 0.2\n",
                               "stop delta = 0.1\n", "stop_delta # = 0.1\n",  "a=b=c\n",       "stop_delta =0.1 =\n", "stop_delta"};
      n = r.pick(BAD);
      if (tools && n.compare(0, 10, "stop_delta") == 0) n.replace(0, 10, "epsilon");
      if (r.chance(1, 6)) n = "o = " + std::string((size_t)r.range(1024, 5000), 'z') + "\n";
      if (r.chance(1, 8)) n = std::string((size_t)r.range(1024, 5000), 'z') + " = 1\n";
    } else n = n + (r.chance(1, 2) ? "=" : " = ") + val + "\n";
    if (n.back() == '\n') cfg = r.chance(1, 2) ? n + cfg : cfg + n;
    else cfg += n;
    args.insert(args.begin() + (r.chance(1, 2) ? 0 : (long)args.size()), {"-f", k == 4 && s.u("x.badseed") % 9 == 0 ? "none.cfg" : "opts.cfg"});
    p.files["opts.cfg"] = cfg;
  }
  p.files["r.alpha"] = "an earlier result\n";
  p.files["r.pg"] = "an earlier graph\n";
  RunResult x = c.run(p);
  const ProcResult &q = x.p[0];
  c.nontrivial = true;
  std::string what = (incfg ? "entry \"" : "option \"") + n.substr(0, 60) + (incfg ? "" : " " + val) + "\"";
  if (q.outcome != O_EXIT) return fail(v, "bad option", "the " + what + " ended the run with " + how(q));
  if (q.code == 0) return fail(v, "bad option", "the " + what + " was accepted");
  if (q.err.empty()) return fail(v, "bad option", "the " + what + " was refused without a message");
  for (auto &f : x.disk)
    if (!p.files.count(f.first) || p.files[f.first] != f.second)
      return fail(v, "bad option", "the " + what + " was refused, but " + f.first + " was written");
  c.probe("options that cannot be meant refused");
  return false;
}
bool chk_P21(const Scenario &s, Ctx &c, Violation &v) {
  if (s.has("x.bad")) return bad_options(s, c, v);
  Plan a = seeded(s), b = a;
  Rng r(s.u("cfg"));
  auto &args = b.phases[0].procs[0].args;
  Strs keep;
  std::string cfg;
  auto ws = [&]() {
    std::string t;
    int n = (int)r.below(3);
    while (n--) t += r.chance(1, 2) ? ' ' : '\t';
    return t;
  };
  static const char *NL[] = {"\n", "\r\n", "\n\n", " # note\n"};
  bool over = false;
  for (size_t i = 0; i + 1 < args.size(); i += 2) {
    bool incfg = r.chance(3, 4);
    std::string n = args[i].substr(1), val = args[i + 1];
    if (incfg) {
      if (r.chance(1, 5)) cfg += "# " + n + " = 17\n";
      cfg += ws() + n + ws() + "=" + ws() + val + ws() + NL[r.below(4)];
    } else {
      keep.push_back(args[i]);
      keep.push_back(val);
      static const std::map<std::string, std::string> alt = {{"horizon", "1"},     {"method", "twopass"}, {"o", "zz"},
                                                             {"stop_delta", "3"},  {"discount", "0.3"},   {"dom_check", "true"},
                                                             {"save_all", "false"}};
      auto f = alt.find(n);
      if (f != alt.end() && r.chance(1, 2)) {
        cfg += n + " = " + f->second + "\n";
        over = true;
      }
    }
  }
  if (r.chance(1, 4) && !cfg.empty()) {
    while (!cfg.empty() && (cfg.back() == '\n' || cfg.back() == '\r')) cfg.pop_back();
  }
  if (r.chance(1, 2)) {
    keep.push_back("-f");
    keep.push_back("opts.cfg");
  } else keep.insert(keep.begin(), {"-f", "opts.cfg"});
  args = keep;
  b.files["opts.cfg"] = cfg;
  b.faults = s.faults;
  const RunResult &A = c.base(a);
  NEED(!toolarge(A.p[0]), "too large");
  RunResult x = c.run(b);
  const ProcResult &q = x.p[0];
  c.nontrivial = true;
  bool fired = false;
  for (int f : x.fired) fired = fired || f;
  if (!s.faults.empty() && s.faults[0].act == A_READ_ERR && fired) {
    bool mine = false;
    for (auto &e : q.ev)
      if (e.op == OP_READ && e.res < 0 && !strcmp(e.path, "opts.cfg")) mine = true;
    if (mine) {
      if (solved(q)) return fail(v, "accepted", "a configuration file that could not be read was accepted");
      if (q.err.empty() && q.out.find("rror") == std::string::npos) return fail(v, "silent", how(q));
      c.probe("unreadable configuration file refused");
    }
    return false;
  }
  if (q.outcome != A.p[0].outcome || q.code != A.p[0].code)
    return fail(v, "outcome",
                "options from a file end the run with " + how(q) + ", options from the command line with " + how(A.p[0]));
  for (auto &d : A.disk)
    if (!x.disk.count(d.first) || x.disk[d.first] != d.second)
      return fail(v, "files", "options from a file: " + d.first + " is missing or different");
  for (auto &d : x.disk)
    if (d.first != "opts.cfg" && !A.disk.count(d.first)) return fail(v, "files", "options from a file: " + d.first + " is extra");
  std::string y = norm(q.out), z = norm(A.p[0].out);
  if (y != z) {
    size_t i = 0;
    while (i < y.size() && i < z.size() && y[i] == z[i]) i++;
    return fail(v, "report", "options from a file: the report differs at \"" + y.substr(i > 20 ? i - 20 : 0, 60) + "\"");
  }
  if (over) c.probe("command line overrides the file");
  return false;
}
// ---------------------------------------------------------------- P22 equivalent model files
void gen_P22(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  mid(r, s, 1, 3, CF_EXACT | CF_FASTPURGE);
  if (r.chance(1, 6)) {
    widen(r, s, 1);
    if (r.chance(2, 3)) { // more of everything: one step is enough to see every number of the text
      s.set("m.S", (long)r.range(5, 14));
      s.set("m.A", (long)r.range(1, r.chance(1, 2) ? 4 : 12));
      s.set("m.O", (long)r.range(1, r.chance(1, 2) ? 4 : 12));
    }
  }
  bool ex = r.chance(1, 12);
  if (ex) {
    rand_example(r, s);
    s.set("m.orig", 1l);
    s.kv.erase("m.disc");
    if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
    s.set("h", (long)r.range(1, s.i("m.S") > 8 || s.i("m.A") * s.i("m.O") > 12 ? 1 : 3));
  }
  static const char *SC[] = {"1000", "250000", "400000000", "700000001", "3000000000"};
  if (!ex && r.chance(1, 10)) s.set("m.scale", std::string(SC[r.below(5)]));
  s.set("style", (long)r.below(1u << 30) + 1);
  if (r.chance(1, 3)) { // the start belief shows in the grid grown from it
    for (auto k : {"o.inc_prune", "o.enum_purge"}) s.kv.erase(k);
    s.set("o.method", "grid");
    s.set("o.fg_type", "initial");
    s.set("o.fg_points", (long)r.range(2, 30));
    s.set("o.fg_save", "true");
  }
  out.push_back(s);
  for (int i = 0; i < 2; i++) {
    Scenario t = s;
    t.kv.erase("m.orig");
    t.set("style", (long)r.below(1u << 30) + 1);
    if (r.chance(1, 3)) {
      Fault f;
      f.trig = 'o';
      f.n = 1 + r.below(6);
      f.act = A_READ_SHORT;
      f.arg = (int64_t)r.below(500);
      t.faults = {f};
    }
    out.push_back(t);
  }
}
bool chk_P22(const Scenario &s, Ctx &c, Violation &v) {
  Scenario t = s;
  t.set("style", 0);
  t.kv.erase("m.orig");
  t.faults.clear();
  if (s.has("m.orig")) c.probe("an example model as it comes");
  Plan a = seeded(t, ALL), b = seeded(s, ALL, true);
  const RunResult &A = c.base(a);
  NEED(solved(A.p[0]), "base fails");
  RunResult x = c.run(b);
  if (!solved(x.p[0])) return fail(v, "refused", "the same model, written another way, ends with " + how(x.p[0]));
  c.nontrivial = a.files["m.pomdp"] != b.files["m.pomdp"];
  Model m = model_of(s);
  ASet p, q;
  std::string why;
  if (!alpha_of(A, "r.alpha", m, p, &why) || !alpha_of(x, "r.alpha", m, q, &why)) return fail(v, "file", why);
  Rng rr(3);
  if (!same_values(p, q, m.S, 1e-6 * vscale(p), rr, &why))
    return fail(v, "values", "the same model, written another way, has another value function: " + why);
  for (auto &f : A.disk)
    if (f.first != "m.pomdp" && get(A, f.first) != get(x, f.first))
      return fail(v, "bytes", f.first + " differs when the same model is written another way");
  ASet prev = zero_terminal(m), cur; // and it is the model that was meant
  if (!alpha_of(x, "r.alpha1", m, cur, &why)) return fail(v, "file", why);
  std::vector<Vec> at;
  if (s.f("m.scale", 1) > 1e6) // beyond what the linear programs of the solver are made for: the corners do without
    for (int i = 0; i < m.S; i++) {
      at.push_back(Vec((size_t)m.S, 0.0));
      at.back()[(size_t)i] = 1;
    }
  else at = critical_beliefs(cur, m.S, rr, 60, 10);
  for (auto &bl : at) {
    double y = value_at(cur, bl), w = backup_at(m, prev, bl);
    if (s.s("o.method") == "grid" ? y > w + 1e-6 * vscale(cur) : std::fabs(y - w) > 1e-6 * vscale(cur))
      return fail(v, "model", fstr("the first epoch's value is %.12g at a belief where the model written gives %.12g", y, w));
  }
  if (!s.faults.empty()) c.probe("short reads");
  if (!m.start.empty()) c.probe("with a start belief");
  return false;
}
