// The tools: operations on solution files, policy graphs, and the belief service.
#include "pc.h"
typedef std::vector<Scenario> Fam;
static std::string get(const RunResult &r, const std::string &f) {
  auto i = r.disk.find(f);
  return i == r.disk.end() ? "" : i->second;
}
// Values are multiples of 1/64 and beliefs of 1/8: every sum the tools make is exact, in any order.
static ASet dyadic_set(Rng &r, int S, int A, int n) {
  ASet t;
  int kind = (int)r.below(3);
  for (int i = 0; i < n; i++) {
    Alpha a;
    a.a = (int)r.below((uint64_t)A);
    for (int k = 0; k < S; k++)
      a.v.push_back(kind == 0 ? r.range(-8, 8) / 4.0 : kind == 1 ? r.range(-640, 640) / 64.0 : r.range(0, 3));
    if (i && r.chance(1, 8)) a.v = t[r.below(t.size())].v;
    t.push_back(a);
  }
  return t;
}
static std::vector<Vec> dyadic_beliefs(Rng &r, int S, int n) {
  std::vector<Vec> t;
  for (int i = 0; i < n; i++) {
    Vec b((size_t)S, 0.0);
    for (int k = 0; k < 8; k++) b[r.below((uint64_t)S)] += 0.125;
    t.push_back(b);
  }
  return t;
}
static std::string write_beliefs(const std::vector<Vec> &t) {
  std::string o;
  for (auto &b : t) {
    for (double x : b) o += fstr("%.4f ", x);
    o += "\n";
  }
  return o;
}
static double dot(const Vec &a, const Vec &b) {
  double t = 0;
  for (size_t i = 0; i < a.size(); i++) t += a[i] * b[i];
  return t;
}
static double distance(const Vec &a, const Vec &b) {
  double t = 0;
  for (size_t i = 0; i < a.size(); i++) t = std::max(t, std::fabs(a[i] - b[i]));
  return t;
}
static const char *OLD = "an earlier result\n";

struct ToolCase {
  std::string tool;
  int S, A;
  ASet a1, a2;
  std::vector<Vec> b;
  std::string t1, t2, tb;
  double eps;
  bool damaged = false, must = false; // a file was cut; it cannot be taken for a complete one
  Plan plan;
};
static bool uses(const std::string &tool, char what) {
  if (what == '2') return tool == "compare_alphas" || tool == "belief_alpha_compare";
  if (what == 'b') return tool == "map_beliefs" || tool == "belief_alpha_compare";
  return true;
}
// leaves one required argument of a tool out
static bool lack(const Scenario &s, Strs &a) {
  if (!s.has("x.lack") || a.size() < 4) return false;
  size_t k = 2 + 2 * (s.u("x.lack") % ((a.size() - 2) / 2));
  if (a[k] == "-o") k = 2; // has a default
  a.erase(a.begin() + (long)k, a.begin() + (long)k + 2);
  return true;
}
static ToolCase tool_case(const Scenario &s, bool faults) {
  ToolCase t;
  Rng r(mix2(s.u("seed"), 3));
  t.tool = s.s("tool", "sort_alphas");
  t.S = (int)s.i("m.S", 2);
  t.A = (int)s.i("m.A", 2);
  t.a1 = dyadic_set(r, t.S, t.A, (int)s.i("n", 3));
  t.a2 = dyadic_set(r, t.S, t.A, (int)s.i("k", 3));
  if (s.i("x.near"))
    for (auto &x : t.a2)
      if (r.chance(2, 3)) {
        x = t.a1[r.below(t.a1.size())];
        if (r.chance(1, 2)) x.v[r.below(x.v.size())] += r.range(-2, 2) / 64.0;
      }
  t.b = dyadic_beliefs(r, t.S, (int)s.i("nb", 4));
  if (s.i("x.fine")) { // all but equal components
    for (auto *l : {&t.a1, &t.a2})
      for (size_t i = 0; i < l->size(); i++) {
        if (i && r.chance(1, 2)) (*l)[i].v = (*l)[r.below(i)].v;
        (*l)[i].v[r.below((uint64_t)t.S)] += r.range(-2, 2) / 1048576.0;
      }
  }
  if (s.i("x.ties")) // many vectors as good as each other
    for (size_t i = 1; i < t.a1.size(); i++)
      if (!r.chance(1, 40)) t.a1[i].v = t.a1[0].v;
  t.t1 = write_alpha(t.a1);
  t.t2 = write_alpha(t.a2);
  t.tb = write_beliefs(t.b);
  t.eps = s.f("eps", 1e-9);
  auto cut = [&](const char *key, std::string &text, char what) {
    if (!s.has(key) || !uses(t.tool, what)) return;
    size_t k = 1 + s.u(key) % text.size();
    if (k >= text.size()) return;
    text.resize(k);
    t.damaged = true;
    ASet a;
    std::string why;
    if (what != 'b') {
      if (!parse_alpha(text, t.S, t.A, a, &why) && why != "last line incomplete") t.must = true;
    } else {
      size_t words = 0;
      bool in = false;
      for (char c : text) {
        bool w = c != ' ' && c != '\n';
        if (w && !in) words++;
        in = w;
      }
      if (words % (size_t)t.S) t.must = true;
    }
  };
  if (s.has("x.inf")) { // something in the place of a number that cannot be computed with
    static const char *H[] = {"nan", "inf", "-inf", "1e999"};
    std::vector<std::string *> in = {&t.t1};
    if (uses(t.tool, '2')) in.push_back(&t.t2);
    if (uses(t.tool, 'b')) in.push_back(&t.tb);
    size_t k = s.u("x.inf");
    std::string &x = *in[k % in.size()];
    std::vector<std::pair<size_t, size_t>> w; // the components: all numbers written with a point
    for (size_t i = 0; i < x.size();) {
      size_t e = i;
      while (e < x.size() && !isspace((unsigned char)x[e])) e++;
      if (e > i && x.substr(i, e - i).find('.') != std::string::npos) w.push_back({i, e - i});
      i = e + 1;
    }
    if (!w.empty()) {
      auto q = w[(k / 7) % w.size()];
      x.replace(q.first, q.second, H[(k / 3) % 4]);
      t.damaged = t.must = true;
    }
  }
  cut("x.cut1", t.t1, '1');
  cut("x.cut2", t.t2, '2');
  cut("x.cutb", t.tb, 'b');
  Strs a = {"-tool", t.tool, "-alpha1", "a1", "-states", std::to_string(t.S), "-o", "out"};
  t.plan.files["a1"] = t.t1;
  if (uses(t.tool, '2')) {
    t.plan.files["a2"] = t.t2;
    a.insert(a.end(), {"-alpha2", "a2"});
  }
  if (uses(t.tool, 'b')) {
    t.plan.files["b"] = t.tb;
    a.insert(a.end(), {"-belief", "b"});
  }
  if (lack(s, a)) t.damaged = t.must = true;
  if (s.has("eps")) a.insert(a.end(), {"-epsilon", s.s("eps")});
  if (s.i("old")) t.plan.files["out"] = OLD;
  t.plan.phases.push_back(Phase{{tool_of(s, a)}});
  if (s.has("cap")) t.plan.disk_cap = s.u("cap");
  if (faults) t.plan.faults = s.faults;
  return t;
}
static std::string list(const std::vector<int> &v, const char *none) {
  if (v.empty()) return none;
  std::string o;
  for (int i : v) o += fstr(" %d", i);
  return o;
}
struct Mapping {
  std::vector<std::vector<int>> best; // per belief
  std::vector<double> value;
};
static Mapping mapping(const std::vector<Vec> &b, const ASet &a, double eps) {
  Mapping m;
  for (auto &x : b) {
    double v = -INFINITY;
    for (auto &y : a) v = std::max(v, dot(x, y.v));
    std::vector<int> best;
    for (size_t i = 0; i < a.size(); i++)
      if (dot(x, a[i].v) >= v - eps) best.push_back((int)i);
    m.best.push_back(best);
    m.value.push_back(v);
  }
  return m;
}
static std::string mapping_text(const std::vector<Vec> &b, const ASet &a, const Mapping &m) {
  std::string o = fstr("==============\nBelief Mapping\n==============\n\nBelief List: %zu points\nAlpha List %zu vectors\n\n"
                       "--- Belief Section --\n\n",
                       b.size(), a.size());
  for (size_t i = 0; i < b.size(); i++) {
    o += fstr("Belief[%zu]:\n  Best Alpha Indices: ", i);
    for (int k : m.best[i]) o += fstr("%d ", k);
    if (m.best[i].size() > 1) o += " (non-unique)";
    o += fstr("\nBest Alpha Value: %.25f\n\n", m.value[i]);
  }
  o += "--- Alpha Section --\n\n";
  for (size_t k = 0; k < a.size(); k++) {
    std::vector<int> u, n;
    for (size_t i = 0; i < b.size(); i++)
      for (int x : m.best[i])
        if (x == (int)k) (m.best[i].size() == 1 ? u : n).push_back((int)i);
    o += fstr("Alpha[%zu]:\n  Uniquely best:", k) + list(u, "  NONE (non-useful vector?)") +
         "\n  Non-uniquely best:" + list(n, "  NONE") + "\n\n";
  }
  return o;
}
static std::string words(const std::string &t) { // white space does not matter
  std::string o;
  bool sp = true;
  for (char c : t) {
    if (c == ' ' || c == '\n' || c == '\t') {
      sp = true;
      continue;
    }
    if (sp && !o.empty()) o += ' ';
    sp = false;
    o += c;
  }
  return o;
}
static bool differs(const std::string &got, const std::string &want, std::string *why) {
  std::string g = words(got), w = words(want);
  if (g == w) return false;
  size_t i = 0;
  while (i < g.size() && i < w.size() && g[i] == w[i]) i++;
  size_t b = i > 30 ? i - 30 : 0;
  *why = "\"" + g.substr(std::min(b, g.size()), 80) + "\" should be \"" + w.substr(std::min(b, w.size()), 80) + "\"";
  return true;
}
static bool lex_less(const Vec &a, const Vec &b) {
  for (size_t i = 0; i < a.size(); i++)
    if (a[i] != b[i]) return a[i] < b[i];
  return false;
}
// is the complete output right for the (undamaged) input?
static bool tool_wrong(const ToolCase &t, const std::string &text, const std::string &out, std::string *why) {
  if (t.tool == "sort_alphas" || t.tool == "purge_alphas") {
    ASet a;
    if (!parse_alpha(text, t.S, t.A, a, why)) return true;
    for (size_t i = 0; i + 1 < a.size(); i++)
      if (lex_less(a[i + 1].v, a[i].v)) {
        *why = fstr("vectors %zu and %zu are out of order", i, i + 1);
        return true;
      }
    if (t.tool == "sort_alphas") {
      if (!same_set(a, t.a1, 0, why)) return true;
      return false;
    }
    std::vector<bool> used(t.a1.size());
    for (size_t i = 0; i < a.size(); i++) {
      bool found = false;
      for (size_t j = 0; j < t.a1.size() && !found; j++)
        if (t.a1[j].a == a[i].a && t.a1[j].v == a[i].v) found = true;
      if (!found) {
        *why = fstr("vector %zu is not one of the input's", i);
        return true;
      }
      for (size_t j = 0; j < i; j++)
        if (a[j].v == a[i].v) {
          *why = fstr("vectors %zu and %zu are the same", j, i);
          return true;
        }
    }
    Rng r(99);
    for (auto &b : critical_beliefs(t.a1, t.S, r, 600, 40))
      if (std::fabs(value_at(t.a1, b) - value_at(a, b)) > 1e-6 * std::max(1.0, vscale(t.a1))) {
        *why = fstr("somewhere the value falls from %.9g to %.9g", value_at(t.a1, b), value_at(a, b));
        return true;
      }
    if (t.S <= 3 || a.size() <= 40)
      for (size_t i = 0; i < a.size(); i++)
        if (a.size() > 1 && usefulness(a, i, t.S) < -1e-6) {
          *why = fstr("vector %zu is best nowhere", i);
          return true;
        }
    long x = -1, y = -1;
    if (sscanf(out.c_str(), "Input Alpha Count: %ld Ou%*[tput] Alpha Count: %ld", &x, &y) != 2 || x != (long)t.a1.size() ||
        y != (long)a.size()) {
      *why = fstr("%zu vectors were reduced to %zu, the report says \"%s\"", t.a1.size(), a.size(), tail(out, 80).c_str());
      return true;
    }
    return false;
  }
  if (t.tool == "compare_alphas") {
    std::string want = fstr("Alpha List Comparison File\n\nAlpha1 File: a1\nAlpha2 File: a2\nEpsilon: %e\n\n", t.eps);
    for (size_t i = 0; i < t.a1.size(); i++) {
      std::vector<std::pair<double, int>> d;
      for (size_t j = 0; j < t.a2.size(); j++) d.push_back({distance(t.a1[i].v, t.a2[j].v), (int)j});
      std::sort(d.begin(), d.end());
      want += fstr("Index %zu [action=%d]", i, t.a1[i].a);
      if (d[0].first > t.eps) want += ": NONE, best is ";
      for (size_t k = 0; k < d.size() && (k == 0 || d[k].first <= t.eps); k++) {
        int a = t.a2[(size_t)d[k].second].a;
        want += fstr(": %d [diff=%e, action=%d] ", d[k].second, d[k].first, a);
        if (k == 0 && a != t.a1[i].a) want += " (ACTION DIFFERS) ";
      }
      want += "\n";
    }
    return differs(text, want, why);
  }
  Mapping m = mapping(t.b, t.a1, t.eps);
  if (t.tool == "map_beliefs") {
    std::string want = fstr("Belief Mapping File\n\nBelief File: b (%zu points)\nAlpha File: a1 (%zu vectors)\n\n", t.b.size(),
                            t.a1.size()) +
                       mapping_text(t.b, t.a1, m) + "All Belief Points:\n\n";
    for (auto &b : t.b) {
      for (double x : b) want += fstr("%.25f ", x);
      want += "\n";
    }
    want += fstr("\nAll Alpha Vectors:\n\nAlpha List: Length=%zu\n", t.a1.size());
    for (size_t i = 0; i < t.a1.size(); i++) {
      want += fstr("<id=%zu: a=%d> [", i, t.a1[i].a);
      for (size_t k = 0; k < t.a1[i].v.size(); k++) want += fstr(k ? " %f" : "%f", t.a1[i].v[k]);
      want += "]\n";
    }
    return differs(text, want, why);
  }
  Mapping n = mapping(t.b, t.a2, t.eps);
  std::string want = mapping_text(t.b, t.a1, m) + mapping_text(t.b, t.a2, n);
  std::vector<int> diff, most;
  double mx = -INFINITY;
  for (size_t i = 0; i < t.b.size(); i++) {
    want += fstr("Belief[%zu]:\n  [%zu] Best Alpha1 Indices: ", i, i);
    for (int k : m.best[i]) want += fstr("%d ", k);
    want += fstr("\n  [%zu] Best Alpha1 Value: %.25f\n  [%zu] Best Alpha2 Indices: ", i, m.value[i], i);
    for (int k : n.best[i]) want += fstr("%d ", k);
    double d = n.value[i] - m.value[i];
    want += fstr("\n  [%zu] Best Alpha2 Value: %.25f\n  [%zu] Difference: %.25f", i, n.value[i], i, d);
    if (std::fabs(d) > t.eps) {
      diff.push_back((int)i);
      if (std::fabs(d) > mx) mx = std::fabs(d), most.clear();
      if (std::fabs(d) == mx) most.push_back((int)i);
      want += " (non-zero)";
    }
    want += "\n";
  }
  want += fstr("\n-- Summary --\n\nNumber of beliefs with value difference: %zu\nBelief indices with diffs:", diff.size()) +
          list(diff, "") + fstr("\nMaximal difference: %f (%zu points)\nBelief indices with maximal diffs:", mx, most.size()) +
          list(most, "") + "\n";
  return differs(text, want, why);
}
// what any tool owes when something goes wrong; content: the complete right result
static bool tool_faults(const Scenario &s, const RunResult &r, const std::string &clean, bool damaged, bool must, Violation &v,
                        bool *ok) {
  const ProcResult &q = r.p[0];
  bool hit = damaged, hard = false, crash = false;
  for (size_t i = 0; i < r.fired.size(); i++)
    if (r.fired[i]) {
      hit = true;
      int a = s.faults[i].act;
      if (a == A_CRASH) crash = true;
      if (a != A_READ_SHORT && a != A_WRITE_SHORT && a != A_CLOCK_JUMP && a != A_STALL && a != A_TIMES_FAIL) hard = true;
    }
  if (s.has("cap")) hard = hit = true;
  *ok = solved(q);
  if (!q.heap_msg.empty()) return fail(v, "heap", q.heap_msg);
  if (q.outcome != O_EXIT && !(crash && q.outcome == O_CRASH)) return fail(v, "abnormal", "the tool ended with " + how(q));
  std::string old = s.i("old") ? OLD : "", now = get(r, "out");
  if (!solved(q)) {
    if (!hit) return fail(v, "no-fault", "valid input is refused: " + how(q));
    if (!hard && !damaged) return fail(v, "pieces", "input or output in pieces is refused: " + how(q));
    if (!crash && q.err.empty() && q.out.find("rror") == std::string::npos)
      return fail(v, "silent", "the tool failed without a message: " + how(q));
    if (now != old && now != clean)
      return fail(v, "torn", "the tool failed (" + how(q) + ") and left a result that is neither the old nor the whole new one");
  } else if (must)
    return fail(v, "accepted", "damaged or incomplete input was accepted");
  if (!crash)
    for (auto &d : r.disk)
      if (d.first != "out" && d.first != "a1" && d.first != "a2" && d.first != "b" && d.first != "m.pomdp" && d.first != "pg") {
        bool un = false;
        for (auto &f : s.faults)
          if (f.act == A_UNLINK_FAIL || f.act == A_RENAME_FAIL || f.act == A_ALLOC_FAIL || f.act == A_ALLOC_FAIL_FROM) un = true;
        if (!un) return fail(v, "leftover", d.first + " is left behind");
      }
  return false;
}
static void tool_fault_variants(Rng &r, const Scenario &s, const RunResult &B, Fam &out) {
  const ProcResult &b = B.p[0];
  for (int i = 0; i < 6; i++) {
    Scenario t = s;
    t.set("old", (long)r.below(2));
    int k = (int)r.below(9);
    Fault f;
    f.trig = 'o';
    f.n = 1 + r.below(b.ops + 1);
    if (k == 0) t.set("cap", (long)r.below(4000) + 1);
    else if (k == 1) {
      f.trig = 'a';
      f.n = b.allocs > 1750 && r.chance(9, 10) ? b.allocs - r.below(b.allocs - 1700) : 1 + r.below(b.allocs);
      f.act = r.chance(1, 2) ? A_ALLOC_FAIL : A_ALLOC_FAIL_FROM;
    } else if (k == 2) f = rand_async(r, b, A_CRASH, 0, b.ticks);
    else {
      static const int X[] = {A_READ_ERR, A_READ_SHORT, A_OPEN_FAIL, A_WRITE_ERR, A_WRITE_SHORT, A_CLOSE_ERR, A_RENAME_FAIL};
      f.act = X[r.below(7)];
      std::vector<uint64_t> at;
      for (auto &e : b.ev) {
        int op = e.op;
        bool m = (f.act == A_READ_ERR || f.act == A_READ_SHORT) ? op == OP_READ
                 : f.act == A_OPEN_FAIL                         ? op == OP_OPEN
                 : f.act == A_CLOSE_ERR                         ? op == OP_CLOSE
                 : f.act == A_RENAME_FAIL                       ? op == OP_RENAME
                                                                : op == OP_WRITE;
        if (m) at.push_back(e.n);
      }
      if (!at.empty()) f.n = at[r.below(at.size())];
      f.arg = f.act == A_READ_SHORT || f.act == A_WRITE_SHORT ? (int64_t)r.below(400) : 5;
    }
    if (f.act) t.faults = {f};
    out.push_back(t);
  }
}
// ---------------------------------------------------------------- P19 operations on solution files
void gen_P19(Rng &r, Ctx &c, Fam &out) {
  static const char *T[] = {"sort_alphas", "purge_alphas", "compare_alphas", "map_beliefs", "belief_alpha_compare"};
  Scenario s;
  s.set("tool", std::string(T[r.below(5)]));
  s.set("m.S", (long)(r.chance(1, 6) ? r.range(5, 12) : r.range(1, 4)));
  s.set("m.A", (long)(r.chance(1, 6) ? r.range(4, 12) : r.range(1, 3)));
  s.set("n", (long)(r.chance(1, 5) ? r.range(10, 40) : r.range(1, 9)));
  s.set("k", (long)(r.chance(1, 5) ? r.range(10, 40) : r.range(1, 9)));
  s.set("nb", (long)(r.chance(1, 5) ? r.range(20, r.chance(1, 3) ? 300 : 90) : r.range(1, 12)));
  s.set("seed", (long)r.below(1u << 30));
  if (r.chance(1, 2)) s.set("x.near", 1);
  if (r.chance(1, 4)) s.set("x.fine", 1);
  else if (r.chance(1, 12) && s.s("tool") != "purge_alphas") {
    s.set("x.ties", 1);
    s.set("n", (long)r.range(80, 130));
  }
  if (r.chance(1, 3)) s.set("eps", std::string(r.chance(1, 2) ? "0.02" : "1e-5"));
  if (s.s("tool") != "compare_alphas") s.kv.erase("eps");
  rand_env(r, s);
  out.push_back(s);
  if (r.chance(1, 6)) {
    Scenario t = s;
    t.set("x.lack", (long)r.below(60));
    t.set("old", (long)r.below(2));
    out.push_back(t);
  }
  if (r.chance(1, 6)) {
    Scenario t = s;
    t.set("x.inf", (long)r.below(100000));
    t.set("old", (long)r.below(2));
    out.push_back(t);
  }
  if (!r.chance(1, 3)) return;
  const RunResult &B = c.base(tool_case(s, false).plan);
  if (!solved(B.p[0])) return;
  tool_fault_variants(r, s, B, out);
  for (int i = 0; i < 3; i++) {
    Scenario t = s;
    static const char *C[] = {"x.cut1", "x.cut2", "x.cutb"};
    t.set(C[r.below(3)], (long)r.below(3000));
    t.set("old", (long)r.below(2));
    out.push_back(t);
  }
}
bool chk_P19(const Scenario &s, Ctx &c, Violation &v) {
  ToolCase t = tool_case(s, true);
  NEED(s.i("n", 3) >= 1 && s.i("k", 3) >= 1 && s.i("nb", 4) >= 1, "empty input");
  bool plain = s.faults.empty() && !t.damaged && !s.has("cap"), ok = false;
  std::string clean, why;
  if (!plain) {
    Scenario z = s;
    for (auto k : {"x.cut1", "x.cut2", "x.cutb", "x.inf", "x.lack", "cap"}) z.kv.erase(k);
    const RunResult &B = c.base(tool_case(z, false).plan);
    NEED(solved(B.p[0]), "base fails");
    clean = get(B, "out");
  }
  RunResult r = c.run(t.plan);
  c.nontrivial = true;
  for (auto &f : {"a1", "a2", "b"})
    if (t.plan.files.count(f) && get(r, f) != t.plan.files[f]) return fail(v, "input", std::string(f) + " was changed");
  if (tool_faults(s, r, clean, t.damaged, t.must, v, &ok)) return true;
  if (ok && !t.damaged && tool_wrong(t, get(r, "out"), r.p[0].out, &why)) return fail(v, "result", t.tool + ": " + why);
  if (plain) c.probe(t.tool.c_str());
  else c.probe(ok ? "fault survived" : "fault reported");
  return false;
}
// ---------------------------------------------------------------- P20 policy graphs
static Vec start_of(const Model &m) { return m.start.empty() ? Vec((size_t)m.S, 1.0 / m.S) : m.start; }
struct PgCase {
  Model m;
  std::vector<PgNode> pg;
  ASet a1, a2;
  bool eval, bad = false, damaged = false, must = false;
  Plan plan;
};
static PgCase pg_case(const Scenario &s, bool faults) {
  PgCase t;
  t.m = model_of(s);
  if (s.has("disc")) t.m.disc = s.f("disc");
  t.eval = s.s("tool") == "pg_eval";
  Rng r(mix2(s.u("seed"), 5));
  int n = (int)s.i("n", 3), k = (int)s.i("k", 3);
  for (int i = 0; i < n; i++) {
    PgNode x;
    x.id = i;
    x.a = (long)r.below((uint64_t)t.m.A);
    for (int o = 0; o < t.m.O; o++) {
      long l = (long)r.below((uint64_t)(t.eval ? n : k));
      if (!t.eval && r.chance(1, 10)) l = -1 - (long)r.below(2);
      x.next.push_back(l);
    }
    t.pg.push_back(x);
  }
  t.a1 = dyadic_set(r, t.m.S, t.m.A, n);
  t.a2 = dyadic_set(r, t.m.S, t.m.A, k);
  std::vector<PgNode> lines = t.pg;
  if (r.chance(1, 3))
    for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
  if (s.i("x.bad")) { // one thing wrong with it
    size_t i = r.below(lines.size()), o = r.below((uint64_t)t.m.O);
    int w = (int)s.i("x.bad");
    t.bad = true;
    if (w == 1) lines[i].a = t.m.A + (long)r.below(3);
    else if (w == 2) lines[i].id = n + (long)r.below(3);
    else if (t.eval) lines[i].next[o] = w == 3 ? n + (long)r.below(3) : -1;
    else t.bad = false;
  }
  std::string text;
  for (auto &x : lines) {
    text += fstr("%ld %ld ", x.id, x.a);
    for (long l : x.next) text += l >= 0 ? fstr(" %ld", l) : l == -1 ? " -" : " X";
    text += "\n";
  }
  if (s.has("x.cut")) {
    size_t cut = 1 + s.u("x.cut") % text.size(), words = 0;
    if (cut < text.size()) {
      text.resize(cut);
      t.damaged = true;
      bool in = false;
      for (char ch : text) {
        bool w = ch != ' ' && ch != '\n';
        if (w && !in) words++;
        in = w;
      }
      size_t per = 2 + (size_t)t.m.O;
      if (words % per) t.must = true; // a cut after a whole line need not show
    }
  }
  t.plan.files["m.pomdp"] = render(t.m, s.u("style"));
  t.plan.files["pg"] = text;
  Strs a = {"-tool", t.eval ? "pg_eval" : "pg_relink", "-pomdp", "m.pomdp", "-pg1", "pg"};
  if (!t.eval) {
    t.plan.files["a1"] = write_alpha(t.a1);
    t.plan.files["a2"] = write_alpha(t.a2);
    a.insert(a.end(), {"-alpha1", "a1", "-alpha2", "a2", "-o", "out"});
    if (s.i("old")) t.plan.files["out"] = OLD;
  }
  if (lack(s, a)) t.damaged = t.must = true;
  t.plan.phases.push_back(Phase{{tool_of(s, a)}});
  if (s.has("cap")) t.plan.disk_cap = s.u("cap");
  if (faults) t.plan.faults = s.faults;
  return t;
}
static bool solve_linear(std::vector<Vec> &a, Vec &b) {
  size_t n = b.size();
  for (size_t i = 0; i < n; i++) {
    size_t p = i;
    for (size_t j = i + 1; j < n; j++)
      if (std::fabs(a[j][i]) > std::fabs(a[p][i])) p = j;
    if (std::fabs(a[p][i]) < 1e-14) return false;
    std::swap(a[i], a[p]);
    std::swap(b[i], b[p]);
    for (size_t j = 0; j < n; j++)
      if (j != i && a[j][i] != 0) {
        double f = a[j][i] / a[i][i];
        for (size_t k = i; k < n; k++) a[j][k] -= f * a[i][k];
        b[j] -= f * b[i];
      }
  }
  for (size_t i = 0; i < n; i++) b[i] /= a[i][i];
  return true;
}
void gen_P20(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  rand_model(r, s, CF_WIDE | CF_BIG | CF_EX);
  s.kv.erase("m.orig");
  if (s.f("m.disc") > 0.995) s.kv.erase("m.disc"); // nothing to evaluate for ever
  bool ev = r.chance(2, 3);
  s.set("tool", std::string(ev ? "pg_eval" : "pg_relink"));
  if (ev && r.chance(1, 3)) {
    static const char *D[] = {"0.99", "0.995", "0.5", "0.999"};
    s.set("disc", std::string(D[r.below(r.chance(1, 5) ? 4 : 3)]));
  }
  s.set("n", (long)(ev && r.chance(1, 8) && s.i("m.S") <= 4 ? r.range(7, 24) : r.range(1, ev ? 6 : 12)));
  s.set("k", (long)r.range(1, 12));
  s.set("seed", (long)r.below(1u << 30));
  rand_env(r, s);
  out.push_back(s);
  if (r.chance(1, 4)) {
    Scenario t = s;
    t.set("x.bad", (long)r.range(1, 4));
    out.push_back(t);
  }
  if (r.chance(1, 4)) {
    Scenario t = s;
    t.set("x.cut", (long)r.below(3000));
    out.push_back(t);
  }
  if (r.chance(1, 8)) {
    Scenario t = s;
    t.set("x.lack", (long)r.below(60));
    t.set("old", (long)r.below(2));
    out.push_back(t);
  }
  if (!r.chance(1, 4)) return;
  const RunResult &B = c.base(pg_case(s, false).plan);
  if (solved(B.p[0])) tool_fault_variants(r, s, B, out);
}
bool chk_P20(const Scenario &s, Ctx &c, Violation &v) {
  NEED(s.i("n", 3) >= 1 && s.i("k", 3) >= 1, "empty graph");
  PgCase t = pg_case(s, true);
  NEED(t.m.disc < 1, "no discount");
  bool plain = s.faults.empty() && !t.damaged && !s.has("cap") && !t.bad, ok = false;
  std::string clean;
  if (!plain) {
    Scenario z = s;
    for (auto k : {"x.cut", "x.bad", "x.lack", "cap"}) z.kv.erase(k);
    const RunResult &B = c.base(pg_case(z, false).plan);
    NEED(solved(B.p[0]), "base fails");
    clean = get(B, "out");
  }
  RunResult r = c.run(t.plan);
  const ProcResult &q = r.p[0];
  c.nontrivial = true;
  for (auto &f : t.plan.files)
    if (f.first != "out" && get(r, f.first) != f.second) return fail(v, "input", f.first + " was changed");
  if (q.outcome == O_FATAL || !q.heap_msg.empty())
    for (size_t i = 0; i < r.fired.size(); i++)
      if (r.fired[i] && r.fired_laspack[i] && (s.faults[i].act == A_ALLOC_FAIL || s.faults[i].act == A_ALLOC_FAIL_FROM))
        return fail(v, "laspack-memory", "memory ran out inside the laspack library: " + how(q) + " " + q.heap_msg);
  if (tool_faults(s, r, clean, t.damaged || t.bad, t.must || t.bad, v, &ok)) return true;
  if (!ok || t.damaged || t.bad) {
    c.probe(ok ? "damaged but valid" : t.bad ? "bad graph refused" : "fault reported");
    return false;
  }
  if (!t.eval) {
    std::vector<PgNode> g;
    std::string why;
    if (!parse_pg(get(r, "out"), t.m.O, g, &why)) return fail(v, "result", why);
    if (g.size() != t.pg.size()) return fail(v, "result", "nodes were lost or added");
    for (size_t i = 0; i < g.size(); i++) {
      if (g[i].id != (long)i || g[i].a != t.pg[i].a) return fail(v, "result", fstr("node %zu changed its number or action", i));
      for (int o = 0; o < t.m.O; o++) {
        long l = t.pg[i].next[(size_t)o], w = l;
        if (l >= 0) {
          double best = INFINITY;
          for (size_t k = 0; k < t.a1.size(); k++) {
            double d = distance(t.a2[(size_t)l].v, t.a1[k].v);
            if (d < best) best = d, w = (long)k;
          }
          long got = g[i].next[(size_t)o];
          if (got < 0 || got >= (long)t.a1.size() || distance(t.a2[(size_t)l].v, t.a1[(size_t)got].v) != best)
            return fail(v, "result", fstr("node %zu, observation %d: link %ld leads to %ld, nearest is %ld", i, o, l, got, w));
        } else if ((g[i].next[(size_t)o] >= 0))
          return fail(v, "result", fstr("node %zu, observation %d: a missing link became %ld", i, o, g[i].next[(size_t)o]));
      }
    }
    c.probe("relinked");
    return false;
  }
  size_t n = t.pg.size(), S = (size_t)t.m.S, N = n * S;
  std::vector<Vec> M(N, Vec(N, 0.0));
  Vec b(N, 0.0);
  double nb = 0, sign = t.m.cost ? -1 : 1;
  for (size_t i = 0; i < n; i++)
    for (size_t x = 0; x < S; x++) {
      size_t row = i * S + x, a = (size_t)t.pg[i].a;
      M[row][row] += 1;
      b[row] = sign * t.m.q[a][x];
      nb += b[row] * b[row];
      for (size_t y = 0; y < S; y++)
        for (size_t o = 0; o < (size_t)t.m.O; o++)
          M[row][(size_t)t.pg[i].next[o] * S + y] -= t.m.disc * t.m.T[a][x][y] * t.m.Z[a][y][o];
    }
  NEED(solve_linear(M, b), "singular");
  double tol = 0.00501 + 1e-6 * std::sqrt(nb) / (1 - t.m.disc);
  const char *p = strstr(q.out.c_str(), "Solution found is:");
  if (!p) return fail(v, "result", "no solution: " + how(q));
  p += 18;
  double best = -INFINITY;
  Vec start = start_of(t.m);
  for (size_t i = 0; i < n; i++) {
    double at = 0;
    for (size_t x = 0; x < S; x++) {
      char *e;
      double d = strtod(p, &e);
      if (e == p) return fail(v, "result", "the table is incomplete: " + how(q));
      p = e;
      if (!(std::fabs(d - b[i * S + x]) <= tol))
        return fail(v, "result", fstr("node %zu, state %zu: %.2f is printed, it is worth %.6f", i, x, d, b[i * S + x]));
      at += start[x] * b[i * S + x];
    }
    best = std::max(best, sign * at);
  }
  double val;
  long node;
  while (*p == ' ' || *p == '\n') p++;
  if (sscanf(p, "Initial belief state value: %lf at node %ld", &val, &node) != 2)
    return fail(v, "result", "no value of the initial belief: " + how(q));
  if (node < 0 || node >= (long)n) return fail(v, "start", fstr("start node %ld of %zu", node, n));
  double at = 0;
  for (size_t x = 0; x < S; x++) at += start[x] * b[(size_t)node * S + x];
  if (sign * at < best - 2 * (tol - 0.005) - 1e-9 || std::fabs(val - sign * best) > tol)
    return fail(v, "start", fstr("start at node %ld, worth %.6f, reported %.2f; the best is worth %.6f", node, at, val, sign * best));
  c.probe(t.m.cost ? "evaluated, costs" : "evaluated, rewards");
  return false;
}
// ---------------------------------------------------------------- P23 belief service
struct Line {
  std::string text;
  int kind; // 0 update, 1 unusable, 2 exit
  int a = 0, o = 0;
};
static std::vector<Line> talk(const Scenario &s, const Model &m) {
  Rng r(mix2(s.u("seed"), 9));
  std::vector<Line> t;
  int n = (int)s.i("n", 4);
  Vec b = start_of(m);
  static const char *G[] = {"", " ", "x", "\t", "0", "0 x", "0 0 x", "x 0 0", "-1 0", "0 -1", "0 0 0", "exiting", "0,0", "? ?", "0 0."};
  for (int i = 0; i < n; i++) {
    Line l;
    l.kind = 0;
    l.a = (int)r.below((uint64_t)m.A);
    if (r.chance(1, 12)) l.o = (int)r.below((uint64_t)m.O);
    else { // an observation that can follow
      Vec nb((size_t)m.S, 0.0);
      for (int x = 0; x < m.S; x++)
        for (int y = 0; y < m.S; y++) nb[(size_t)y] += b[(size_t)x] * m.T[(size_t)l.a][(size_t)x][(size_t)y];
      std::vector<int> can;
      for (int o = 0; o < m.O; o++) {
        double p = 0;
        for (int y = 0; y < m.S; y++) p += nb[(size_t)y] * m.Z[(size_t)l.a][(size_t)y][(size_t)o];
        if (p > 1e-6) can.push_back(o);
      }
      l.o = can.empty() ? 0 : can[r.below(can.size())];
    }
    int w = (int)r.below(12);
    l.text = w == 0   ? fstr("  %d \t %d  ", l.a, l.o)
             : w == 1 ? fstr("%d %d\r", l.a, l.o)
             : w == 2 ? fstr("0%d 00%d", l.a, l.o)
                      : fstr("%d %d", l.a, l.o);
    if (r.chance(1, 5)) {
      l.kind = 1;
      int g = (int)r.below(20);
      l.text = g == 0   ? fstr("%d 0", m.A + (int)r.below(9))
               : g == 1 ? fstr("0 %d", m.O + (int)r.below(9))
               : g == 2 ? std::string(r.range(900, 3000), 'y')
               : g == 3 ? "99999999999999999999 0"
               : g == 4 ? "0 99999999999999999999"
                        : G[r.below(sizeof G / sizeof *G)];
    } else if (r.chance(1, 30)) {
      l.kind = 2;
      l.text = r.chance(1, 2) ? "exit" : r.chance(1, 2) ? "  exit" : "exit \t";
    }
    t.push_back(l);
    if (l.kind == 0) {
      Vec nb((size_t)m.S, 0.0);
      double p = 0;
      for (int y = 0; y < m.S; y++) {
        for (int x = 0; x < m.S; x++) nb[(size_t)y] += b[(size_t)x] * m.T[(size_t)l.a][(size_t)x][(size_t)y];
        nb[(size_t)y] *= m.Z[(size_t)l.a][(size_t)y][(size_t)l.o];
        p += nb[(size_t)y];
      }
      for (auto &x : nb) x = p > 0 ? x / p : 0;
      b = nb;
    }
  }
  return t;
}
void gen_P23(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  rand_model(r, s, CF_WIDE | CF_BIG | CF_EX);
  s.kv.erase("m.orig");
  s.set("n", (long)(r.chance(1, 6) ? r.range(20, 80) : r.range(0, 12)));
  s.set("seed", (long)r.below(1u << 30));
  rand_env(r, s);
  if (r.chance(2, 3)) s.set("lines", 1);
  if (r.chance(1, 4)) s.set("x.open", 1); // the last line is not terminated
  out.push_back(s);
  if (!r.chance(1, 3)) return;
  for (int i = 0; i < 3; i++) {
    Scenario t = s;
    Fault f;
    f.trig = 'o';
    f.n = 1 + r.below(14 + (uint64_t)(s.i("lines") ? s.i("n") : 2));
    f.act = r.chance(1, 2) ? A_READ_ERR : A_READ_SHORT;
    f.arg = f.act == A_READ_ERR ? 5 : (int64_t)r.below(50);
    if (r.chance(1, 4)) {
      f.trig = 'a';
      f.n = 1 + r.below(2500);
      f.act = r.chance(1, 2) ? A_ALLOC_FAIL : A_ALLOC_FAIL_FROM;
    }
    t.faults = {f};
    out.push_back(t);
  }
}
static Plan talk_plan(const Scenario &s, const Model &m, const std::vector<Line> &t) {
  Plan p;
  p.files["m.pomdp"] = render(m, s.u("style"));
  ProcSpec q = tool_of(s, {"-tool", "update_beliefs", "-pomdp", "m.pomdp"});
  for (size_t i = 0; i < t.size(); i++) {
    q.in += t[i].text;
    if (i + 1 < t.size() || !s.has("x.open") || t[i].text.empty()) q.in += "\n";
  }
  q.in_lines = s.i("lines");
  p.phases.push_back(Phase{{q}});
  p.faults = s.faults;
  return p;
}
Plan tool_plan(const Scenario &s) { // of whichever tool the scenario is about
  std::string t = s.s("tool");
  if (t == "update_beliefs") {
    Model m = model_of(s);
    return talk_plan(s, m, talk(s, m));
  }
  return t == "pg_eval" || t == "pg_relink" ? pg_case(s, true).plan : tool_case(s, true).plan;
}
bool chk_P23(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  std::vector<Line> t = talk(s, m);
  Plan p = talk_plan(s, m, t);
  const ProcSpec &q = p.phases[0].procs[0];
  RunResult r = c.run(p);
  const ProcResult &x = r.p[0];
  bool inerr = false, moderr = false, alloc = false;
  for (size_t i = 0; i < r.fired.size(); i++)
    if (r.fired[i] && (s.faults[i].act == A_ALLOC_FAIL || s.faults[i].act == A_ALLOC_FAIL_FROM)) alloc = true;
  for (auto &e : x.ev) {
    if (e.op == OP_IN && e.res < 0) inerr = true;
    if ((e.op == OP_READ || e.op == OP_OPEN) && e.res < 0) moderr = true;
  }
  c.nontrivial = true;
  if (!x.heap_msg.empty()) return fail(v, "heap", x.heap_msg);
  if (x.outcome != O_EXIT) return fail(v, "abnormal", "the service ended with " + how(x));
  if (moderr || alloc) {
    if (x.code == 0 && moderr) return fail(v, "accepted", "a model that cannot be read was accepted");
    if (x.code != 0 && x.err.empty() && x.out.empty()) return fail(v, "silent", how(x));
    if (x.code != 0) {
      c.probe("fault reported");
      return false;
    }
  }
  if (x.code != 0) return fail(v, "refused", "the service ended with " + how(x));
  // expected answers
  struct Exp {
    Vec b;
    bool bad;
    size_t after; // lines of input before it
  };
  std::vector<Exp> ex;
  Vec b = start_of(m);
  ex.push_back({b, false, 0});
  size_t used = 0;
  bool bye = false;
  for (auto &l : t) {
    used++;
    if (l.kind == 2) {
      bye = true;
      break;
    }
    if (l.kind == 1) ex.push_back({{}, true, used});
    else {
      Vec nb((size_t)m.S, 0.0);
      double pr = 0;
      for (int y = 0; y < m.S; y++) {
        for (int k = 0; k < m.S; k++) nb[(size_t)y] += b[(size_t)k] * m.T[(size_t)l.a][(size_t)k][(size_t)y];
        nb[(size_t)y] *= m.Z[(size_t)l.a][(size_t)y][(size_t)l.o];
        pr += nb[(size_t)y];
      }
      NEED(pr == 0 || pr > 1e-6, "an almost impossible observation");
      for (auto &k : nb) k = pr > 0 ? k / pr : 0;
      if (pr == 0) c.probe("impossible observation");
      b = nb;
    }
    ex.push_back({b, false, used});
  }
  // what was said
  std::vector<std::pair<std::string, size_t>> said; // line, end offset
  for (size_t i = 0; i < x.out.size();) {
    size_t e = x.out.find('\n', i);
    if (e == std::string::npos) return fail(v, "answer", "the last answer is not terminated: " + how(x));
    said.push_back({x.out.substr(i, e - i), e + 1});
    i = e + 1;
  }
  if (!inerr && said.size() != ex.size())
    return fail(v, "answer", fstr("%zu answers to %zu lines, %zu are due", said.size(), t.size(), ex.size()));
  if (said.size() > ex.size()) return fail(v, "answer", "answers nobody asked for");
  for (size_t i = 0; i < said.size(); i++) {
    const char *q2 = said[i].first.c_str();
    if (ex[i].bad) {
      if (words(said[i].first) != "[]") return fail(v, "answer", fstr("answer %zu: \"%s\" to a line that makes no sense", i, q2));
      continue;
    }
    while (*q2 == ' ') q2++;
    if (*q2++ != '[') return fail(v, "answer", fstr("answer %zu is \"%s\"", i, said[i].first.c_str()));
    for (int k = 0; k < m.S; k++) {
      char *e;
      double d = strtod(q2, &e);
      if (e == q2 || std::fabs(d - ex[i].b[(size_t)k]) > 2e-6)
        return fail(v, "answer", fstr("answer %zu is \"%s\", state %d should have %.6f", i, said[i].first.c_str(), k, ex[i].b[(size_t)k]));
      q2 = e;
      while (*q2 == ' ') q2++;
      if (k + 1 < m.S ? *q2 != ',' : *q2 != ']') return fail(v, "answer", fstr("answer %zu is \"%s\"", i, said[i].first.c_str()));
      q2++;
    }
  }
  // every line that has arrived is answered before the service waits for more
  size_t shown = 0, pos = 0;
  for (auto &e : x.ev) {
    if (e.op == OP_OUT && e.res > 0) shown = std::max(shown, (size_t)(e.a + (uint64_t)e.res));
    if (e.op != OP_IN) continue;
    size_t lines = (size_t)std::count(q.in.begin(), q.in.begin() + (long)pos, '\n'), due = 0;
    for (size_t i = 0; i < ex.size(); i++)
      if (ex[i].after <= lines && i < said.size()) due = said[i].second;
    if (shown < due) return fail(v, "late", fstr("it waits for more input after line %zu before that is answered", lines));
    if (e.res > 0) pos += (size_t)e.res;
  }
  if (!inerr) {
    size_t bad = 0;
    for (auto &e : ex) bad += e.bad;
    if (bad && x.err.empty()) return fail(v, "silent", "lines that make no sense are not reported");
    if (!bad && !x.err.empty()) return fail(v, "noise", "stderr: " + x.err);
  } else {
    size_t lines = (size_t)std::count(q.in.begin(), q.in.begin() + (long)pos, '\n'), due = 0;
    for (size_t i = 0; i < ex.size(); i++)
      if (ex[i].after <= lines) due = i + 1;
    if (said.size() < due) return fail(v, "answer", "lines that arrived before a read error were not answered");
    c.probe("read error on standard input");
  }
  if (bye) c.probe("ended by request");
  if (t.size() >= 10) c.probe("ten or more lines");
  if (s.i("lines")) c.probe("a line at a time");
  return false;
}
