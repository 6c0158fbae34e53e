#include "pc.h"
#include <cstdarg>
const double RELTOL = 1e-6;
std::string fstr(const char *fmt, ...) {
  char b[2000];
  va_list a;
  va_start(a, fmt);
  vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  return b;
}
bool fail(Violation &v, const char *cls, const std::string &msg) {
  v.cls = cls;
  v.msg = msg;
  return true;
}
#include "examples.inc"
void rand_example(Rng &r, Scenario &s) {
  size_t n = r.below(examples().size());
  const Example &e = examples()[n];
  s.set("m.ex", (long)n);
  s.set("m.S", (long)e.S);
  s.set("m.A", (long)e.A);
  s.set("m.O", (long)e.O);
  s.set("m.kind", 0l);
  if (r.chance(1, 2)) s.set("m.orig", 1l), s.kv.erase("style"), s.kv.erase("m.disc");
}
std::string model_text(const Scenario &s) {
  Model m = model_of(s);
  if (s.has("m.ex") && s.has("m.orig") && !s.has("m.disc")) return examples()[(size_t)s.i("m.ex")].text;
  return render(m, s.u("style"));
}
void rand_model(Rng &r, Scenario &s, int fl) {
  s.set("m.seed", (long)r.below(1u << 30));
  int S = r.chance(1, 2) ? 2 : r.chance(4, 5) ? 3 : r.chance(1, 3) ? 1 : 4, A = r.range(1, 3), O = r.range(1, 3);
  if (r.chance(3, 5)) {
    A = 2;
    O = 2;
  }
  if (A == 1 && r.chance(1, 2)) A = 2;
  if (O == 1 && r.chance(1, 2)) O = 2;
  if ((fl & CF_TINY) && S > 3) S = 3;
  if ((fl & CF_TINY) && A * O > 4) O = 2, A = 2;
  if ((fl & CF_WIDE) && r.chance(1, 12)) S = r.range(4, 8), A = r.range(1, 5), O = r.range(1, 5);
  if ((fl & CF_BIG) && r.chance(1, 25)) S = r.range(9, r.chance(1, 2) ? 14 : 40), A = r.range(1, 4), O = r.range(1, 4);
  if ((fl & CF_WIDE) && r.chance(1, 50)) { // numbers of two digits
    S = 2;
    A = r.chance(1, 2) ? r.range(9, 14) : 1;
    O = A > 1 ? r.range(1, 2) : r.range(9, 14);
    if (r.chance(1, 6)) A = O = r.range(10, 12);
  }
  s.set("m.S", S);
  s.set("m.A", A);
  s.set("m.O", O);
  int k = 0;
  if (r.chance(1, 4)) k |= MK_COST;
  if (r.chance(1, 6)) k |= MK_DETT;
  if (r.chance(1, 8)) k |= MK_DETZ;
  if (r.chance(1, 6)) k |= MK_UNINF;
  if (r.chance(1, 4)) k |= MK_SPARSE;
  if (r.chance(1, 5)) k |= MK_LOWDISC;
  else if (r.chance(1, 4)) k |= MK_MIDDISC;
  if (r.chance(1, 3)) k |= MK_START;
  if (r.chance(1, 6)) k |= MK_NEG;
  else if (r.chance(1, 6)) k |= MK_NONNEG;
  if (r.chance(1, 6)) k |= MK_IMPOSS;
  if (r.chance(1, 6)) k |= MK_SMALLR;
  s.set("m.kind", k);
  if (!(k & (MK_LOWDISC | MK_MIDDISC)) && r.chance(1, 7)) s.set("m.disc", std::string(r.pick(Strs{"0", "1", "1", "0.99", "0.999", "0.05"})));
  if (r.chance(1, 4)) s.set("style", (long)r.below(1u << 20) + 1);
  if ((fl & CF_EX) && r.chance(1, 25)) rand_example(r, s);
}
// now and then a narrow model over many epochs
void rand_long(Rng &r, Scenario &s, int lo, int hi) {
  if (hi < 3 || lo >= 20 || s.has("m.ex") || !r.chance(1, 25)) return;
  bool one = r.chance(1, 2);
  s.set("m.S", one ? 1 : 2);
  if (!one) s.set("m.A", 1);
  if (s.i("m.A") > 3) s.set("m.A", 3);
  if (s.i("m.O") > 3) s.set("m.O", 3);
  s.set("m.kind", s.i("m.kind") & ~(MK_LOWDISC | MK_MIDDISC));
  s.set("m.disc", std::string(r.pick(Strs{"1", "0.999", "0.99", "0.95"})));
  s.set("h", (long)(r.chance(1, 2) ? r.range(9, 13) : r.chance(1, 2) ? r.range(14, 40) : r.range(96, 125)));
  if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
}
void rand_options(Rng &r, Scenario &s, int fl) {
  std::string m = "incprune";
  int w = (int)r.below(100);
  bool enumok = !(fl & CF_NOENUM) && s.i("m.O") <= 2 && s.i("m.S") <= 3 && s.i("m.A") <= 5;
  if (w < 35) m = "incprune";
  else if (w < 58) m = "witness";
  else if (w < 80) m = "twopass";
  else m = enumok ? "enum" : "incprune";
  if ((fl & CF_GRID) && r.chance(1, 4)) m = "grid";
  if (m != "incprune" || r.chance(1, 2)) s.set("o.method", m);
  if (m == "incprune" && r.chance(2, 3))
    s.set("o.inc_prune", std::string(r.chance(1, 2) ? "restricted_region" : r.chance(1, 2) ? "generalized" : "normal"));
  if (r.chance(1, 4)) s.set("o.proj_purge", std::string(r.chance(1, 2) ? "none" : r.chance(1, 2) ? "domonly" : "normal_prune"));
  if (r.chance(1, 4)) s.set("o.dom_check", std::string(r.chance(1, 2) ? "false" : "true"));
  if (r.chance(1, 3)) s.set("o.alg_rand", (long)r.below(25));
  if (r.chance(1, 3)) s.set("o.prune_rand", (long)r.below(25));
  if (r.chance(1, 4)) s.set("o.witness_points", std::string("true"));
  if (r.chance(1, 3)) s.set("o.rand_seed", fstr("%ld:%ld:%ld", (long)r.below(65536), (long)r.below(65536), (long)r.below(65536)));
  if (m == "enum" && r.chance(1, 5)) s.set("o.enum_purge", std::string("normal_prune"));
  if (r.chance(1, 12)) s.set("o.epsilon", std::string(r.chance(1, 2) ? "0.0000000001" : r.chance(1, 2) ? "0.00000001" : "1e-12"));
  if (r.chance(1, 12)) s.set("o.lp_epsilon", std::string(r.chance(1, 2) ? "0.0000000001" : r.chance(1, 2) ? "1e-13" : "1e-11"));
  if (fl & CF_FASTPURGE) {
    if (r.chance(1, 8)) s.set(m == "enum" ? "o.enum_purge" : "o.q_purge", std::string("domonly"));
  }
  if (m == "grid") {
    static const char *T[] = {"simplex", "pairwise", "search", "initial"};
    s.set("o.fg_type", std::string(T[r.below(4)]));
    s.set("o.fg_points", (long)r.range(4, 40));
    if (r.chance(1, 3)) s.set("o.fg_purge", std::string(r.chance(1, 2) ? "none" : "domonly"));
  }
  if (fl & CF_STATS) {
    if (r.chance(1, 6)) s.set("o.stat_summary", std::string("true"));
    if (r.chance(1, 8)) s.set("o.verbose", std::string(r.chance(1, 2) ? "main" : "context"));
  }
}
void rand_env(Rng &r, Scenario &s) {
  s.set("p.heap", (long)r.below(1000000) + 1);
  if (r.chance(1, 2)) s.set("p.salt", (long)r.below(1000000) + 1);
  if (r.chance(1, 3)) {
    static const int B[] = {1, 16, 61, 256, 1024, 65536};
    s.set("p.bufsz", B[r.below(6)]);
  }
  if (r.chance(1, 3)) {
    static const int C[] = {1, 2, 7, 64, 513};
    s.set("p.chunk", C[r.below(5)]);
  }
  if (r.chance(1, 4)) s.set("p.norecycle", 1);
  s.set("p.so", (long)r.below(3));
  s.set("p.pid", (long)r.range(2, 60000));
  if (r.chance(1, 2)) s.set("p.wall", (long)r.below(4000000000u));
  if (r.chance(1, 2)) s.set("p.ns", (long)r.range(10, 20000));
}
// A chain whose states seem worth something at first: what is promised at its end, and as much along it, costs dearly
// one step later. The value function falls from epoch to epoch while the vectors that remain are those there were.
static void trap_model(const ModelSpec &k, int n, Model &t) {
  if (n < 2 || k.S != n + 2 || k.A != 3 || k.O != k.S) throw Skip{"bad chain"};
  Rng r(mix2(k.seed, 31));
  t.disc = r.chance(1, 2) ? 0.5 : 0.25;
  t.cost = r.chance(1, 4);
  double sign = t.cost ? -1 : 1, best = (double)(1 << (2 * n)) * r.range(1, 3);
  std::vector<int> at(k.S), act(3), ob(k.S); // any numbering
  for (int i = 0; i < k.S; i++) at[(size_t)i] = ob[(size_t)i] = i;
  for (int i = 0; i < 3; i++) act[(size_t)i] = i;
  auto mix = [&](std::vector<int> &v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  };
  mix(at), mix(act), mix(ob);
  int pen = at[(size_t)n], end = at[(size_t)n + 1];
  auto set = [&](int a, int from, int to, double rew) {
    for (int y = 0; y < k.S; y++) {
      t.T[(size_t)act[(size_t)a]][(size_t)from][(size_t)y] = y == to;
      for (int o = 0; o < k.O; o++) t.R[(size_t)act[(size_t)a]][(size_t)from][(size_t)y][(size_t)o] = rew == 0 ? 0 : sign * rew;
    }
  };
  for (int a = 0; a < 3; a++) {
    for (int y = 0; y < k.S; y++)
      for (int o = 0; o < k.O; o++) t.Z[(size_t)a][(size_t)y][(size_t)o] = ob[(size_t)y] == o;
    set(a, pen, end, -10 * best);
    set(a, end, end, a == 1 ? -1 : 0);
  }
  double now = best;
  for (int i = n - 1; i >= 0; i--, now *= t.disc) {
    int x = at[(size_t)i];
    set(0, x, i == n - 1 ? end : at[(size_t)i + 1], 0);
    set(1, x, pen, i == n - 1 ? best : -1);
    set(2, x, pen, i == n - 1 ? 0 : now);
  }
  t.rkind = 0;
  t.finish();
}
static void example_model(const ModelSpec &k, size_t n, Model &t) { // one of the models that come with the program
  if (n >= examples().size()) throw Skip{"no such example"};
  const Example &e = examples()[n];
  if (k.S != e.S || k.A != e.A || k.O != e.O) throw Skip{"not the example's size"};
  t.disc = e.disc;
  t.cost = e.cost != 0;
  t.start = e.start;
  size_t S = (size_t)e.S, O = (size_t)e.O;
  for (auto &x : t.T)
    for (auto &y : x) std::fill(y.begin(), y.end(), 0.0);
  for (auto &x : t.Z)
    for (auto &y : x) std::fill(y.begin(), y.end(), 0.0);
  for (auto &x : t.R)
    for (auto &y : x)
      for (auto &z : y) std::fill(z.begin(), z.end(), 0.0);
  auto each = [&](const std::vector<double> &l, const std::function<double &(size_t)> &at) {
    for (size_t i = 0; i + 1 < l.size(); i += 2) at((size_t)l[i]) = l[i + 1];
  };
  each(e.T, [&](size_t i) -> double & { return t.T[i / S / S][i / S % S][i % S]; });
  each(e.Z, [&](size_t i) -> double & { return t.Z[i / O / S][i / O % S][i % O]; });
  each(e.R, [&](size_t i) -> double & { return t.R[i / O / S / S][i / O / S % S][i / O % S][i % O]; });
  t.rkind = 0;
  for (auto &x : t.R)
    for (auto &y : x)
      for (auto &z : y) {
        if (z != y[0]) t.rkind = std::max(t.rkind, 1);
        for (double w : z)
          if (w != z[0]) t.rkind = 2;
      }
  t.finish();
}
Model model_of(const Scenario &s) {
  ModelSpec m;
  m.seed = s.u("m.seed", 1);
  m.S = (int)s.i("m.S", 2);
  m.A = (int)s.i("m.A", 2);
  m.O = (int)s.i("m.O", 2);
  m.kind = (int)s.i("m.kind");
  if (m.S < 1 || m.A < 1 || m.O < 1) throw Skip{"bad model size"};
  Model t = gen_model(m);
  if (s.has("m.ex")) example_model(m, (size_t)s.i("m.ex"), t);
  if (s.has("m.trap")) trap_model(m, (int)s.i("m.trap"), t);
  if (s.has("m.disc") && !(m.kind & (MK_LOWDISC | MK_MIDDISC))) t.disc = s.f("m.disc");
  if (s.has("m.scale")) {
    double f = s.f("m.scale", 1);
    for (auto &x : t.R)
      for (auto &y : x)
        for (auto &z : y)
          for (double &w : z) w *= f;
    t.finish();
  }
  return t;
}
static void env_of(const Scenario &s, ProcSpec &p) {
  p.heap_seed = s.u("p.heap", 1);
  p.rng_salt = s.u("p.salt");
  p.bufsz = (int)s.i("p.bufsz");
  p.chunk = (int)s.i("p.chunk");
  p.no_reuse = s.i("p.norecycle") != 0;
  p.fence = s.i("p.fence") != 0;
  p.so = (int)s.i("p.so", SO_FULL);
  p.pid = (int)s.i("p.pid", 4242);
  p.ppid = p.pid / 2 + 1;
  p.wall0 = s.i("p.wall", 1000000000);
  p.ns_per_tick = s.u("p.ns", 1000);
  p.budget = s.u("p.budget", 120000000ull);
  p.snap = s.i("p.snap", 0) != 0;
}
ProcSpec proc_of(const Scenario &s, const Strs &more) {
  ProcSpec p;
  env_of(s, p);
  p.args = {"-pomdp", "m.pomdp", "-o", s.s("out", "r")};
  if (s.has("h")) {
    p.args.push_back("-horizon");
    p.args.push_back(s.s("h"));
  }
  for (auto &k : s.kv)
    if (k.first.compare(0, 2, "o.") == 0) {
      p.args.push_back("-" + k.first.substr(2));
      p.args.push_back(k.second);
    }
  for (auto &m : more) p.args.push_back(m);
  return p;
}
Plan plan_of(const Scenario &s, const Strs &more) {
  Plan p;
  p.files["m.pomdp"] = model_text(s);
  p.phases.push_back(Phase{{proc_of(s, more)}});
  return p;
}
ProcSpec tool_of(const Scenario &s, const Strs &args) {
  ProcSpec p;
  env_of(s, p);
  p.prog = 1;
  p.args = args;
  return p;
}
bool solved(const ProcResult &p) { return p.outcome == O_EXIT && p.code == 0; }
bool clean_end(const ProcResult &p) { return p.outcome == O_EXIT; }
std::string tail(const std::string &s, size_t n) { return s.size() > n ? "..." + s.substr(s.size() - n) : s; }
std::string how(const ProcResult &p) {
  return fstr("%s %d (stdout ends \"%s\"; stderr ends \"%s\"%s%s)", kOutcomeName[p.outcome], p.code, tail(p.out, 120).c_str(),
              tail(p.err, 200).c_str(), p.heap_msg.empty() ? "" : "; heap: ", p.heap_msg.c_str());
}
std::string runsum(const ProcResult &p) { return how(p); }
static bool ann_at(const std::string &o, size_t p) { return (p == 0 || o[p - 1] == '\n') && o.compare(p, 7, "Epoch: ") == 0; }
int epochs_of(const std::string &o) {
  int n = 0;
  for (size_t p = o.find("Epoch: "); p != std::string::npos; p = o.find("Epoch: ", p + 1))
    if (ann_at(o, p)) n++;
  return n;
}
size_t announce_pos(const std::string &o, int k) {
  int n = 0;
  for (size_t p = o.find("Epoch: "); p != std::string::npos; p = o.find("Epoch: ", p + 1))
    if (ann_at(o, p) && ++n == k) return p;
  return std::string::npos;
}
int epoch_at(const ProcResult &p, size_t e) {
  size_t bytes = 0;
  for (size_t i = 0; i < e && i < p.ev.size(); i++)
    if (p.ev[i].op == OP_OUT) bytes = (size_t)p.ev[i].a + (size_t)p.ev[i].res;
  return epochs_of(p.out.substr(0, bytes));
}
std::vector<EpochLine> epoch_lines(const std::string &o) {
  std::vector<EpochLine> v;
  for (size_t p = o.find("Epoch: "); p != std::string::npos; p = o.find("Epoch: ", p + 1))
    if (ann_at(o, p)) {
      EpochLine e;
      e.k = atoi(o.c_str() + p + 7);
      e.done = false;
      e.size = -1;
      e.err = e.secs = e.total = -1;
      size_t q = o.find("...", p);
      if (q == std::string::npos) {
        v.push_back(e);
        break;
      }
      char er[64];
      long n;
      double a, b;
      size_t nx = o.find("\nEpoch: ", q);
      std::string seg = o.substr(q + 3, nx == std::string::npos ? nx : nx - q - 3);
      for (size_t l = 0; l < seg.size();) {
        size_t x = seg.find('\n', l);
        std::string ln = seg.substr(l, x == std::string::npos ? x : x - l);
        size_t z = ln.find("ZLZ: ");
        if (z != std::string::npos) {
          for (z += 5; z < ln.size() && ln[z] == '.';) z++;
          ln = ln.substr(z);
        }
        if (sscanf(ln.c_str(), "%ld vectors in %lf secs. (%lf total) (err=%63[^)])", &n, &a, &b, er) == 4) {
          e.done = true;
          e.size = n;
          e.secs = a;
          e.total = b;
          e.err = strtod(er, nullptr);
          break;
        }
        if (x == std::string::npos) break;
        l = x + 1;
      }
      v.push_back(e);
    }
  return v;
}
bool alpha_of(const RunResult &r, const std::string &f, const Model &m, ASet &a, std::string *why) {
  auto i = r.disk.find(f);
  if (i == r.disk.end()) {
    if (why) *why = f + " does not exist";
    return false;
  }
  std::string w;
  if (!parse_alpha(i->second, m.S, m.A, a, &w)) {
    if (why) *why = f + ": " + w;
    return false;
  }
  return true;
}
int first_fired(const ProcResult &p, int act) {
  for (size_t i = 0; i < p.ev.size(); i++)
    if (p.ev[i].op == OP_FAULT && p.ev[i].inode == act) return (int)i;
  return -1;
}
int ev_find(const ProcResult &p, int op, const char *path, int from) {
  for (size_t i = (size_t)from; i < p.ev.size(); i++)
    if (p.ev[i].op == op && !strcmp(p.ev[i].path, path)) return (int)i;
  return -1;
}
Fault rand_async(Rng &r, const ProcResult &b, int act, uint64_t lo, uint64_t hi, int64_t arg) {
  Fault f;
  f.act = act;
  f.arg = arg;
  if (hi <= lo) hi = lo + 1;
  // seam operations give stable anchors: n-th operation, then some blocks later
  struct A {
    uint64_t n, t;
  };
  std::vector<A> an;
  an.push_back({0, 0});
  uint64_t last = 0;
  for (auto &e : b.ev)
    if (e.n > last && e.op != OP_EXIT) {
      an.push_back({e.n, e.tick});
      last = e.n;
    }
  if (r.chance(1, 2)) { // close to a seam operation
    std::vector<A> in;
    for (auto &x : an)
      if (x.t >= lo && x.t <= hi) in.push_back(x);
    if (!in.empty()) {
      A x = r.pick(in);
      if (r.chance(1, 3)) {
        f.trig = 'o';
        f.n = x.n ? x.n : 1;
        return f;
      }
      f.trig = 't';
      f.n = x.n;
      f.d = r.below(r.chance(1, 2) ? 4 : 60);
      return f;
    }
  }
  uint64_t t = lo + r.below(hi - lo + 1);
  A best = an[0];
  for (auto &x : an)
    if (x.t <= t) best = x;
  f.trig = 't';
  f.n = best.n;
  f.d = t - best.t;
  return f;
}
bool is_work_file(const std::string &n) {
  return n.compare(0, 2, "##") == 0 || (n.size() > 4 && n.compare(n.size() - 4, 4, ".tmp") == 0);
}
std::string pgcheck(const Model &m, const ASet &cur, const ASet &prev, const std::string &txt, double tol) {
  std::vector<PgNode> pg;
  std::string why;
  if (!parse_pg(txt, m.O, pg, &why)) return why;
  if (pg.size() != cur.size()) return fstr("%zu nodes for %zu vectors", pg.size(), cur.size());
  for (size_t i = 0; i < pg.size(); i++) {
    if (pg[i].id != (long)i) return fstr("line %zu has node id %ld", i, pg[i].id);
    if (pg[i].a != cur[i].a) return fstr("node %zu has action %ld, its vector action %d", i, pg[i].a, cur[i].a);
    std::vector<const Vec *> nx(m.O, nullptr);
    bool partial = false;
    for (int o = 0; o < m.O; o++) {
      long t = pg[i].next[o];
      bool poss = false;
      for (int j = 0; j < m.S; j++) {
        bool reach = false;
        for (int s = 0; s < m.S; s++) reach = reach || m.T[pg[i].a][s][j] > 0;
        if (reach && m.Z[pg[i].a][j][o] > 0) poss = true;
      }
      if (t == -1) {
        if (poss) return fstr("node %zu says observation %d is impossible after action %ld, but it can happen", i, o, pg[i].a);
        continue;
      }
      if (t == -2) {
        partial = true;
        continue;
      }
      if (t < 0 || t >= (long)prev.size())
        return fstr("node %zu, observation %d points to node %ld of %zu", i, o, t, prev.size());
      nx[o] = &prev[t].v;
    }
    if (partial) return fstr("node %zu has no link for an observation", i);
    Vec v;
    action_value_vec(m, pg[i].a, nx, v);
    for (int s = 0; s < m.S; s++)
      if (!(std::fabs(v[s] - cur[i].v[s]) <= tol))
        return fstr("node %zu: acting and following its links is worth %.12g in state %d, its vector says %.12g", i, v[s], s,
                    cur[i].v[s]);
  }
  return "";
}
void term_values(const Scenario &s, Plan &p, const Model &m) { // scenario key "term": non-zero terminal values
  if (!s.has("term")) return;
  Rng r(mix2(s.u("term"), 7));
  ASet t;
  int n = r.range(1, 9), sc = r.chance(1, 3) ? 40 : 6, kind = (int)r.below(4), c = kind == 1 ? 60 : kind == 2 ? -60 : 0;
  for (int k = 0; k < n; k++) {
    Alpha x;
    x.a = 0;
    for (int i = 0; i < m.S; i++) x.v.push_back(c + r.range(-sc, sc));
    t.push_back(x);
  }
  p.files["term.alpha"] = write_alpha(t);
  p.phases[0].procs[0].args.push_back("-terminal_values");
  p.phases[0].procs[0].args.push_back("term.alpha");
}
