// Interrupts, time limits, crashes, failing disks, failing memory, odd clocks, other processes.
#include "pc.h"
typedef std::vector<Scenario> Fam;
static std::string old_alpha(const Model &m, double x) {
  ASet a{Alpha{0, Vec(m.S, x)}};
  return write_alpha(a);
}
static std::string old_pg(const Model &m) {
  std::string t = "0 0 ";
  for (int o = 0; o < m.O; o++) t += " 0";
  return t + " \n";
}
// the plan of a scenario: options, earlier results in the directory, faults
Plan fplan(const Scenario &s, const Strs &more, bool faults) {
  Model m = model_of(s);
  Plan p = plan_of(s, more);
  if (s.prop != "P09") term_values(s, p, m);
  if (s.i("old")) {
    p.files["r.alpha"] = old_alpha(m, 12345.5);
    p.files["r.pg"] = old_pg(m);
  }
  if (s.i("old") > 1) {
    p.files["r.alpha1"] = old_alpha(m, 777.5);
    p.files["r.pg1"] = old_pg(m);
  }
  if (!s.has("o.rand_seed")) {
    auto &a = p.phases[0].procs[0].args;
    a.push_back("-rand_seed");
    a.push_back("1:2:3");
  }
  if (s.has("cap")) p.disk_cap = s.u("cap");
  if (faults) p.faults = s.faults;
  return p;
}
static const Strs SAVEALL = {"-save_all", "true"};
struct Ref {
  const RunResult *r;
  Model m;
  int K;
  std::vector<ASet> sets;
  std::vector<std::string> text;
}; // sets[k]: epoch k, [0] unused
static Ref ref_of(const Scenario &s, Ctx &c) {
  Ref f;
  f.m = model_of(s);
  Plan p = fplan(s, s.has("o.save_all") ? Strs{} : SAVEALL, false);
  p.disk_cap = 0;
  for (auto &q : p.phases[0].procs) q.so = SO_UNBUF;
  f.r = &c.base(p);
  NEED(solved(f.r->p[0]), "the fault-free run gives no solution");
  f.K = epochs_of(f.r->p[0].out);
  f.sets.resize(1);
  f.text.resize(1);
  std::string why;
  for (int k = 1; k <= f.K; k++) {
    ASet a;
    NEED(alpha_of(*f.r, "r.alpha" + std::to_string(k), f.m, a, &why), "no per-epoch file");
    f.sets.push_back(a);
    f.text.push_back(f.r->disk.at("r.alpha" + std::to_string(k)));
  }
  return f;
}
static std::string get(const RunResult &r, const std::string &f) {
  auto i = r.disk.find(f);
  return i == r.disk.end() ? "" : i->second;
}
static bool claims(const ProcResult &p) { return p.out.find("Solution found") != std::string::npos; }
static uint64_t tick_of_announce(const ProcResult &p, int k) {
  size_t pos = announce_pos(p.out, k);
  if (pos == std::string::npos) return p.ticks;
  for (auto &e : p.ev)
    if (e.op == OP_OUT && e.a + (uint64_t)e.res > pos) return e.tick;
  return p.ticks;
}
static size_t out_at(const ProcResult &p, size_t e) {
  size_t b = 0;
  for (size_t i = 0; i < e && i < p.ev.size(); i++)
    if (p.ev[i].op == OP_OUT) b = (size_t)p.ev[i].a + (size_t)p.ev[i].res;
  return b;
}
void small(Rng &r, Scenario &s, int lo, int hi, int fl) {
  do {
    s.kv.clear();
    rand_model(r, s, CF_TINY);
  } while (s.i("m.S") == 3 && s.i("m.A") * s.i("m.O") > 4);
  rand_options(r, s, fl | CF_NOENUM * (r.chance(2, 3) ? 1 : 0));
  int h = r.range(lo, hi);
  if (s.s("o.method") == "enum") h = std::min(h, 3);
  s.set("h", h);
  rand_long(r, s, lo, hi);
  rand_env(r, s);
  s.set("p.so", SO_UNBUF);
  s.set("p.budget", 40000000l);
  if (r.chance(1, 3)) s.set("old", r.range(1, 2));
  if (r.chance(1, 6)) s.set("o.save_penultimate", "true");
  if (r.chance(1, 6)) s.set("o.save_all", "true");
}
// terminal values, and the variations of value iteration
void vary(Rng &r, Scenario &s, bool zlz) {
  if (r.chance(1, 4)) s.set("term", (long)r.below(1u << 20) + 1);
  if (s.s("o.method") == "grid") return;
  if (r.chance(1, 8)) {
    s.set("o.vi_variation", "adjustable_epsilon");
    if (r.chance(1, 2)) s.set("o.history_length", (long)r.range(1, 2));
    if (r.chance(1, 2)) s.set("o.start_epsilon", "0.01");
  } else if (zlz && !s.has("term") && s.s("o.q_purge") != "domonly" && s.s("o.enum_purge") != "domonly" && r.chance(1, 7)) {
    s.set("o.vi_variation", "zlz");
    s.set("o.witness_points", "true");
  }
  if (r.chance(1, 8)) {
    s.set("o.stop_criteria", std::string(r.chance(1, 2) ? "bellman" : "exact"));
    if (r.chance(1, 2)) s.set("o.stop_delta", "0.5");
  }
}
// the newest epoch some file in the directory still holds completely (inputs and earlier results excluded)
static int recoverable(const RunResult &r, const Plan &p, const Ref &f, std::string *where = nullptr, double tol = 1e-9) {
  int best = 0;
  for (auto &d : r.disk) {
    auto in = p.files.find(d.first);
    if (in != p.files.end() && in->second == d.second) continue;
    ASet a;
    if (!parse_alpha(d.second, f.m.S, f.m.A, a, nullptr)) continue;
    for (int k = f.K; k > best; k--)
      if (d.second == f.text[k] || same_set(a, f.sets[k], tol * vscale(f.sets[k]), nullptr)) {
        best = k;
        if (where) *where = d.first;
        break;
      }
  }
  return best;
}
static bool diff_disk(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b,
                      std::string *why) {
  for (auto &x : a) {
    auto i = b.find(x.first);
    if (i == b.end()) {
      *why = x.first + " is missing";
      return true;
    }
    if (i->second != x.second) {
      *why = x.first + " differs";
      return true;
    }
  }
  for (auto &x : b)
    if (!a.count(x.first)) {
      *why = x.first + " is extra";
      return true;
    }
  return false;
}
static bool inputs_intact(const RunResult &r, const Plan &p, std::string *why) {
  for (auto n : {"m.pomdp", "term.alpha", "opts.cfg"}) {
    auto i = p.files.find(n);
    if (i != p.files.end() && get(r, n) != i->second) {
      *why = n;
      return false;
    }
  }
  return true;
}
static void spread(Rng &r, Scenario &s, const ProcResult &b, int act, int n, Fam &out, uint64_t lo, uint64_t hi,
                   int64_t arg = 0) {
  for (int i = 0; i < n; i++) {
    Scenario t = s;
    t.faults = {rand_async(r, b, act, lo, hi, arg)};
    out.push_back(t);
  }
}

// ---------------------------------------------------------------- P04 interrupt
void gen_P04(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 2, 5);
  vary(r, s, true);
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  uint64_t e1 = tick_of_announce(b, 1), en = tick_of_announce(b, epochs_of(b.out));
  for (int i = 0; i < 8; i++) {
    Scenario t = s;
    uint64_t lo = i == 0 ? 0 : i == 1 ? e1 / 2 : e1, hi = i <= 1 ? e1 : i == 2 ? b.ticks : i < 5 ? en : b.ticks;
    t.faults.push_back(rand_async(r, b, A_SIGINT, lo, hi));
    if (i >= 6) {
      int k = r.range(1, 3);
      while (k--) t.faults.push_back(rand_async(r, b, A_SIGINT, e1, b.ticks));
    }
    out.push_back(t);
  }
}
bool chk_P04(const Scenario &s, Ctx &c, Violation &v) {
  Plan p = fplan(s), pb = fplan(s, {}, false);
  const RunResult &B = c.base(pb);
  NEED(solved(B.p[0]), "base fails");
  int KB = epochs_of(B.p[0].out);
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why;
  int first = -1, killed = -1;
  for (size_t i = 0; i < q.ev.size(); i++)
    if (q.ev[i].op == OP_DELIVER && q.ev[i].inode == 2) {
      if (first < 0) first = (int)i;
      if (!q.ev[i].res) killed = (int)i;
    }
  if (first < 0) {
    if (!solved(q) || diff_disk(B.disk, r.disk, &why))
      return fail(v, "no-delivery", "the interrupt never arrived, yet " + why + "; " + how(q));
    return false;
  }
  int a = epoch_at(q, (size_t)first);
  c.nontrivial = true;
  if (killed >= 0) {
    int ak = epoch_at(q, (size_t)killed);
    bool done = claims(q);
    if (ak > 0 && !done) return fail(v, "killed", fstr("an interrupt during epoch %d killed the run: ", ak) + how(q));
    if (!done) {
      c.probe("before the run was set up");
      if (get(r, "r.alpha") != (p.files.count("r.alpha") ? p.files["r.alpha"] : "") ||
          get(r, "r.pg") != (p.files.count("r.pg") ? p.files["r.pg"] : ""))
        return fail(v, "killed-touched", "an interrupt before the first epoch left solution files behind");
      return false;
    }
  }
  if (killed < 0 && !solved(q)) return fail(v, "not-solved", fstr("interrupted in epoch %d, and ended with ", a) + how(q));
  if (!claims(q)) return fail(v, "not-reported", "no solution is announced after an interrupt: " + how(q));
  int K = epochs_of(q.out);
  if (K < 1 || K > std::max(a + 1, 1) || K > KB)
    return fail(v, "late", fstr("interrupted after %d announcements, ran %d epochs of %d", a, K, KB));
  auto L = epoch_lines(q.out.substr(0, out_at(q, (size_t)first)));
  if (a >= 1 && !L.empty() && !L.back().done && K != a)
    return fail(v, "late", fstr("interrupted inside epoch %d, ran %d epochs", a, K));
  Scenario s2 = s;
  s2.faults.clear();
  s2.set("h", K);
  const RunResult &H = K == KB ? B : c.base(fplan(s2, {}, false));
  NEED(solved(H.p[0]) && epochs_of(H.p[0].out) == K, "the shorter run gives no solution");
  for (auto n : {"r.alpha", "r.pg"})
    if (get(r, n) != get(H, n))
      return fail(v, "differs",
                  fstr("interrupted in epoch %d: %s after %d epochs is not what a run of %d epochs gives", a, n, K, K));
  if (diff_disk(H.disk, r.disk, &why)) return fail(v, "files", "interrupted run leaves other files than the shorter run: " + why);
  if (!inputs_intact(r, p, &why)) return fail(v, "input", why + " changed");
  c.probe(a == 0 ? "before the first epoch" : K < KB ? "stopped early" : "in the last epoch or later");
  if (s.faults.size() > 1) c.probe("several interrupts");
  return false;
}
// ---------------------------------------------------------------- P05 time limit
void gen_P05(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 1, 5);
  s.kv.erase("p.ns");
  if (r.chance(2, 3)) s.set("term", (long)r.below(1u << 20) + 1); // so that the first epoch has something to do
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b) && b.ticks > 4000, "base too short");
  uint64_t setup = tick_of_announce(b, 1), two = tick_of_announce(b, 2);
  if (two <= setup) two = b.ticks;
  for (int i = 0; i < 9; i++) {
    Scenario t = s;
    int N = r.range(1, 4);
    uint64_t at;
    at = i == 0            ? b.ticks * (uint64_t)r.range(105, 400) / 100
         : i == 1          ? setup / 2 + r.below(setup / 2 + 1)
         : i == 2 || i == 3 ? setup + r.below(two - setup + 1)
                           : setup + r.below(b.ticks - setup + 1);
    if (i == 6) at = b.ticks - r.below(b.ticks / 50 + 1);
    if (at < 2000) at = 2000;
    t.set("o.time_limit", N);
    t.set("p.ns", (long)((uint64_t)N * 1000000000ull / at));
    if (r.chance(1, 5)) t.faults.push_back(rand_async(r, b, A_CLOCK_JUMP, 0, b.ticks, (int64_t)r.below(4000000) - 2000000));
    if (r.chance(1, 8)) t.faults.push_back(rand_async(r, b, A_STALL, 0, b.ticks, (int64_t)r.below(100000)));
    if (r.chance(1, 6)) t.faults.push_back(rand_async(r, b, A_SIGINT, setup, b.ticks));
    out.push_back(t);
  }
}
bool chk_P05(const Scenario &s, Ctx &c, Violation &v) {
  Plan p = fplan(s);
  Scenario s0 = s;
  s0.kv.erase("o.time_limit");
  Ref f = ref_of(s0, c);
  Plan pb = fplan(s0);
  pb.faults.clear();
  const RunResult &B = c.base(pb);
  uint64_t ns = p.phases[0].procs[0].ns_per_tick;
  double N = s.f("o.time_limit");
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  int x = -1;
  std::string why;
  for (size_t i = 0; i < q.ev.size(); i++)
    if (q.ev[i].op == OP_DELIVER && q.ev[i].inode == 26 && q.ev[i].res != 2 && x < 0) x = (int)i;
  NEED(solved(B.p[0]), "the run without limit does not succeed");
  if (x < 0) { // the limit never struck: it must not have mattered, and it must have been long enough
    if (!solved(q)) return fail(v, "not-reached", "the time limit was not reached, but the run ended with " + how(q));
    bool sig = false;
    for (auto &e : q.ev)
      if (e.op == OP_DELIVER && e.inode == 2) sig = true;
    if (sig) {
      int K = epochs_of(q.out);
      if (K < 1 || K > f.K || get(r, "r.alpha") != f.text[(size_t)K])
        return fail(v, "not-reached",
                    fstr("interrupted within the time limit in epoch %d: r.alpha is not that epoch's solution", K));
      c.probe("interrupted within the limit");
    } else if (diff_disk(B.disk, r.disk, &why))
      return fail(v, "not-reached", "the time limit was not reached, but the files differ: " + why);
    uint64_t fin = tick_of_announce(q, epochs_of(q.out));
    if ((double)fin * (double)ns * 1e-9 > N * 1.02 + 0.05 + (double)tick_of_announce(q, 1) * (double)ns * 1e-9)
      return fail(v, "ignored",
                  fstr("limit %g s, but the run used %.2f s of processor time before its last epoch", N,
                       (double)fin * (double)ns * 1e-9));
    c.nontrivial = true;
    c.probe("limit not reached");
    return false;
  }
  c.nontrivial = true;
  const Ev &e = q.ev[(size_t)x];
  double t = (double)e.tick * (double)ns * 1e-9, t1 = (double)tick_of_announce(q, 1) * (double)ns * 1e-9;
  if (t < N - 1e-6) return fail(v, "early", fstr("limit %g s, ended after %.6f s", N, t));
  if (t > N + std::min(t, t1) + 0.02)
    return fail(v, "late", fstr("limit %g s, struck after %.6f s (first epoch began at %.6f s)", N, t, t1));
  if (q.outcome != O_EXIT) return fail(v, "abnormal", "the time limit ended the run with " + how(q));
  if (q.ticks > e.tick + 4000)
    return fail(v, "goes-on", fstr("%llu blocks executed after the time limit struck", (unsigned long long)(q.ticks - e.tick)));
  bool claim = claims(q);
  if (q.code == 0 || claim) return fail(v, "claims", "a run ended by its time limit claims success: " + how(q));
  std::string said = q.out + q.err;
  std::string tailtxt = q.out.substr(out_at(q, (size_t)x)) + q.err;
  if (tailtxt.empty()) return fail(v, "silent", "the time limit ended the run without a word");
  for (auto n : {"r.alpha", "r.pg"}) {
    std::string was = p.files.count(n) ? p.files[n] : "";
    if (get(r, n) != was) return fail(v, "touched", std::string(n) + " was changed by a run that ended at its time limit");
  }
  int a = epoch_at(q, (size_t)x);
  std::string w;
  int k = recoverable(r, p, f, &w);
  if (a >= 2 && k < a - 1)
    return fail(v, "lost", fstr("time limit in epoch %d, newest value function left on disk is that of epoch %d", a, k));
  if (!inputs_intact(r, p, &why)) return fail(v, "input", why + " changed");
  c.probe(a == 0 ? "before the first epoch" : a == 1 ? "in the first epoch" : "in a later epoch");
  return false;
}
// ---------------------------------------------------------------- P06 crash
void gen_P06(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 2, 5);
  vary(r, s, false);
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  uint64_t e1 = tick_of_announce(b, 1), en = tick_of_announce(b, epochs_of(b.out));
  spread(r, s, b, A_CRASH, 1, out, 0, e1);
  spread(r, s, b, A_CRASH, 6, out, e1, b.ticks);
  spread(r, s, b, A_CRASH, 2, out, en, b.ticks);
  std::vector<uint64_t> ops;
  for (auto &e : b.ev)
    if (e.op == OP_OPEN || e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME || e.op == OP_UNLINK) ops.push_back(e.n);
  for (int i = 0; i < 6 && !ops.empty(); i++) {
    Scenario t = s;
    Fault f;
    f.act = A_CRASH;
    f.n = r.pick(ops);
    if (r.chance(1, 2)) f.trig = 'o';
    else {
      f.trig = 't';
      f.d = r.below(3);
    }
    t.faults = {f};
    out.push_back(t);
  }
}
// no result file may ever be seen half written
static bool torn_results(const RunResult &r, const Plan &p, const Ref &f, const RunResult &done, std::string *why) {
  for (auto &d : r.disk) {
    const std::string &n = d.first;
    if (n.compare(0, 2, "r.") || (n.size() > 4 && !n.compare(n.size() - 4, 4, ".tmp"))) continue;
    auto in = p.files.find(n);
    if (in != p.files.end() && in->second == d.second) continue;
    auto b = done.disk.find(n), g = f.r->disk.find(n);
    if (b != done.disk.end() && b->second == d.second) continue;
    if (g != f.r->disk.end() && g->second == d.second) continue;
    if (n == "r.prev.alpha") {
      bool ok = false;
      for (auto &t : f.text) ok = ok || t == d.second;
      if (ok) continue;
    }
    *why = n + fstr(" is neither what it was nor what the run writes (%zu bytes)", d.second.size());
    return true;
  }
  for (auto &d : p.files)
    if (!r.disk.count(d.first)) {
      *why = d.first + " has disappeared";
      return true;
    }
  return false;
}
bool chk_P06(const Scenario &s, Ctx &c, Violation &v) {
  Ref f = ref_of(s, c);
  Plan p = fplan(s);
  const RunResult &B = c.base(fplan(s, {}, false));
  NEED(solved(B.p[0]), "base fails");
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why, w;
  if (q.outcome != O_CRASH) {
    if (diff_disk(B.disk, r.disk, &why)) return fail(v, "no-crash", why);
    return false;
  }
  c.nontrivial = true;
  int a = epochs_of(q.out);
  int k = recoverable(r, p, f, &w);
  bool done = claims(q);
  if (a >= 2 && k < a - 1)
    return fail(v, "lost", fstr("killed in epoch %d: the newest complete value function on disk is that of epoch %d", a, k));
  if (torn_results(r, p, f, B, &why)) return fail(v, "torn", fstr("killed in epoch %d: ", a) + why);
  if (done) {
    for (auto n : {"r.alpha", "r.pg"})
      if (get(r, n) != get(B, n))
        return fail(v, "claimed", std::string("killed after the solution was announced, but ") + n + " is not there");
    c.probe("after the announcement");
  }
  bool fa = get(r, "r.alpha") == get(B, "r.alpha"),
       end = epoch_lines(q.out).size() == (size_t)f.K && !epoch_lines(q.out).empty() && epoch_lines(q.out).back().done;
  if (fa || end) c.probe("while the solution was written");
  if (k) c.probe("an epoch could be recovered");
  if (s.i("old") && a) c.probe("with an earlier solution in place");
  return false;
}
// ---------------------------------------------------------------- P07 restart
void gen_P07(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 3, 5, CF_EXACT);
  if (r.chance(1, 12)) { // numbers of two digits
    s.set("m.S", 2l);
    s.set("m.A", (long)r.range(10, 13));
    s.set("m.O", (long)r.range(1, 2));
    s.set("h", (long)r.range(3, 4));
    if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
  }
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  uint64_t e1 = tick_of_announce(b, 1), e2 = tick_of_announce(b, 2);
  for (int i = 0; i < 5; i++) {
    Scenario t = s;
    t.set("cycle", (long)r.below(1u << 20));
    t.set("crashes", r.range(1, 3));
    if (r.chance(1, 3)) t.set("how", "sigint");
    else if (r.chance(1, 4)) {
      t.set("how", "vtalrm");
      if (r.chance(2, 3)) t.set("o.time_limit", 100000);
    }
    t.faults = {rand_async(r, b,
                           t.s("how") == "sigint"   ? A_SIGINT
                           : t.s("how") == "vtalrm" ? A_VTALRM
                                                    : A_CRASH,
                           r.chance(1, 5) ? e1 : e2, b.ticks)};
    out.push_back(t);
  }
}
bool chk_P07(const Scenario &s, Ctx &c, Violation &v) {
  Ref f = ref_of(s, c);
  const int Hz = (int)s.i("h");
  NEED(f.K == Hz, "stops before its horizon");
  Rng r(mix2(s.u("cycle"), 3));
  Plan p = fplan(s);
  std::map<std::string, std::string> disk = p.files;
  int donek = 0, left = (int)s.i("crashes", 1);
  std::string from;
  ASet start = zero_terminal(f.m);
  for (int round = 0; round < 6; round++) {
    Scenario t = s;
    t.faults.clear();
    t.set("h", Hz - donek);
    if (round) {
      t.set("p.pid", (long)(r.chance(1, 2) ? s.i("p.pid", 4242) : r.range(2, 60000)));
      t.set("p.heap", (long)r.below(100000) + 1);
    }
    Strs more;
    if (!from.empty()) more = {"-terminal_values", from};
    Plan q = plan_of(t, more);
    q.files = disk;
    if (round == 0) q.faults = s.faults;
    else if (left > 0) {
      RunResult x = c.run(q);
      NEED(x.p[0].outcome != O_HANG, "too large");
      if (solved(x.p[0])) q.faults = {rand_async(r, x.p[0], A_CRASH, tick_of_announce(x.p[0], 1), x.p[0].ticks)};
    }
    left--;
    RunResult x = c.run(q);
    const ProcResult &z = x.p[0];
    NEED(z.outcome != O_HANG, "too large");
    int a = epochs_of(z.out);
    if (round) c.nontrivial = true;
    if (!from.empty()) c.probe("restarted from a recovered value function");
    if (round >= 2) c.probe("more than one restart");
    // which epochs of the whole does the directory hold now?
    std::string best;
    int bk = donek;
    Rng rb(5);
    auto consider = [&](const std::string &n, const std::string &txt) {
      ASet al;
      if (!parse_alpha(txt, f.m.S, f.m.A, al, nullptr)) return;
      for (int k = f.K; k > bk; k--)
        if (same_values(al, f.sets[k], f.m.S, 1e-6 * vscale(f.sets[k]), rb, nullptr)) {
          bk = k;
          best = n;
          return;
        }
    };
    if (solved(z) && donek + a >= Hz) {
      ASet al;
      std::string why;
      if (!alpha_of(x, "r.alpha", f.m, al, &why)) return fail(v, "final", why);
      if (!same_values(al, f.sets[f.K], f.m.S, 2e-6 * vscale(f.sets[f.K]), rb, &why))
        return fail(v, "differs",
                    fstr("restarted %d time(s), the last from epoch %d: the final value function differs from that of the "
                         "uninterrupted run: ",
                         round, donek) +
                        why);
      if (round) {
        std::string pw =
            pgcheck(f.m, al, Hz - donek == 1 ? start : al, get(x, "r.pg"), Hz - donek == 1 ? 1e-6 * vscale(al) : INFINITY);
        if (Hz - donek == 1 && !pw.empty()) return fail(v, "graph", "the restarted run's policy graph: " + pw);
      }
      return false;
    }
    for (auto &d : x.disk) {
      auto in = p.files.find(d.first);
      if (in != p.files.end() && in->second == d.second) continue;
      consider(d.first, d.second);
    }
    if (a >= 2 && bk < donek + a - 1)
      return fail(v, "lost",
                  fstr("round %d stopped in its epoch %d (from epoch %d), newest recoverable epoch is %d", round, a, donek, bk));
    disk = x.disk;
    if (best.empty()) {
      if (donek == 0) from.clear();
    } else {
      if (bk == Hz) return false;
      from = best;
      donek = bk;
      parse_alpha(disk[best], f.m.S, f.m.A, start, nullptr);
      if (best.compare(0, 2, "r.") || r.chance(1, 2)) {
        disk["saved.alpha"] = disk[best];
        from = "saved.alpha";
      }
    }
    if (!from.empty() && !disk.count(from)) return fail(v, "lost", from + " disappeared");
  }
  return false;
}
// ---------------------------------------------------------------- P08 failing writes
static std::vector<Fault> write_faults(Rng &r, const ProcResult &b, int n, bool late) {
  std::vector<Fault> o;
  std::vector<const Ev *> ev;
  size_t lastn = b.ev.empty() ? 0 : b.ev.back().n;
  for (auto &e : b.ev)
    if (((e.op == OP_OPEN && (e.a & 2)) || e.op == OP_WRITE || (e.op == OP_CLOSE && e.a) || e.op == OP_RENAME ||
         e.op == OP_UNLINK) &&
        (!late || e.n + 16 > lastn))
      ev.push_back(&e);
  static const int EN[] = {5, 28, 122, 27, 4};
  while (n-- > 0 && !ev.empty()) {
    const Ev *e = r.pick(ev);
    Fault f;
    f.trig = 'o';
    f.n = e->n;
    int err = EN[r.below(5)];
    if (r.chance(1, 7)) {
      f.act = A_DISK_FULL;
      f.arg = (int64_t)(r.chance(1, 2) ? 0 : r.below(600));
      if (r.chance(1, 2)) f = rand_async(r, b, A_DISK_FULL, 0, b.ticks, f.arg);
    } else if (e->op == OP_OPEN) {
      f.act = A_OPEN_FAIL;
      static const int E[] = {13, 30, 24, 28, 2};
      f.arg = E[r.below(5)];
    } else if (e->op == OP_WRITE) {
      f.act = r.chance(1, 4) ? A_WRITE_SHORT : A_WRITE_ERR;
      f.arg = (int64_t)r.below(4000) * 256 + (f.act == A_WRITE_ERR ? err : 0);
    } else if (e->op == OP_CLOSE) {
      f.act = A_CLOSE_ERR;
      f.arg = err;
    } else if (e->op == OP_RENAME) {
      f.act = A_RENAME_FAIL;
      f.arg = r.chance(1, 2) ? 13 : 28;
    } else {
      f.act = A_UNLINK_FAIL;
      f.arg = 13;
    }
    o.push_back(f);
  }
  return o;
}
void gen_P08(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  if (r.chance(1, 6)) {
    do small(r, s, 1, 3, CF_EXACT | CF_GRID);
    while (s.s("o.method") != "grid");
    s.set("o.fg_save", "true");
  } else small(r, s, 1, 4);
  vary(r, s, false);
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  for (int i = 0; i < 10; i++) {
    Scenario t = s;
    t.faults = write_faults(r, b, i < 6 ? 1 : r.range(1, 3), i % 3 == 0);
    if (i == 8) {
      t.faults.clear();
      t.set("cap", (long)(1 + r.below(3000)));
    }
    if (i == 9) {
      Fault f;
      f.act = A_STDOUT_ERR;
      f.trig = 't';
      f.n = r.below(b.out.size() + 1);
      f.arg = r.chance(1, 2) ? 32 : 28;
      t.faults = {f};
      if (r.chance(1, 2)) t.set("p.so", (long)r.below(3));
    }
    out.push_back(t);
  }
}
bool chk_P08(const Scenario &s, Ctx &c, Violation &v) {
  Ref f = ref_of(s, c);
  Scenario s0 = s;
  s0.kv.erase("cap");
  Plan p = fplan(s);
  p.phases[0].procs[0].snap = true;
  const RunResult &B = c.base(fplan(s0, {}, false));
  NEED(solved(B.p[0]), "base fails");
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why;
  bool hit = s.has("cap");
  for (int x : r.fired) hit = hit || x;
  c.nontrivial = hit;
  bool noout = false;
  for (auto &x : s.faults) noout = noout || x.act == A_STDOUT_ERR;
  if (q.outcome != O_EXIT) return fail(v, "abnormal", "a failing write ended the run with " + how(q));
  if (!noout && solved(q) != claims(q)) return fail(v, "mixed", "exit status and announcement disagree: " + how(q));
  if (q.out.find("Grid saved to r.belief") != std::string::npos) {
    if (get(r, "r.belief") != get(B, "r.belief")) return fail(v, "grid", "the grid is said to be saved, but r.belief is not the grid");
    c.probe("grid saved");
  } else if (B.disk.count("r.belief")) c.probe("grid not saved");
  bool fa = get(r, "r.alpha") == get(B, "r.alpha"), fp = get(r, "r.pg") == get(B, "r.pg");
  if (solved(q)) {
    if (!fa) return fail(v, "claimed", "success is claimed, but r.alpha is not the solution");
    if (!fp) return fail(v, "claimed", "success is claimed, but r.pg is not the policy graph");
    c.probe("succeeded in spite of the fault");
    if (s.i("o.save_all") || s.s("o.save_all") == "true") {
      for (auto &d : B.disk)
        if (get(r, d.first) != d.second) {
          if (q.err.empty()) return fail(v, "silent", d.first + " was not written, and nothing was said");
        }
    }
    return false;
  }
  c.probe("failed");
  if (q.err.empty()) return fail(v, "silent", "the run failed without a message: " + how(q));
  if (torn_results(r, p, f, B, &why)) return fail(v, "torn", "after a failed write " + why);
  // faults that never touched the results must not keep the run from succeeding
  bool onres = false, full = s.has("cap");
  for (size_t i = 0; i < q.ev.size(); i++) {
    const Ev &e = q.ev[i];
    if ((e.op == OP_OPEN || e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME) && e.res < 0 &&
        (!strncmp(e.path, "r.alpha", 7) || !strncmp(e.path, "r.pg", 4) || !strncmp(e.path, "r.prev", 6)))
      onres = true;
    if (e.op == OP_FAULT && e.inode == A_DISK_FULL) full = true;
  }
  if (!onres && !full && !noout) return fail(v, "gave-up", "nothing failed on the result files, but the run gave up: " + how(q));
  int done = 0;
  for (auto &l : epoch_lines(q.out))
    if (l.done) done = l.k; // an epoch's value function that was stored stays available
  int k = recoverable(r, p, f), kept = 0;
  for (size_t i = 0; i < q.ev.size(); i++) {
    const Ev &e = q.ev[i];
    if ((e.op != OP_RENAME && e.op != OP_CLOSE) || e.res != 0 || q.snaps[i].empty()) continue;
    int is = 0;
    for (int j = 1; j <= f.K; j++)
      if (q.snaps[i] == f.text[(size_t)j]) is = j;
    if (!is) continue;
    int at = epoch_at(q, i);
    bool gone = false;
    for (size_t j = i + 1; j < q.ev.size() && epoch_at(q, j) == at; j++)
      if ((q.ev[j].op == OP_RENAME || q.ev[j].op == OP_UNLINK) && q.ev[j].inode == e.inode) gone = true;
    if (!gone || e.op == OP_RENAME) kept = std::max(kept, is);
  }
  if (kept >= 1 && k < kept) return fail(v, "lost", fstr("epoch %d had been stored, but only epoch %d is left", kept, k));
  if (done == f.K && epochs_of(q.out) == f.K && !full && k < f.K) {
    bool bakfail = false;
    for (auto &e : q.ev)
      if (e.res < 0 && (e.op == OP_OPEN || e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME) && strncmp(e.path, "r.", 2))
        bakfail = true;
    if (!bakfail) return fail(v, "lost", fstr("all %d epochs were finished and stored, but only epoch %d is left", f.K, k));
  }
  return false;
}
// ---------------------------------------------------------------- P10 memory
void gen_P10(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 1, 4, CF_EXACT | CF_GRID | CF_FASTPURGE | CF_STATS);
  vary(r, s, false);
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  uint64_t a0 = 0, a1 = b.allocs; // allocations before the model is read, and before the first epoch
  size_t pos = announce_pos(b.out, 1);
  for (auto &e : b.ev) {
    if (e.op == OP_READ && !a0) a0 = e.allocs;
    if (e.op == OP_OUT && pos != std::string::npos && e.a + (uint64_t)e.res > pos) {
      a1 = e.allocs;
      break;
    }
  }
  for (int i = 0; i < 9; i++) {
    Scenario t = s;
    Fault f;
    f.trig = 'a';
    f.act = r.chance(1, 3) ? A_ALLOC_FAIL_FROM : A_ALLOC_FAIL;
    f.n = i == 0 ? 1 + r.below(a0 + 20) : i < 3 ? 1 + r.below(a1 + 1) : a1 + 1 + r.below(b.allocs - a1 + 1);
    if (i == 8) f.n = b.allocs - r.below(std::min<uint64_t>(b.allocs, 60));
    t.faults = {f};
    out.push_back(t);
  }
}
bool chk_P10(const Scenario &s, Ctx &c, Violation &v) {
  Ref f = ref_of(s, c);
  Plan p = fplan(s);
  const RunResult &B = c.base(fplan(s, {}, false));
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why;
  bool hit = false;
  for (int x : r.fired) hit = hit || x;
  c.nontrivial = hit;
  NEED(q.outcome != O_HANG, "too large");
  if (q.outcome != O_EXIT) return fail(v, "abnormal", "running out of memory ended the run with " + how(q));
  if (!q.heap_msg.empty()) return fail(v, "heap", "after running out of memory: " + q.heap_msg);
  if (solved(q)) {
    if (diff_disk(B.disk, r.disk, &why)) return fail(v, "claimed", "an allocation failed, the run claims success, but " + why);
    c.probe("succeeded all the same");
    return false;
  }
  if (!hit) return fail(v, "no-fault", how(q));
  if (claims(q)) return fail(v, "claims", "solution announced, yet " + how(q));
  if (q.err.empty()) return fail(v, "silent", "ran out of memory without a message");
  if (torn_results(r, p, f, B, &why)) return fail(v, "torn", "after running out of memory " + why);
  int a = epochs_of(q.out), k = recoverable(r, p, f);
  if (a >= 2 && k < a - 1)
    return fail(v, "lost", fstr("out of memory in epoch %d: newest value function on disk is that of epoch %d", a, k));
  if (q.ticks > B.p[0].ticks + 20000) return fail(v, "goes-on", "the run went on for long after it ran out of memory");
  c.probe(a == 0 ? "while reading the model" : a == 1 ? "in the first epoch" : "in a later epoch");
  return false;
}
// ---------------------------------------------------------------- P09 damaged or unreadable input
static int o_end(const std::string &t) { // where the last transition or observation number of a plainly written model ends
  size_t p = t.rfind("\nO: ");
  if (p == std::string::npos) return -1;
  size_t e = t.find('\n', p + 1);
  return e == std::string::npos ? -1 : (int)e;
}
// damage after which a file is certainly no longer a valid model (0: none of that kind is possible here)
static const int NBAD = 29;
static bool make_bad(int kind, uint64_t seed, const Model &m0, uint64_t style, std::string &text) {
  Model m = m0;
  Rng r(mix2(seed, 4711));
  int a = (int)r.below((uint64_t)m.A), i = (int)r.below((uint64_t)m.S), j = (int)r.below((uint64_t)m.S),
      o = (int)r.below((uint64_t)m.O);
  static const double D[] = {0.0003, 0.01, 0.05, 0.25, 1};
  double d = D[r.below(5)];
  auto low = [&](Vec &v) {
    size_t b = 0;
    for (size_t k = 1; k < v.size(); k++)
      if (v[k] > v[b]) b = k;
    v[b] = std::max(0.0, v[b] - d);
  };
  auto tail = [&](const std::string &x) {
    text = render(m, style);
    text += x;
  };
  switch (kind) {
    case 0: // a transition row sums to less than one
      low(m.T[a][i]);
      break;
    case 1: // ... to more
      m.T[a][i][j] = m.T[a][i][j] + d > 1 ? 1 : m.T[a][i][j] + d;
      {
        double q = 0;
        for (double x : m.T[a][i]) q += x;
        if (q < 1.00025) return false;
      }
      break;
    case 2:
      low(m.Z[a][i]);
      break;
    case 3:
      m.Z[a][i][o] = m.Z[a][i][o] + d > 1 ? 1 : m.Z[a][i][o] + d;
      {
        double q = 0;
        for (double x : m.Z[a][i]) q += x;
        if (q < 1.00025) return false;
      }
      break;
    case 4: // the initial belief
      if (m.start.empty() || m.S < 2) return false;
      low(m.start);
      break;
    case 5: // nothing is said about an action
      m.T[a].assign((size_t)m.S, Vec((size_t)m.S, 0.0));
      style = 0;
      break;
    case 6:
      m.Z[a].assign((size_t)m.S, Vec((size_t)m.O, 0.0));
      style = 0;
      break;
    case 7: // a negative probability in a row that sums to one
      if (m.S < 2) return false;
      m.T[a][i].assign((size_t)m.S, 0.0);
      m.T[a][i][j] = -0.25;
      m.T[a][i][(j + 1) % m.S] = 1.25;
      break;
    case 8:
      if (m.O < 2) return false;
      m.Z[a][i].assign((size_t)m.O, 0.0);
      m.Z[a][i][o] = -0.5;
      m.Z[a][i][(o + 1) % m.O] = 1.5;
      break;
    case 9:
      m.disc = r.chance(1, 2) ? 1.0 + d : -d;
      break;
    case 10:
      tail("T: 0 : " + std::to_string(m.S) + " : 0 0.0\n");
      return true;
    case 11:
      tail("O: " + std::to_string(m.A + (int)r.below(3)) + " : * : 0 0.0\n");
      return true;
    case 12:
      tail("R: * : * : * : nosuchobservation 1.0\n");
      return true;
    case 13:
      tail("R: * : * : * : " + std::to_string(m.O) + " 1.0\n");
      return true;
    case 14: { // a number is missing from a full row
      text = render(m, 0);
      size_t p = text.rfind("\nO: ");
      size_t e = p == std::string::npos ? p : text.find('\n', p + 1);
      if (e == std::string::npos || m.O < 2) return false;
      size_t b = e;
      while (b > p && text[b - 1] == ' ') b--;
      while (b > p && text[b - 1] != ' ') b--;
      text.erase(b, e - b);
      return true;
    }
    case 15: { // a part of the preamble is missing
      text = render(m, 0);
      static const char *K[] = {"discount:", "values:", "states:", "actions:"};
      size_t p = text.find(K[r.below(4)]), e = p == std::string::npos ? p : text.find('\n', p);
      if (e == std::string::npos) return false;
      text.erase(p, e - p + 1);
      return true;
    }
    case 16: // an unknown keyword where a specification should begin
      tail("X: 0 : 0 : 0 1.0\n");
      return true;
    case 17:
    case 18:
    case 19:
    case 20: { // a start belief that cannot be
      m.start.clear();
      text = render(m, 0);
      size_t p = text.find("\nT:");
      if (p == std::string::npos) return false;
      std::string x = "start exclude:";
      for (int k = 0; k < m.S; k++) x += " " + std::to_string(k);
      if (kind == 18) x = "start include: " + std::to_string(m.S + (int)r.below(3));
      if (kind == 19) x = r.chance(1, 2) ? "start: reset" : "start: nosuchstate";
      if (kind == 20) {
        x = "start:";
        int n = r.chance(1, 2) ? m.S + 1 : m.S - 1;
        for (int k = 0; k < n; k++) x += k == 0 ? " 1.0" : " 0.0";
        if (n == 0) x += " 0.5";
      }
      text.insert(p, "\n" + x);
      return true;
    }
    case 21: // too many numbers
      tail("T: 0 : 0");
      for (int k = 0; k <= m.S; k++) text += k ? " 0" : " 1";
      text += "\n";
      for (int k = 0; k < m.S; k++) text += "T: 0 : 0 : " + std::to_string(k) + " " + (k ? "0.0" : "1.0") + "\n";
      return true;
    case 22: // no probability, even if put right later
      tail("");
      text.insert(text.size(), "O: 0 : 0 : 0 2\nO: 0 : 0");
      for (int k = 0; k < m.O; k++) text += k ? " 0" : " 1";
      text += "\n";
      return true;
    case 23: // forms that do not fit
      tail(r.chance(1, 2) ? "O: 0 : 0 reset\n" : r.chance(1, 2) ? "O: 0 identity\n" : "T: 0 : 0 identity\n");
      return true;
    case 24: { // a name twice
      text = render(m, 0);
      size_t p = text.find("actions:"), e = text.find('\n', p);
      if (p == std::string::npos) return false;
      std::string x = "actions: go";
      for (int k = 1; k < m.A; k++) x += " n" + std::to_string(k);
      text.replace(p, e - p, x + (r.chance(1, 2) && m.A > 1 ? " n1" : " go"));
      return true;
    }
    case 26: { // a number too large to be represented
      static const char *H[] = {"1e309", "-1e400", "4.5E+999", "1.8e308"};
      std::string x = r.chance(1, 5) ? "7" + std::string((size_t)r.range(308, 330), '0') + ".5" : H[r.below(4)];
      int w = r.chance(3, 4) ? 0 : 1 + (int)r.below(2);
      tail(w == 0   ? fstr("R: %d : %d : * : * ", a, i) + x + "\n"
           : w == 1 ? fstr("T: %d : %d : %d ", a, i, j) + x + "\n"
                    : fstr("O: %d : %d : %d ", a, i, o) + x + "\n");
      return true;
    }
    case 27: { // whole numbers too large for one
      int w = (int)r.below(5);
      const unsigned long long W = 4294967296ull * (1 + r.below(3));
      if (w < 3) {
        static const char *K[] = {"states: ", "actions: ", "observations: "};
        text = render(m, 0);
        size_t p = text.find(K[w]), e = p == std::string::npos ? p : text.find('\n', p);
        if (e == std::string::npos) return false;
        text.replace(p, e - p, K[w] + std::to_string(W + (unsigned long long)(w == 0 ? m.S : w == 1 ? m.A : m.O)));
      } else if (w == 3) tail(fstr("T: %llu : %d : %d %.17g\n", W + (unsigned long long)a, i, j, m.T[a][i][j]));
      else tail(fstr("R: %d : %d : * : %llu 1.0\n", a, i, W + (unsigned long long)o));
      return true;
    }
    case 28: { // a completely observable model
      std::string h = fstr("discount: %.17g\nvalues: reward\nstates: %d\nactions: %d\n", m.disc, m.S, m.A), e;
      static const char *ST[] = {"", "start: 0\n", "start: 0.5 0.5\n", "start: uniform\n", "start include: 0\n", "start exclude: 0\n", "start: 1.0\n"};
      h += ST[r.below(7)];
      for (int x = 0; x < m.A; x++)
        for (int y = 0; y < m.S; y++)
          for (int z = 0; z < m.S; z++)
            if (m.T[x][y][z]) e += fstr("T: %d : %d : %d %.17g\n", x, y, z, m.T[x][y][z]);
      int w = (int)r.below(4), n = w == 0 ? 1 : w == 1 ? m.S : w == 2 ? m.S * m.S : m.S * m.S + 1;
      e += w == 0 ? fstr("R: %d : %d : %d", a, i, j) : w == 1 ? fstr("R: %d : %d", a, i) : r.chance(1, 2) ? fstr("R: %d", a) : std::string("R: *");
      for (int k = 0; k < n; k++) e += fstr(" %d", (int)r.range(-9, 9));
      text = h + e + "\n";
      return true;
    }
    default: // numbers missing at the end of a matrix or a reward row
      tail("");
      if (r.chance(1, 2) && m.S > 1) {
        text += "T: 0\n";
        for (int k = 0; k < m.S * m.S - 1; k++) text += (k % (m.S + 1)) ? " 0" : " 1";
        text += "\n";
        for (int k = 0; k < m.S; k++) text += "T: 0 : " + std::to_string(k) + " uniform\n";
      } else {
        if (m.O < 2) return false;
        text += "R: 0 : 0 : 0";
        for (int k = 0; k < m.O - 1; k++) text += " 1.0";
        text += "\n";
      }
      return true;
  }
  text = render(m, style);
  return true;
}
void gen_P09(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 1, 3);
  s.kv.erase("o.save_penultimate");
  if (r.chance(1, 2)) s.set("term", 1);
  Model m = model_of(s);
  std::string text = render(m, s.u("style"));
  Scenario t = s;
  Plan pb = fplan(t, {}, false);
  (void)pb;
  for (int i = 0; i < 10; i++) {
    Scenario t2 = s;
    int k = (int)r.below(6);
    if (k == 0) {
      t2.set("style", 0);
      std::string tx = render(m, 0);
      t2.set("x.cut", (long)r.below(tx.size()));
    } else if (k == 1) {
      t2.set("x.cut", (long)r.below(text.size()));
    } else if (k == 2) {
      t2.set("x.flip", (long)r.below(text.size()));
      t2.set("x.byte", (long)(r.chance(1, 2) ? r.below(256) : (uint64_t) "09.:-*\n #aRTO"[r.below(13)]));
      if (r.chance(1, 4)) { t2.set("x.flip2", (long)r.below(text.size())); }
    } else if (k == 3) {
      t2.set("term", 1);
      if (r.chance(1, 2)) t2.set("x.tcut", (long)r.below(200));
      else t2.set("x.tbad", (long)r.below(11));
    } else if (r.chance(1, 2)) {
      std::string x;
      int b = (int)r.below(NBAD);
      uint64_t bs = r.below(1u << 20);
      if (!make_bad(b, bs, m, s.u("style"), x)) continue;
      t2.set("x.bad", b);
      t2.set("x.badseed", (long)bs);
    } else {
      Fault f;
      f.trig = 'o';
      int w = (int)r.below(3);
      f.act = w == 0 ? A_READ_ERR : w == 1 ? A_READ_SHORT : A_OPEN_FAIL;
      f.n = 1 + r.below(s.has("term") ? 14 : 8);
      f.arg = w == 1 ? (int64_t)r.below(2000) : w == 0 ? 5 : 13;
      t2.faults = {f};
      if (r.chance(1, 4)) {
        f.n = 1 + r.below(14);
        f.act = A_READ_SHORT;
        f.arg = (int64_t)r.below(2000);
        t2.faults.push_back(f);
      }
    }
    out.push_back(t2);
  }
}
bool chk_P09(const Scenario &s, Ctx &c, Violation &v) {
  Model m = model_of(s);
  Plan p = fplan(s);
  std::string text = p.files["m.pomdp"], tv;
  bool damaged = false, must = false;
  if (s.has("term")) {
    Rng r(mix2(s.u("m.seed"), 17));
    ASet a;
    int n = r.range(1, 3);
    for (int i = 0; i < n; i++) {
      Alpha x;
      x.a = (int)r.below((uint64_t)m.A);
      for (int k = 0; k < m.S; k++) x.v.push_back(r.range(-9, 9) + 0.5);
      a.push_back(x);
    }
    tv = write_alpha(a);
  }
  Scenario s0 = s;
  s0.kv.erase("term");
  Plan clean = fplan(s, {}, false);
  auto fin = [&](Plan &q, const std::string &tx, const std::string &t) {
    q.files["m.pomdp"] = tx;
    if (s.has("term")) {
      q.files["term.alpha"] = t;
      q.phases[0].procs[0].args.push_back("-terminal_values");
      q.phases[0].procs[0].args.push_back("term.alpha");
    }
  };
  fin(clean, text, tv);
  std::string tx = text, t2 = tv;
  if (s.has("x.cut")) {
    size_t k = s.u("x.cut");
    if (k < tx.size()) {
      int oe = s.i("style") == 0 ? o_end(tx) : -1;
      must = oe > 0 && (int)k < oe - 8;
      tx.resize(k);
      damaged = true;
    }
  }
  if (s.has("x.flip")) {
    size_t k = s.u("x.flip");
    if (k < tx.size()) {
      tx[k] = (char)s.i("x.byte");
      damaged = true;
    }
    k = s.u("x.flip2");
    if (s.has("x.flip2") && k < tx.size()) tx[k] = (char)s.i("x.byte");
  }
  if (s.has("x.bad")) {
    NEED(make_bad((int)s.i("x.bad"), s.u("x.badseed"), m, s.u("style"), tx), "not possible here");
    damaged = must = true;
  }
  if (s.has("x.tcut") && s.has("term")) {
    size_t k = s.u("x.tcut");
    if (k < t2.size()) {
      t2.resize(k);
      ASet a;
      damaged = true;
      std::string why;
      if (!parse_alpha(t2, m.S, m.A, a, &why) && why != "last line incomplete") must = true;
    }
  }
  if (s.has("x.tbad") && s.has("term")) {
    int k = (int)s.i("x.tbad");
    std::string good;
    for (int i = 0; i < m.S; i++) good += "1.5 ";
    if (k == 0) t2 += "0\n" + good + "\n\n*\n" + good + "\n\n";
    if (k == 1) t2 = "0 0 " + good + "-\n" + t2;
    if (k == 2) t2 += "0\n" + good.substr(4) + "\n\n";
    if (k == 3) t2 += "0\n" + good.substr(4) + "x1.5\n\n";
    if (k == 4) t2 += "zero\n" + good + "\n\n";
    if (k == 5) t2 = "nothing\n";
    if (k == 6) t2 += "7";
    static const char *H[] = {"nan", "-inf", "1e400", "infinity"};
    if (k >= 7) t2 += "0\n" + std::string(H[k % 4]) + " " + good.substr(4) + "\n\n"; // no number to compute with
    damaged = must = true;
  }
  fin(p, tx, t2);
  const RunResult &B = c.base(clean);
  NEED(solved(B.p[0]), "base fails");
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why;
  NEED(!(damaged && q.outcome == O_HANG), "too large");
  bool hit = damaged, err = false;
  for (size_t i = 0; i < r.fired.size(); i++)
    if (r.fired[i]) {
      hit = true;
      if (s.faults[i].act != A_READ_SHORT) err = true;
    }
  c.nontrivial = hit;
  if (q.outcome != O_EXIT) return fail(v, "abnormal", "unreadable or damaged input ended the run with " + how(q));
  if (!q.heap_msg.empty()) return fail(v, "heap", "on unreadable or damaged input: " + q.heap_msg);
  bool inerr = false;
  for (auto &e : q.ev)
    if (((e.op == OP_OPEN && !(e.a & 2)) || e.op == OP_READ) && e.res < 0) inerr = true;
  bool dflt = false;
  if (solved(q) && s.has("term") &&
      q.err.find("term.alpha") !=
          std::string::npos) { // the documented answer to terminal values that cannot be used: say so, and start from the default
    const RunResult &D = c.base(fplan(s0, {}, false));
    dflt = solved(D.p[0]) && get(D, "r.alpha") == get(r, "r.alpha") && get(D, "r.pg") == get(r, "r.pg");
    if (dflt) {
      c.probe("default terminal values, with a warning");
      if (!hit) return fail(v, "no-fault", how(q));
      if (!damaged && !err) return fail(v, "short-reads", "terminal values delivered in pieces are refused");
      return false;
    }
  }
  if (solved(q)) {
    if (must)
      return fail(v, "accepted",
                  s.has("x.bad") ? fstr("an invalid model was accepted (kind %ld)", s.i("x.bad"))
                                 : std::string("an incomplete input file was accepted"));
    if (inerr) return fail(v, "accepted", "an input file that could not be read completely was accepted");
    if (!damaged && !err && diff_disk(B.disk, r.disk, &why))
      return fail(v, "short-reads", "input delivered in pieces gives another result: " + why);
    ASet a;
    if (!damaged) {
      if (!alpha_of(r, "r.alpha", m, a, &why)) return fail(v, "result", why);
    }
    c.probe(damaged ? "damaged but valid" : "read in pieces");
    return false;
  }
  if (!hit) return fail(v, "no-fault", how(q));
  if (!damaged && !err) return fail(v, "short-reads", "input delivered in pieces is refused: " + how(q));
  if (claims(q)) return fail(v, "claims", "solution announced, yet " + how(q));
  if (q.err.empty() && q.out.find("ERROR") == std::string::npos && q.out.find("rror") == std::string::npos)
    return fail(v, "silent", "input refused without a message: " + how(q));
  bool outerr = false;
  for (auto &e : q.ev)
    if (((e.op == OP_OPEN && (e.a & 2)) || e.op == OP_WRITE || e.op == OP_CLOSE || e.op == OP_RENAME) && e.res < 0) outerr = true;
  if (!outerr || epochs_of(q.out) == 0)
    for (auto n : {"r.alpha", "r.pg"}) {
      std::string was = p.files.count(n) ? p.files[n] : "";
      if (get(r, n) != was) return fail(v, "touched", std::string(n) + " was changed by a run that could not read its input");
    }
  c.probe(damaged ? "damaged input refused" : "read error reported");
  return false;
}
// ---------------------------------------------------------------- P11 determinism
static std::string norm_out(const std::string &o) { // the report without times and process ids
  std::string t;
  size_t p = 0;
  while (p < o.size()) {
    size_t e = o.find('\n', p);
    if (e == std::string::npos) e = o.size();
    std::string l = o.substr(p, e - p);
    p = e + 1;
    if (l.find("time =") != std::string::npos || l.find("secs") != std::string::npos) {
      size_t k = l.find(" vectors in "), q = l.find("(err=");
      if (k != std::string::npos) l = l.substr(0, k) + (q == std::string::npos ? "" : l.substr(q));
      else continue;
    }
    if (l.find("##") != std::string::npos || l.find("seed") != std::string::npos || l.find("PID=") != std::string::npos) continue;
    t += l + "\n";
  }
  return t;
}
void gen_P11(Rng &r, Ctx &, Fam &out) {
  Scenario s;
  small(r, s, 1, 5, CF_EXACT | CF_GRID | CF_FASTPURGE);
  vary(r, s, true);
  s.kv.erase("old");
  s.kv.erase("o.stat_summary");
  s.kv.erase("o.verbose");
  if (s.s("o.method") == "grid" && r.chance(1, 2)) {
    s.set("o.fg_type", "search");
    if (r.chance(1, 2)) s.set("o.fg_save", "true");
  }
  s.set("o.rand_seed", fstr("%ld:%ld:%ld", (long)r.below(65536), (long)r.below(65536), (long)r.below(65536)));
  if (r.chance(1, 2)) {
    s.set("o.alg_rand", (long)r.below(30));
    s.set("o.prune_rand", (long)r.below(30));
  }
  s.set("x.other", (long)r.below(1u << 30) + 1);
  if (r.chance(1, 3)) {
    static const char *V[] = {"context", "lp", "global", "timing", "stats", "cmdline", "main", "alpha", "proj", "crosssum", "agenda", "enum",
                              "twopass", "linsup", "witness", "incprune", "lpinterface", "vertexenum", "mdp", "pomdp", "param",
                              "parsimonious", "region", "approx_mcgs", "zlz_speedup", "finite_grid", "mcgs"};
    if (r.chance(2, 3)) s.set("x.verbose", std::string(V[r.below(sizeof V / sizeof *V)]));
    else s.set("x.stats", 1);
  }
  out.push_back(s);
}
bool chk_P11(const Scenario &s, Ctx &c, Violation &v) {
  Strs more = s.has("o.save_all") ? Strs{} : SAVEALL;
  Plan a = fplan(s, more, false);
  Scenario t = s;
  Rng r(s.u("x.other"));
  for (auto k : {"p.heap", "p.bufsz", "p.chunk", "p.norecycle", "p.so", "p.pid", "p.wall", "p.ns"}) t.kv.erase(k);
  {
    Scenario e;
    rand_env(r, e);
    e.kv.erase("p.salt");
    for (auto &k : e.kv) t.kv[k.first] = k.second;
  }
  if (s.has("p.salt")) t.set("p.salt", s.s("p.salt"));
  Plan b = fplan(t, more, false);
  b.faults = s.faults;
  RunResult x = c.run(a), y = c.run(b);
  NEED(x.p[0].outcome != O_HANG && x.p[0].err.find("Out of memory") == std::string::npos &&
           y.p[0].err.find("Out of memory") == std::string::npos,
       "too large");
  c.nontrivial = solved(x.p[0]);
  std::string why;
  if (x.p[0].outcome != y.p[0].outcome || x.p[0].code != y.p[0].code)
    return fail(v, "outcome", "the same run ends once with " + how(x.p[0]) + " and once with " + how(y.p[0]));
  if (diff_disk(x.disk, y.disk, &why)) return fail(v, "files", "same model, options and seed, but " + why);
  std::string p = norm_out(x.p[0].out), q = norm_out(y.p[0].out);
  if (p != q) {
    size_t i = 0;
    while (i < p.size() && i < q.size() && p[i] == q[i]) i++;
    size_t b0 = p.rfind('\n', i);
    b0 = b0 == std::string::npos ? 0 : b0 + 1;
    return fail(v, "report",
                "same model, options and seed, but the reports differ: \"" + p.substr(b0, 80) + "\" / \"" +
                    q.substr(std::min(b0, q.size()), 80) + "\"");
  }
  c.probe(("method " + s.s("o.method", "incprune")).c_str());
  if (s.has("o.alg_rand") || s.has("o.prune_rand")) c.probe("random points in use");
  if (s.has("x.verbose") || s.has("x.stats")) { // telling more changes nothing
    Strs tell = s.has("x.verbose") ? Strs{"-verbose", s.s("x.verbose")} : Strs{"-stat_summary", "true"};
    tell.insert(tell.end(), more.begin(), more.end());
    Plan d = fplan(t, tell, false);
    d.faults = s.faults;
    RunResult z = c.run(d);
    NEED(z.p[0].outcome != O_HANG && z.p[0].err.find("Out of memory") == std::string::npos, "too large");
    if (z.p[0].outcome != x.p[0].outcome || z.p[0].code != x.p[0].code)
      return fail(v, "told-outcome", tell[0] + " " + tell[1] + ": the run ends with " + how(z.p[0]) + " instead of " + how(x.p[0]));
    if (diff_disk(x.disk, z.disk, &why)) return fail(v, "told-files", "with " + tell[0] + " " + tell[1] + ", " + why);
    if (epochs_of(z.p[0].out) != epochs_of(x.p[0].out) && s.s("x.verbose") != "main" && z.p[0].out.size() < 200000)
      return fail(v, "told-epochs", fstr("with %s %s: %d epochs instead of %d", tell[0].c_str(), tell[1].c_str(), epochs_of(z.p[0].out), epochs_of(x.p[0].out)));
    c.probe("more diagnostics");
  }
  return false;
}
// ---------------------------------------------------------------- P12 clocks
void gen_P12(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 2, 4);
  vary(r, s, true);
  s.set("o.rand_seed", "1:2:3");
  const RunResult &B = c.base(fplan(s, {}, false));
  const ProcResult &b = B.p[0];
  NEED(solved(b), "base fails");
  for (int i = 0; i < 5; i++) {
    Scenario t = s;
    int n = r.range(1, 3);
    while (n--) {
      int k = (int)r.below(4);
      static const int64_t J[] = {-1, 1, -3600, 3600, -86400, 100000000, -2000000000, 2147483647};
      t.faults.push_back(k <= 1   ? rand_async(r, b, A_CLOCK_JUMP, 0, b.ticks, J[r.below(8)])
                         : k == 2 ? rand_async(r, b, A_STALL, 0, b.ticks, (int64_t)r.below(1000000))
                                  : rand_async(r, b, A_TIMES_FAIL, 0, b.ticks));
    }
    if (r.chance(1, 2)) t.set("o.time_limit", 100000);
    if (r.chance(1, 4)) t.set("p.wall", r.chance(1, 2) ? 0l : 4294967295l);
    out.push_back(t);
  }
}
bool chk_P12(const Scenario &s, Ctx &c, Violation &v) {
  Plan p = fplan(s), pb = fplan(s, {}, false);
  const RunResult &B = c.base(pb);
  NEED(solved(B.p[0]), "base fails");
  RunResult r = c.run(p);
  const ProcResult &q = r.p[0];
  std::string why;
  for (int x : r.fired)
    if (x) c.nontrivial = true;
  if (!solved(q)) return fail(v, "outcome", "clock trouble ended the run with " + how(q));
  if (diff_disk(B.disk, r.disk, &why)) return fail(v, "files", "clock trouble changed the result: " + why);
  for (auto &f : s.faults) c.probe(kActionName[f.act]);
  if (norm_out(q.out) != norm_out(B.p[0].out)) return fail(v, "report", "clock trouble changed the report beyond its times");
  {
    auto a = epoch_lines(q.out), b = epoch_lines(B.p[0].out);
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
      if (a[i].secs != b[i].secs || a[i].total != b[i].total)
        return fail(v, "times",
                    fstr("epoch %d: reported processor time changes from %.2f to %.2f s when only the wall clock moves", a[i].k,
                         b[i].total, a[i].total));
  }
  return false;
}
// ---------------------------------------------------------------- P13 neighbours
static Scenario second(const Scenario &s) {
  Scenario t = s;
  t.faults.clear();
  for (auto &k : s.kv)
    if (k.first.compare(0, 2, "b.") == 0) t.kv[k.first.substr(2)] = k.second;
  t.set("out", s.s("out") == "" && s.has("out") ? "" : "r2");
  return t;
}
static Plan solo(const Scenario &s, const std::string &model, bool leftovers) {
  Plan p;
  p.files[model] = render(model_of(s), s.u("style"));
  ProcSpec q = proc_of(s);
  q.args[1] = model;
  if (s.has("out") && s.s("out") == "") q.args.erase(q.args.begin() + 2, q.args.begin() + 4);
  p.phases.push_back(Phase{{q}});
  (void)leftovers;
  return p;
}
void gen_P13(Rng &r, Ctx &c, Fam &out) {
  Scenario s;
  small(r, s, 2, 4);
  s.kv.erase("old");
  Scenario t;
  do { small(r, t, 2, 4); } while (t.s("o.method") == "enum");
  for (auto k : {"m.seed", "m.S", "m.A", "m.O", "m.kind", "h", "p.heap"})
    if (t.has(k)) s.set(std::string("b.") + k, t.s(k));
  long pid = s.i("p.pid", 4242);
  s.set("b.p.pid", r.chance(1, 2) ? pid + 1 : pid * 10 % 60000 + 1);
  if (r.chance(1, 4)) {
    s.set("out", "");
    for (auto k : {"m.seed", "m.S", "m.A", "m.O", "m.kind"}) s.kv.erase(std::string("b.") + k);
  }
  if (s.s("o.method") == "enum") s.kv.erase("o.method"), s.kv.erase("o.enum_purge");
  const RunResult &B = c.base(solo(s, "m.pomdp", false));
  NEED(solved(B.p[0]), "base fails");
  for (int i = 0; i < 4; i++) {
    Scenario u = s;
    u.set("sched", (long)r.below(1u << 30));
    if (r.chance(1, 3)) u.set("left", (long)r.below(1u << 20) + 1);
    if (i >= 2) u.faults = {rand_async(r, B.p[0], r.chance(2, 3) ? A_CRASH : A_SIGINT, 0, B.p[0].ticks)};
    out.push_back(u);
  }
}
bool chk_P13(const Scenario &s, Ctx &c, Violation &v) {
  Scenario t = second(s);
  bool shared = s.has("out") && s.s("out") == "";
  NEED(s.i("p.pid", 4242) != t.i("p.pid", 4242), "same process id");
  std::string m2 = shared ? "m.pomdp" : "m2.pomdp";
  Plan a = solo(s, "m.pomdp", false), b = solo(t, m2, false);
  const RunResult A = c.base(a);
  const RunResult Bb = c.base(b);
  NEED(solved(A.p[0]) && solved(Bb.p[0]), "base fails");
  Plan p;
  p.files = a.files;
  for (auto &f : b.files) p.files[f.first] = f.second;
  p.phases.push_back(Phase{{a.phases[0].procs[0], b.phases[0].procs[0]}});
  p.sched_seed = s.u("sched");
  p.faults = s.faults;
  std::map<std::string, std::string> junk;
  if (s.has("left")) {
    Rng r(s.u("left"));
    Model m = model_of(s);
    std::string g = r.chance(1, 2) ? old_alpha(m, 4321.5) : "0\n1.5";
    for (long id : {s.i("p.pid", 4242), t.i("p.pid", 4242), 9l})
      for (auto suf : {"", ".tmp"})
        if (r.chance(1, 3)) junk["##pomdp-solve-" + std::to_string(id) + "##" + suf] = g;
    for (auto n : {"r.alpha.tmp", "r.pg.tmp", "r2.alpha.tmp", "r.alpha", "r2.pg"})
      if (r.chance(1, 3)) junk[n] = g;
    for (auto &j : junk) p.files[j.first] = j.second;
    c.probe("with leftovers of dead runs");
  }
  RunResult r = c.run(p);
  const ProcResult &x = r.p[0], &y = r.p[1];
  c.nontrivial = true;
  std::string why;
  auto results = [&](const RunResult &solo_, const char *who) {
    for (auto &d : solo_.disk)
      if (d.first.find("pomdp") == std::string::npos || d.first.find("alpha") != std::string::npos)
        if (!is_work_file(d.first) && get(r, d.first) != d.second) {
          why = std::string(who) + ": " + d.first + " is not what the run writes when it is alone";
          return false;
        }
    return true;
  };
  if (!solved(y)) return fail(v, "second", "run beside another one, the second ended with " + how(y));
  if (!results(Bb, "second")) return fail(v, "second", why);
  bool f = !s.faults.empty();
  if (!f) {
    if (!solved(x)) return fail(v, "first", "run beside another one, the first ended with " + how(x));
    if (!results(A, "first")) return fail(v, "first", why);
  } else {
    for (int k : r.fired)
      if (k) c.probe("the neighbour was killed or interrupted");
  }
  for (auto &d : r.disk)
    if (is_work_file(d.first) && !junk.count(d.first)) {
      if (!f || x.outcome == O_EXIT) return fail(v, "leftover", d.first + " is left behind by runs that succeeded");
      if (d.first.find(std::to_string(t.i("p.pid", 4242))) != std::string::npos &&
          d.first.find(std::to_string(s.i("p.pid", 4242))) == std::string::npos)
        return fail(v, "leftover", d.first + " is left behind by the run that succeeded");
    }
  for (auto &j : junk)
    if (j.first.find("##") == 0 && j.first.find("-9##") != std::string::npos && get(r, j.first) != j.second)
      return fail(v, "foreign", j.first + " belongs to another process, but was changed");
  if (shared) {
    for (auto *q : {&A, &Bb})
      for (auto e : {".alpha", ".pg"})
        if (!q->disk.count("m-" + std::to_string(q == &A ? s.i("p.pid", 4242) : t.i("p.pid", 4242)) + e))
          return fail(v, "names", std::string("without -o, no file named after the model m.pomdp and the process number is written (") + e + ")");
    c.probe("same model, default output names");
  }
  return false;
}
