// Memory: whatever the other properties simulate, under fences and with two contents of fresh memory; conservation.
#include "pc.h"
typedef std::vector<Scenario> Fam;
static const Prop *prop_of(const std::string &id) {
  for (auto &p : kProps)
    if (id == p.id) return &p;
  return nullptr;
}
static const char *TOOLS[] = {"sort_alphas", "purge_alphas", "compare_alphas", "map_beliefs", "belief_alpha_compare", "pg_eval", "pg_relink",
                              "update_beliefs"};
// what a run shows, piece by piece; at no time, for the two builds take different numbers of steps
static Plan peer_plan(const Scenario &s) {
  Plan p = s.has("tool") ? tool_plan(s) : fplan(s, {}, false);
  for (auto &ph : p.phases)
    for (auto &q : ph.procs) q.ns_per_tick = 0;
  return p;
}
static std::string peer_show(const RunResult &r) {
  std::string o;
  for (auto &x : r.p) {
    o += fstr("end %s %d\n", kOutcomeName[x.outcome], x.code);
    o += fstr("report %016llx\n", (unsigned long long)fnv(x.out.data(), x.out.size()));
    o += fstr("messages %016llx\n", (unsigned long long)fnv(x.err.data(), x.err.size()));
  }
  for (auto &d : r.disk) o += "file " + d.first + fstr(" %016llx\n", (unsigned long long)fnv(d.second.data(), d.second.size()));
  return o;
}
int peer_main(const Scenario &s) {
  try {
    printf("%s", peer_show(run_plan(peer_plan(s))).c_str());
  } catch (Skip &) { printf("skipped\n"); }
  return 0;
}
// Local variables start with a pattern in this build and with leftovers in the other one; both do the same arithmetic.
static bool peer(const Scenario &s, Ctx &c, Violation &v) {
  NEED(sim_san(), "this is not the second build");
  Plan p = peer_plan(s);
  RunResult r = run_plan(p);
  c.runs += 2;
  c.hash = mix2(c.hash, r.hash);
  if (r.tool_error) {
    c.tool = true;
    c.toolmsg = r.tool_msg;
    return false;
  }
  for (auto &x : r.p) NEED(x.outcome != O_HANG, "too large a run");
  std::string want = peer_show(r), got;
  setenv("PSIM_SCN", s.text().c_str(), 1);
  FILE *f = popen((sim_first_build() + " peer").c_str(), "r");
  char b[4096];
  while (f && fgets(b, sizeof b, f)) got += b;
  if (!f || pclose(f) || got.empty()) {
    c.tool = true;
    c.toolmsg = "the first build does not answer";
    return false;
  }
  c.nontrivial = true;
  c.probe(s.has("tool") ? "builds compared on a tool" : "builds compared on a run");
  for (size_t i = 0; i < r.p.size(); i++)
    if (!r.p[i].heap_msg.empty()) return fail(v, "memory", r.p[i].heap_msg.substr(0, r.p[i].heap_msg.find(" (block")));
  if (want == got) return false;
  size_t k = 0;
  while (k < want.size() && k < got.size() && want[k] == got[k]) k++;
  size_t l = want.rfind('\n', k ? k - 1 : 0);
  l = l == std::string::npos ? 0 : l + 1;
  std::string line = want.substr(l, want.find('\n', l) - l);
  return fail(v, "contents", "the " + line.substr(0, line.rfind(' ')) + " depends on what local variables contain before they are set");
}
void gen_P26(Rng &r, Ctx &c, Fam &out) {
  if (r.chance(1, 5)) { // the two builds
    Scenario s;
    if (r.chance(1, 3)) {
      rand_model(r, s, 0);
      rand_env(r, s);
      s.set("tool", std::string(TOOLS[r.below(8)]));
      for (auto k : {"n", "k", "nb"}) s.set(k, (long)r.range(1, 8));
      s.set("seed", (long)r.below(1u << 30));
    } else {
      static const char *V[] = {"context", "lp", "global", "timing", "stats", "cmdline", "main", "alpha", "proj", "crosssum", "agenda", "enum",
                                "twopass", "linsup", "witness", "incprune", "lpinterface", "vertexenum", "mdp", "pomdp", "param",
                                "parsimonious", "region", "approx_mcgs", "zlz_speedup", "finite_grid", "mcgs"};
      small(r, s, 1, 4, CF_EXACT | CF_GRID | CF_FASTPURGE | CF_STATS);
      vary(r, s, true);
      if (s.s("o.method") == "grid" && r.chance(1, 2)) s.set("o.fg_save", "true");
      if (r.chance(1, 3)) s.set("o.stat_summary", "true");
      if (r.chance(1, 2)) s.set("o.verbose", V[r.below(sizeof V / sizeof *V)]);
    }
    s.set("x.peer", 1);
    out.push_back(s);
    return;
  }
  if (r.chance(1, 12)) { // overlong arguments
    Scenario s;
    small(r, s, 1, 2, CF_EXACT | CF_GRID | CF_FASTPURGE);
    s.set("x.arg", (long)r.below(12));
    s.set("x.len", (long)(r.chance(1, 2) ? r.range(1000, 1030) : r.chance(1, 2) ? r.range(80, 1200) : r.range(1030, 9000)));
    s.set("x.heap", (long)r.below(1u << 30) + 1);
    if (r.chance(1, 2)) s.set("o.save_all", "true");
    if (r.chance(1, 2)) s.set("o.save_penultimate", "true");
    if (s.s("o.method") == "grid") s.set("o.fg_save", "true");
    out.push_back(s);
    return;
  }
  if (r.chance(1, 10)) { // ... of a tool, with more of everything
    Scenario s;
    rand_model(r, s, 0);
    rand_env(r, s);
    s.set("tool", std::string(TOOLS[r.below(8)]));
    for (auto k : {"n", "k", "nb"}) s.set(k, (long)r.range(1, 8));
    s.set("seed", (long)r.below(1u << 30));
    s.set("x.more", (long)r.range(1, 20));
    s.set("x.heap", (long)r.below(1u << 30) + 1);
    if (s.s("tool") == "pg_eval") s.set("x.more", (long)r.range(1, 3));
    out.push_back(s);
    return;
  }
  if (r.chance(1, 3)) { // conservation
    Scenario s;
    small(r, s, 2, 5, CF_EXACT | CF_GRID | CF_FASTPURGE | CF_STATS);
    vary(r, s, true);
    s.kv.erase("o.stop_criteria");
    if (s.s("o.method") == "grid" && r.chance(1, 2)) s.set("o.fg_save", "true");
    s.set("x.more", (long)(r.chance(1, 4) ? r.range(4, 30) : r.range(1, 3)));
    s.set("x.heap", (long)r.below(1u << 30) + 1);
    out.push_back(s);
    return;
  }
  static const char *SUB[] = {"P01", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P09", "P10", "P10", "P11", "P12",
                              "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P19", "P20", "P20", "P21", "P21", "P22",
                              "P23", "P23", "P24"};
  const char *sub = SUB[r.below(sizeof SUB / sizeof *SUB)];
  Fam fam;
  Ctx d;
  prop_of(sub)->gen(r, d, fam);
  for (size_t i = 0; i < fam.size() && i < 3; i++) {
    Scenario t = fam[r.below(fam.size())];
    t.set("sub", std::string(sub));
    t.set("x.heap", (long)r.below(1u << 30) + 1);
    out.push_back(t);
  }
}
static void overlong(const Scenario &s, Ctx &c) {
  static const char *OPT[] = {"-o", "-pomdp", "-terminal_values", "-method", "-rand_seed", "-horizon", "-epsilon", "-nonsense", "", "-o", "-o", "-f"};
  static const char *TOOL[] = {"-o", "-pomdp", "-alpha1", "-alpha2", "-belief", "-pg1", "-tool", "-states", "-epsilon"};
  std::string x((size_t)s.i("x.len", 1000), 'y');
  long w = s.i("x.arg");
  Plan p = fplan(s, {}, false);
  auto &a = p.phases[0].procs[0].args;
  const char *o = OPT[w % 12];
  if (!*o) a.push_back("-" + x);
  else {
    size_t i = 0;
    while (i < a.size() && a[i] != o) i++;
    if (i + 1 < a.size()) a[i + 1] = x;
    else a.push_back(o), a.push_back(x);
    if (!strcmp(o, "-pomdp") && x.size() < 1020 && p.files.count("m.pomdp")) p.files[x] = p.files["m.pomdp"];
  }
  c.run(p);
  Plan q;
  ProcSpec t = tool_of(s, {"-tool", "sort_alphas", "-states", "2", "-alpha1", "a1", "-o", "out"});
  q.files["a1"] = "0\n1 2\n";
  o = TOOL[w % 9];
  size_t i = 0;
  while (i < t.args.size() && t.args[i] != o) i++;
  if (i + 1 < t.args.size()) t.args[i + 1] = x;
  else t.args.push_back(o), t.args.push_back(x);
  q.phases.push_back(Phase{{t}});
  c.run(q);
  c.nontrivial = true;
  c.probe("overlong arguments");
}
static bool conserve_tool(const Scenario &s, Ctx &c, Violation &v) {
  Scenario t = s;
  for (auto k : {"n", "k", "nb"}) t.set(k, s.i(k, 3) + s.i("x.more"));
  RunResult a = c.run(tool_plan(s)), b = c.run(tool_plan(t));
  const ProcResult &x = a.p[0], &y = b.p[0];
  NEED(x.outcome == O_EXIT && y.outcome == O_EXIT && x.code == y.code, "the tool fails");
  c.nontrivial = true;
  std::string tool = s.s("tool");
  if (x.leak_fds || y.leak_fds) return fail(v, "files-open", tool + ": files are still open at the end");
  // what a tool that ends at once leaves allocated harms nobody; the belief service goes on
  bool live = tool == "update_beliefs" && (x.live_blocks != y.live_blocks || x.live_bytes != y.live_bytes);
  if (live || x.max_open != y.max_open)
    return fail(v, "grows", fstr("%s: %d blocks (%d bytes) still allocated and %d files, on larger inputs %d (%d) and %d", tool.c_str(), (int)x.live_blocks,
                                 (int)x.live_bytes, x.max_open, (int)y.live_blocks, (int)y.live_bytes, y.max_open));
  c.probe(("conservation in " + tool).c_str());
  return false;
}
static bool conserve(const Scenario &s, Ctx &c, Violation &v) {
  Scenario t = s;
  t.set("h", s.i("h") + s.i("x.more"));
  RunResult a = c.run(fplan(s, {}, false)), b = c.run(fplan(t, {}, false));
  const ProcResult &x = a.p[0], &y = b.p[0];
  NEED(solved(x) && solved(y), "the run gives no solution");
  c.nontrivial = true;
  if (x.leak_fds || y.leak_fds) return fail(v, "files-open", fstr("%d files are still open at the end", (int)std::max(x.leak_fds, y.leak_fds)));
  if (x.live_blocks != y.live_blocks || x.live_bytes != y.live_bytes)
    return fail(v, "grows", fstr("after %d epochs %d blocks (%d bytes) are still allocated at the end, after %d epochs %d (%d)", epochs_of(x.out),
                                 (int)x.live_blocks, (int)x.live_bytes, epochs_of(y.out), (int)y.live_blocks, (int)y.live_bytes));
  if (x.max_open != y.max_open)
    return fail(v, "files", fstr("up to %d files are open at once in %d epochs, %d in %d", x.max_open, epochs_of(x.out), y.max_open, epochs_of(y.out)));
  { // while it runs: as many blocks at the start of an epoch as at that of any other one with as many vectors
    std::vector<EpochLine> el = epoch_lines(y.out);
    std::map<std::pair<long, long>, std::pair<int, uint32_t>> seen;
    for (size_t k = 3; k <= el.size(); k++) {
      size_t pos = announce_pos(y.out, (int)k);
      if (pos == std::string::npos) break;
      for (auto &e : y.ev)
        if (e.op == OP_OUT && e.a + (uint64_t)e.res > pos) {
          auto key = std::make_pair(el[k - 3].size, el[k - 2].size);
          auto it = seen.find(key);
          if (it == seen.end()) seen[key] = {(int)k, e.live};
          else {
            c.probe("epochs of the same size");
            // the statistics remember every epoch
            if (labs((long)e.live - (long)it->second.second) > 2 * ((long)k - it->second.first))
              return fail(v, "grows-inside",
                          fstr("%d blocks are allocated when epoch %d starts, %d when epoch %d does, with as many vectors", (int)it->second.second,
                               it->second.first, (int)e.live, (int)k));
          }
          break;
        }
    }
  }
  c.probe("conservation across horizons");
  return false;
}
bool chk_P26(const Scenario &s, Ctx &c, Violation &v) {
  c.guard = true;
  c.mem = Violation();
  c.cache.clear();
  c.guard_heap = s.u("x.heap", 1);
  bool bad = false, skipped = false;
  Skip why{""};
  if (s.has("sub")) {
    const Prop *p = prop_of(s.s("sub"));
    NEED(p, "no such property");
    Scenario t = s;
    t.prop = p->id;
    Violation ignored; // what the other property says about it is the other property's business
    try {
      p->check(t, c, ignored);
    } catch (Skip &k) { skipped = true, why = k; }
    c.probe(("scenarios of " + t.prop).c_str());
  } else if (s.has("x.peer")) {
    bad = peer(s, c, v);
  } else if (s.has("x.arg")) {
    overlong(s, c);
  } else {
    try {
      bad = s.has("tool") ? conserve_tool(s, c, v) : conserve(s, c, v);
    } catch (Skip &k) { skipped = true, why = k; }
  }
  if (!c.mem.cls.empty()) {
    v = c.mem;
    return true;
  }
  if (bad) return true;
  if (skipped) throw why;
  return false;
}
