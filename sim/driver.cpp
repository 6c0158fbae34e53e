#include <sys/personality.h>
// Seeded search over simulated executions, violation gate, minimiser, replay and evidence.
#include "pc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

static const int PROBES = 256;
static const size_t SEENBITS = 1u << 24;
struct Tally {
  uint64_t families, scenarios, evals, nontrivial, distinct, faulted, faultfree, skipped, recheck, violations, known, stop,
      toolerr, memo;
  uint64_t nsample;
  char sample[6][3000];
  uint64_t usual_us;
  struct {
    char name[56];
    uint64_t n;
  } probe[PROBES];
  int nprobe, lock;
  char toolmsg[400];
  uint8_t seen[SEENBITS / 8];
};
static Tally *T;
static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void add(uint64_t &x, uint64_t n = 1) { __atomic_add_fetch(&x, n, __ATOMIC_RELAXED); }

// ------------------------------------------------------------------ text forms
static std::string esc(const std::string &s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\x%02x", c);
      o += b;
    } else o += (char)c;
  }
  return o;
}
static std::string unesc(const std::string &s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] == '\\' && i + 3 < s.size() && s[i + 1] == 'x') {
      o += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16);
      i += 3;
    } else o += s[i];
  return o;
}
std::string fault_text(const Fault &f) {
  char b[160];
  snprintf(b, sizeof b, "proc=%d trig=%c n=%llu d=%llu act=%s arg=%lld", f.proc, f.trig, (unsigned long long)f.n,
           (unsigned long long)f.d, kActionName[f.act], (long long)f.arg);
  return b;
}
static bool fault_parse(const std::string &t, Fault &f) {
  char nm[40], tg;
  unsigned long long n, d;
  long long a;
  if (sscanf(t.c_str(), "proc=%d trig=%c n=%llu d=%llu act=%39s arg=%lld", &f.proc, &tg, &n, &d, nm, &a) != 6) return false;
  f.trig = tg;
  f.n = n;
  f.d = d;
  f.arg = a;
  for (int i = 0; i < A_COUNT; i++)
    if (!strcmp(nm, kActionName[i])) {
      f.act = i;
      return true;
    }
  return false;
}
std::string Scenario::text() const {
  std::string o = "prop " + prop + "\n";
  for (auto &k : kv) o += "set " + k.first + " " + esc(k.second) + "\n";
  for (auto &f : faults) o += "fault " + fault_text(f) + "\n";
  return o;
}
bool Scenario::parse(const std::string &t, Scenario &o) {
  std::istringstream in(t);
  std::string l;
  o = Scenario();
  while (std::getline(in, l)) {
    if (l.compare(0, 5, "prop ") == 0) o.prop = l.substr(5);
    else if (l.compare(0, 4, "set ") == 0) {
      size_t p = l.find(' ', 4);
      if (p == std::string::npos) return false;
      o.kv[l.substr(4, p - 4)] = unesc(l.substr(p + 1));
    } else if (l.compare(0, 6, "fault ") == 0) {
      Fault f;
      if (!fault_parse(l.substr(6), f)) return false;
      o.faults.push_back(f);
    }
  }
  return !o.prop.empty();
}
std::string plan_text(const Plan &p) {
  std::string o = sim_lp_tight ? "tight\n" : "";
  char b[400];
  for (auto &f : p.files) o += "F " + f.first + " " + std::to_string(f.second.size()) + " " + f.second + "\n";
  for (auto &ph : p.phases) {
    o += "P\n";
    for (auto &s : ph.procs) {
      snprintf(b, sizeof b, "p %d %d %d %llu %llu %llu %lld %d %d %d %d %d %llu %d %d\n", s.prog, s.pid, s.ppid,
               (unsigned long long)s.heap_seed, (unsigned long long)s.rng_salt, (unsigned long long)s.ns_per_tick,
               (long long)s.wall0, s.so, s.bufsz, s.chunk, s.zero_heap, s.no_reuse, (unsigned long long)s.budget, s.snap, s.fence);
      o += b;
      for (auto &a : s.args) o += "a " + a + "\n";
      o += (s.in_lines ? "l " : "i ") + s.in + "\n";
    }
  }
  for (auto &f : p.faults) o += fault_text(f) + "\n";
  snprintf(b, sizeof b, "s %llu %llu\n", (unsigned long long)p.sched_seed, (unsigned long long)p.disk_cap);
  return o + b;
}

// ------------------------------------------------------------------ context
static void tr(Ctx &c, const Plan &p, const RunResult &r) {
  if (c.trace && getenv("PSIM_DUMP")) {
    std::string d = std::string(getenv("PSIM_DUMP")) + "/run" + std::to_string(c.runs);
    mkdir(d.c_str(), 0755);
    for (auto &f : r.disk) {
      std::string n = f.first;
      std::replace(n.begin(), n.end(), '/', '_');
      std::ofstream(d + "/" + n) << f.second;
    }
    for (size_t i = 0; i < r.p.size(); i++) {
      std::ofstream(d + "/stdout." + std::to_string(i)) << r.p[i].out;
      std::ofstream(d + "/stderr." + std::to_string(i)) << r.p[i].err;
    }
  }
  if (!c.trace) return;
  printf("--- run %llu: hash %016llx\n", (unsigned long long)c.runs, (unsigned long long)r.hash);
  size_t k = 0;
  for (auto &ph : p.phases)
    for (auto &s : ph.procs) {
      if (k >= r.p.size()) break;
      auto &q = r.p[k];
      std::string a;
      for (auto &x : s.args) a += " " + x;
      printf("    %s%s\n      -> %s %d, %llu blocks, %llu ops, %llu allocations%s%s\n", s.prog ? "pomdp-tools" : "pomdp-solve",
             a.c_str(), kOutcomeName[q.outcome], q.code, (unsigned long long)q.ticks, (unsigned long long)q.ops,
             (unsigned long long)q.allocs, q.heap_msg.empty() ? "" : ", heap: ", q.heap_msg.c_str());
      k++;
    }
  for (size_t i = 0; i < p.faults.size(); i++)
    printf("    fault %s: fired %d at block %#llx\n", fault_text(p.faults[i]).c_str(), r.fired[i],
           (unsigned long long)r.fired_pc[i]);
}
RunResult Ctx::guarded(const Plan &p) {
  runs++;
  if (!guard) return run_plan(p);
  Plan a = p, b = p;
  size_t procs = 0;
  for (auto &ph : a.phases)
    for (auto &q : ph.procs) q.fence = true, procs++;
  for (auto &ph : b.phases)
    for (auto &q : ph.procs) q.heap_seed = mix2(q.heap_seed, guard_heap);
  RunResult r = run_plan(a);
  bool lp = false;
  for (size_t i = 0; i < r.fired.size(); i++)
    if (r.fired[i] && r.fired_laspack[i]) lp = true; // known finding of P20
  if (r.tool_error || lp || !mem.cls.empty()) return r;
  for (auto &q : r.p)
    if (!q.heap_msg.empty() || q.outcome == O_FATAL) {
      std::string n = q.heap_msg.substr(0, q.heap_msg.find(" (block"));
      mem = Violation{"memory", (n.empty() ? "the program crashed" : n) + ", in a run that ended with " + kOutcomeName[q.outcome] +
                                    fstr(" %d at tick %llu", q.code, (unsigned long long)q.ticks)};
      return r;
    }
  RunResult t = run_plan(b);
  runs++;
  if (t.tool_error) return r;
  bool failing = false; // else running out of memory means too large a run, which the two ways of allocating bear differently
  for (auto &f : p.faults) failing = failing || f.act == A_ALLOC_FAIL || f.act == A_ALLOC_FAIL_FROM;
  for (auto *z : {&r, &t})
    for (auto &q : z->p)
      if (q.outcome == O_HANG || (!failing && q.err.find("Out of memory") != std::string::npos)) return r;
  for (size_t i = 0; i < procs && i < r.p.size() && i < t.p.size(); i++) {
    const ProcResult &x = r.p[i], &y = t.p[i];
    std::string d;
    if (!y.heap_msg.empty()) d = y.heap_msg.substr(0, y.heap_msg.find(" (block"));
    else if (x.outcome != y.outcome || x.code != y.code)
      d = fstr("the same run ends with %s %d or with %s %d", kOutcomeName[x.outcome], x.code, kOutcomeName[y.outcome], y.code);
    else if (x.out != y.out) d = "the same run prints two different reports";
    else if (x.err != y.err) d = "the same run prints two different messages";
    else if (x.ticks != y.ticks) d = "the same run takes two different courses";
    if (d.empty()) continue;
    mem = Violation{"contents", d + ", depending on what fresh memory contains"};
    return r;
  }
  if (r.disk != t.disk) mem = Violation{"contents", "the same run writes two different files, depending on what fresh memory contains"};
  return r;
}
RunResult Ctx::run(const Plan &p) {
  RunResult r = guarded(p);
  hash = mix2(hash, r.hash);
  if (r.tool_error) {
    tool = true;
    toolmsg = r.tool_msg;
  }
  tr(*this, p, r);
  return r;
}
const RunResult &Ctx::base(const Plan &p) {
  std::string k = plan_text(p);
  auto i = cache.find(k);
  if (i == cache.end()) {
    RunResult r = guarded(p);
    if (r.tool_error) {
      tool = true;
      toolmsg = r.tool_msg;
    }
    if (cache.size() > 64) cache.clear();
    i = cache.emplace(k, std::move(r)).first;
  }
  hash = mix2(hash, i->second.hash);
  tr(*this, p, i->second);
  return i->second;
}
void Ctx::probe(const char *n) {
  for (int i = 0; i < __atomic_load_n(&T->nprobe, __ATOMIC_ACQUIRE); i++)
    if (!strcmp(T->probe[i].name, n)) {
      add(T->probe[i].n);
      return;
    }
  while (__atomic_exchange_n(&T->lock, 1, __ATOMIC_ACQUIRE)) usleep(10);
  int i = 0;
  for (; i < T->nprobe; i++)
    if (!strcmp(T->probe[i].name, n)) break;
  if (i == T->nprobe && i < PROBES) {
    snprintf(T->probe[i].name, sizeof T->probe[i].name, "%s", n);
    __atomic_store_n(&T->nprobe, i + 1, __ATOMIC_RELEASE);
  }
  if (i < PROBES) add(T->probe[i].n);
  __atomic_store_n(&T->lock, 0, __ATOMIC_RELEASE);
}
void Ctx::note(const std::string &s) {
  if (trace) printf("    %s\n", s.c_str());
}

static const Prop *find_prop(const std::string &id) {
  for (auto &p : kProps)
    if (id == p.id) return &p;
  return nullptr;
}
struct Verdict {
  bool violated = false, skipped = false, tool = false;
  Violation v;
  uint64_t hash = 0;
  bool nontrivial = false;
  std::string toolmsg;
};
static Verdict evaluate(const Prop &p, const Scenario &s, Ctx &c) {
  Verdict d;
  c.hash = 1469598103934665603ull;
  c.nontrivial = false;
  c.tool = false;
  try {
    d.violated = p.check(s, c, d.v);
  } catch (Skip &k) {
    d.skipped = true;
    c.note("outside the precondition: " + k.why);
    c.probe(("skipped scenario: " + k.why).c_str());
  }
  d.tool = c.tool;
  d.toolmsg = c.toolmsg;
  d.hash = c.hash;
  d.nontrivial = c.nontrivial;
  if (d.tool) d.violated = false;
  return d;
}

// ------------------------------------------------------------------ known findings
struct Known {
  std::string prop, cls, sig, text, file;
};
static std::vector<Known> load_known(const std::string &dir) {
  std::vector<Known> k;
  std::ifstream in(dir + "/known_findings.txt");
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 8, "finding:")) continue;
    Known x;
    auto fld = [&](const char *n) {
      size_t p = l.find(std::string(n) + "=\"");
      if (p == std::string::npos) return std::string();
      p += strlen(n) + 2;
      return l.substr(p, l.find('"', p) - p);
    };
    x.prop = fld("property");
    x.cls = fld("class");
    x.sig = fld("signature");
    x.file = fld("replay");
    x.text = fld("what");
    if (!x.prop.empty() && !x.cls.empty() && !x.sig.empty()) k.push_back(x);
  }
  return k;
}
static const Known *is_known(const std::vector<Known> &k, const std::string &prop, const Violation &v) {
  for (auto &x : k)
    if (x.prop == prop && x.cls == v.cls && v.msg.find(x.sig) != std::string::npos) return &x;
  return nullptr;
}

// The bundled LP solver's fixed tolerances now and then lose a vector (a known finding). A violation is that finding when
// the same scenario holds with the tolerances inside the solver tightened and nothing else changed; only as many as the
// finding explains are accepted per run, so that a change that loses more of them is still reported.
static bool lp_precision(const Prop &p, const Scenario &s, const std::vector<Known> &known, const std::string &prop,
                         const Violation &v) {
  Violation w = v;
  w.cls = "lp-precision";
  if (!is_known(known, prop, w)) return false;
  LpTight tight;
  Ctx c;
  Verdict d = evaluate(p, s, c);
  return !d.tool && !d.skipped && d.nontrivial && !d.violated;
}

// ------------------------------------------------------------------ minimiser
static Scenario minimise(const Prop &p, Scenario s, const std::string &cls, double secs, int *tries) {
  double end = now() + secs;
  *tries = 0;
  Ctx c;
  auto still = [&](const Scenario &t) {
    if (now() > end || *tries > 600) return false;
    (*tries)++;
    Verdict d = evaluate(p, t, c);
    return d.violated && d.v.cls == cls;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t i = 0; i < s.faults.size();) {
      Scenario t = s;
      t.faults.erase(t.faults.begin() + (long)i);
      if (still(t)) {
        s = t;
        progress = true;
      } else i++;
    }
    std::vector<std::string> keys;
    for (auto &k : s.kv) keys.push_back(k.first);
    for (auto &k : keys)
      if (k.compare(0, 2, "o.") == 0 || k.compare(0, 2, "x.") == 0) {
        Scenario t = s;
        t.kv.erase(k);
        if (still(t)) {
          s = t;
          progress = true;
        }
      }
    static const char *zero[] = {"style", "p.bufsz", "p.chunk", "p.salt", "p.norecycle", "p.heap"};
    for (auto z : zero)
      if (s.has(z) && s.s(z) != "0") {
        Scenario t = s;
        t.set(z, 0);
        if (still(t)) {
          s = t;
          progress = true;
        }
      }
    static const struct {
      const char *k;
      long lo;
    } down[] = {{"m.S", 1}, {"m.A", 1}, {"m.O", 1}, {"h", 1}, {"m.kind", 0}, {"n", 1}, {"k", 1}};
    for (auto &d : down)
      if (s.has(d.k)) {
        long v = s.i(d.k);
        for (long w : {d.lo, v / 2, v - 1})
          if (w >= d.lo && w < v) {
            Scenario t = s;
            t.set(d.k, w);
            if (still(t)) {
              s = t;
              progress = true;
              break;
            }
          }
      }
    for (size_t i = 0; i < s.faults.size(); i++) {
      for (uint64_t w : {(uint64_t)0, s.faults[i].d / 2})
        if (w < s.faults[i].d) {
          Scenario t = s;
          t.faults[i].d = w;
          if (still(t)) {
            s = t;
            progress = true;
            break;
          }
        }
      for (uint64_t w : {(uint64_t)1, s.faults[i].n / 2, s.faults[i].n - 1})
        if (s.faults[i].n && w < s.faults[i].n) {
          Scenario t = s;
          t.faults[i].n = w;
          if (still(t)) {
            s = t;
            progress = true;
            break;
          }
        }
    }
  }
  return s;
}

static std::string self_path() {
  char b[4096];
  ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
  b[n > 0 ? n : 0] = 0;
  return b;
}
std::string sim_first_build() {
  std::string s = self_path();
  return s.substr(0, s.rfind('/')) + "/psim";
}
// P26 is the business of the second build
static void to_san(const std::string &prop, char **argv) {
  if (prop != "P26" || sim_san()) return;
  std::string s = self_path();
  s = s.substr(0, s.rfind('/')) + "/psim-san";
  execv(s.c_str(), argv);
  fprintf(stderr, "%s: %s\n", s.c_str(), strerror(errno));
  exit(2);
}
static std::string verif_dir() {
  const char *e = getenv("VERIF_DIR");
  if (e) return e;
  std::string s = self_path();
  s = s.substr(0, s.rfind('/'));
  return s.substr(0, s.rfind('/'));
}
static std::string readfile(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

static int do_replay(const std::string &file, bool quiet) {
  std::string t = readfile(file);
  Scenario s;
  if (!Scenario::parse(t, s)) {
    fprintf(stderr, "cannot read scenario %s\n", file.c_str());
    return 2;
  }
  const Prop *p = find_prop(s.prop);
  if (!p) {
    fprintf(stderr, "unknown property %s\n", s.prop.c_str());
    return 2;
  }
  Ctx c;
  c.trace = !quiet;
  Verdict d = evaluate(*p, s, c);
  if (d.tool) {
    printf("REPLAY tool-error %s\n", d.toolmsg.c_str());
    return 2;
  }
  if (d.violated && getenv("PSIM_LP")) {
    LpTight tight;
    Ctx c2;
    Verdict d2 = evaluate(*p, s, c2);
    printf("with tight LP tolerances: %s\n", d2.skipped ? "skipped" : d2.violated ? d2.v.msg.c_str() : "held");
  }
  if (d.violated) {
    printf("REPLAY violated class=%s hash=%016llx\n", d.v.cls.c_str(), (unsigned long long)d.hash);
    if (!quiet) printf("%s\n", d.v.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", s.prop.c_str(), file.c_str());
    return 1;
  }
  printf("REPLAY %s hash=%016llx\n", d.skipped ? "skipped" : "held", (unsigned long long)d.hash);
  return 0;
}

// ------------------------------------------------------------------ search
struct Opt {
  std::string prop, tier = "quick";
  uint64_t seed = 1;
  int jobs = 8;
  double secs = 0;
  uint64_t count = 0;
  bool noev = false, keep = false;
};
static uint64_t family_seed(const std::string &prop, uint64_t seed, uint64_t idx) {
  return mix2(mix2(seed, fnv(prop.data(), prop.size())), idx);
}

static void worker(const Prop &p, const Opt &o, int w, uint64_t n, double deadline, const std::vector<Known> &known, int fd) {
  sim_init_worker();
  for (uint64_t idx = (uint64_t)w; idx < n; idx += (uint64_t)o.jobs) {
    if (now() > deadline || __atomic_load_n(&T->stop, __ATOMIC_RELAXED)) break;
    Ctx c;
    Rng r(family_seed(o.prop, o.seed, idx));
    std::vector<Scenario> fam;
    try {
      p.gen(r, c, fam);
    } catch (Skip &k) {
      c.probe(("skipped family: " + k.why).c_str());
      add(T->skipped);
      continue;
    }
    if (c.tool) {
      snprintf(T->toolmsg, sizeof T->toolmsg, "family %llu: %s", (unsigned long long)idx, c.toolmsg.c_str());
      add(T->toolerr);
      T->stop = 1;
      break;
    }
    add(T->families);
    for (auto &s : fam) {
      s.prop = o.prop;
      if (now() > deadline || T->stop) break;
      Verdict d = evaluate(p, s, c);
      add(T->scenarios);
      if (d.tool) {
        snprintf(T->toolmsg, sizeof T->toolmsg, "family %llu: %s", (unsigned long long)idx, d.toolmsg.c_str());
        add(T->toolerr);
        T->stop = 1;
        if (write(fd, ("T" + s.text()).c_str(), s.text().size() + 1) < 0) {}
        break;
      }
      if (d.skipped) {
        add(T->skipped);
        continue;
      }
      add(T->evals);
      add(s.faults.empty() ? T->faultfree : T->faulted);
      if (d.nontrivial) {
        add(T->nontrivial);
        uint64_t h = d.hash & (SEENBITS - 1);
        uint8_t m = (uint8_t)(1u << (h & 7));
        if (!(__atomic_fetch_or(&T->seen[h >> 3], m, __ATOMIC_RELAXED) & m)) add(T->distinct);
        uint64_t k = T->nsample;
        if (k < 6 && (idx % 7 == (uint64_t)w % 7)) {
          k = __atomic_fetch_add(&T->nsample, 1, __ATOMIC_RELAXED);
          if (k < 6) snprintf(T->sample[k], sizeof T->sample[k], "%s", s.text().c_str());
        }
      }
      if (!d.violated && mix2(family_seed(o.prop, o.seed, idx), T->scenarios) % 24 ==
                             0) { // same scenario again, nothing cached: must be bit-for-bit the same execution
        Ctx c2;
        Verdict d2 = evaluate(p, s, c2);
        add(T->recheck);
        if (d2.hash != d.hash || d2.violated != d.violated) {
          snprintf(T->toolmsg, sizeof T->toolmsg, "family %llu is not repeatable", (unsigned long long)idx);
          add(T->toolerr);
          T->stop = 1;
          std::string m = "T" + s.text();
          if (write(fd, m.data(), m.size()) < 0) {}
          break;
        }
      }
      if (d.violated) {
        if (is_known(known, o.prop, d.v)) {
          add(T->known);
          continue;
        }
        if (lp_precision(p, s, known, o.prop, d.v) &&
            __atomic_add_fetch(&T->known, 1, __ATOMIC_RELAXED) <= 2 + T->evals / 3000)
          continue;
        if (__atomic_fetch_add(&T->violations, 1, __ATOMIC_RELAXED) == 0) {
          T->stop = 1;
          std::string m = "V" + d.v.cls + "\n" + s.text();
          if (write(fd, m.data(), m.size()) < 0) {}
        }
        break;
      }
    }
  }
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += (char)c;
  }
  return o + "\"";
}

static void evidence(const Prop &p, const Opt &o, double wall, int viol, const std::string &dir) {
  std::ostringstream e;
  uint64_t sites = 0, cov = 0;
  for (size_t i = 0; i < sizeof gShared->sites; i++) sites += gShared->sites[i];
  for (size_t i = 0; i < sizeof gShared->cov; i++) cov += gShared->cov[i];
  e << "{\n \"property\": " << jstr(p.id) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << o.seed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  e << "  \"evaluations\": " << T->evals << ",\n  \"distinct_nontrivial\": " << T->distinct << ",\n";
  e << "  \"rule\": \"a case is one scenario (model text, options, environment knobs, fault sequence) drawn from the seed; it is "
       "non-trivial when the property's oracle compared something that the run really produced (for fault scenarios: an injected "
       "fault fired, or the run reached the state the oracle inspects); distinct cases have different event-log hashes\",\n";
  e << "  \"samples\": [";
  uint64_t ns = std::min<uint64_t>(T->nsample, 6);
  if (!ns) e << "\"(none of this run's families was sampled)\"";
  for (uint64_t i = 0; i < ns; i++) e << (i ? ", " : "") << jstr(T->sample[i]);
  e << "],\n";
  e << "  \"families\": " << T->families << ",\n  \"scenarios\": " << T->scenarios
    << ",\n  \"scenarios_with_faults\": " << T->faulted << ",\n  \"scenarios_fault_free\": " << T->faultfree
    << ",\n  \"scenarios_skipped\": " << T->skipped << ",\n  \"nontrivial\": " << T->nontrivial << ",\n";
  e << "  \"simulated_runs\": " << gShared->runs << ",\n  \"simulated_processes\": " << gShared->procs
    << ",\n  \"runs_per_hour\": " << (uint64_t)(gShared->runs / wall * 3600)
    << ",\n  \"seeds_per_hour\": " << (uint64_t)(T->families / wall * 3600) << ",\n";
  e << "  \"simulated_seconds\": " << gShared->sim_ns / 1000000000ull << ",\n  \"basic_blocks_executed\": " << gShared->ticks
    << ",\n  \"seam_operations\": " << gShared->ops << ",\n  \"simulated_allocations\": " << gShared->allocs << ",\n";
  e << "  \"faults_planned\": {";
  bool f = true;
  for (int i = 1; i < A_COUNT; i++)
    if (gShared->planned[i]) {
      e << (f ? "" : ", ") << jstr(kActionName[i]) << ": " << gShared->planned[i];
      f = false;
    }
  e << "},\n";
  e << "  \"faults_fired\": {";
  f = true;
  for (int i = 1; i < A_COUNT; i++)
    if (gShared->fired[i]) {
      e << (f ? "" : ", ") << jstr(kActionName[i]) << ": " << gShared->fired[i];
      f = false;
    }
  e << "},\n";
  e << "  \"distinct_fault_sites\": " << sites
    << ",\n  \"distinct_fault_sites_measure\": \"pairs of fault kind and basic block of the program at which it took effect\",\n "
       " \"distinct_basic_blocks_covered\": "
    << cov << ",\n";
  e << "  \"process_outcomes\": {";
  f = true;
  for (int i = 1; i < 8; i++)
    if (gShared->outcomes[i]) {
      e << (f ? "" : ", ") << jstr(kOutcomeName[i]) << ": " << gShared->outcomes[i];
      f = false;
    }
  e << "},\n";
  e << "  \"probes\": {";
  f = true;
  for (int i = 0; i < T->nprobe; i++) {
    e << (f ? "" : ", ") << jstr(T->probe[i].name) << ": " << T->probe[i].n;
    f = false;
  }
  e << "},\n";
  e << "  \"repeatability_rechecks\": " << T->recheck << ",\n  \"known_finding_hits\": " << T->known << ",\n";
  e << "  \"components_real\": [\"all of src/*.c, src/mdp, src/lp-solve and src/laspack of pomdp-solve and pomdp-tools, "
       "including both main functions and glibc stdio on top of the simulated descriptors\"],\n";
  e << "  \"components_stubbed\": [\"disk and directory\", \"heap\", \"signal delivery\", \"interval timer\", \"CPU and wall "
       "clocks\", \"pid\", \"process crash\", \"environment\", \"libc random generator when a salt is set\"]\n },\n";
  e << " \"assumptions\": [\"the reference model and the simulated libc and kernel semantics described in DESIGN.md are right\", "
       "\"sampling: a clean batch is evidence, not proof\"],\n \"wall_s\": "
    << wall << ",\n \"violations\": " << viol << "\n}\n";
  mkdir((dir + "/evidence").c_str(), 0755);
  std::ofstream(dir + "/evidence/" + p.id + ".json") << e.str();
}

static int do_check(const Opt &o) {
  const Prop *p = find_prop(o.prop);
  if (!p) {
    fprintf(stderr, "unknown property %s\n", o.prop.c_str());
    return 2;
  }
  std::string dir = verif_dir();
  double t0 = now();
  auto known = load_known(dir);
  printf("seed %llu tier %s property %s: %s\n", (unsigned long long)o.seed, o.tier.c_str(), p->id, p->title);
  fflush(stdout);
  uint64_t n = o.count ? o.count : (uint64_t)(o.tier == "thorough" ? p->thorough_n : p->quick_n);
  double secs = o.secs > 0 ? o.secs : o.tier == "thorough" ? 780 : 35;
  double deadline = t0 + secs;
  int pf[2];
  if (pipe(pf)) return 2;
  std::vector<pid_t> kids;
  for (int w = 0; w < o.jobs; w++) {
    pid_t k = fork();
    if (k < 0) {
      perror("fork");
      return 2;
    }
    if (!k) {
      close(pf[0]);
      worker(*p, o, w, n, deadline, known, pf[1]);
      _exit(0);
    }
    kids.push_back(k);
  }
  close(pf[1]);
  std::string msg;
  char buf[65536];
  ssize_t k;
  while ((k = read(pf[0], buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR))
    if (k > 0) msg.append(buf, (size_t)k);
  bool kidfail = false;
  for (pid_t q : kids) {
    int st;
    if (waitpid(q, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) kidfail = true;
  }
  if (kidfail) {
    fprintf(stderr, "a worker died\n");
    return 3;
  }
  sim_init_worker();
  int rc = 0;
  if (T->toolerr) {
    fprintf(stderr, "machinery error: %s\n%s\n", T->toolmsg, msg.size() ? msg.substr(1).c_str() : "");
    rc = 3;
  } else if (T->violations) {
    size_t nl = msg.find('\n');
    std::string cls = msg.substr(1, nl - 1);
    Scenario s;
    if (!Scenario::parse(msg.substr(nl + 1), s)) {
      fprintf(stderr, "lost the violation\n");
      return 3;
    }
    if (getenv("PSIM_RAW")) fprintf(stderr, "raw: %s\n", s.text().c_str());
    int tries = 0;
    Scenario m = minimise(*p, s, cls, o.tier == "thorough" ? 90 : 40, &tries);
    Ctx a, b;
    Verdict d1 = evaluate(*p, m, a), d2 = evaluate(*p, m, b);
    std::string rd = dir + "/build/replays";
    mkdir((dir + "/build").c_str(), 0755);
    mkdir(rd.c_str(), 0755);
    char fn[64];
    snprintf(fn, sizeof fn, "/%s-%016llx.scn", p->id, (unsigned long long)fnv(m.text().data(), m.text().size()));
    std::string file = rd + fn;
    std::ofstream(file) << "# property " << p->id << ": " << d1.v.cls << "\n# " << esc(d1.v.msg)
                        << "\n# found with VERIF_SEED=" << o.seed << "; event-log hash " << std::hex << d1.hash << std::dec
                        << "\n# replay: build/psim replay " << file << "\n"
                        << m.text();
    std::string cmd = self_path() + " replay -q " + file, out;
    FILE *f = popen(cmd.c_str(), "r");
    while (f && fgets(buf, sizeof buf, f)) out += buf;
    if (f) pclose(f);
    char want[64];
    snprintf(want, sizeof want, "hash=%016llx", (unsigned long long)d1.hash);
    if (!d1.violated || !d2.violated || d1.hash != d2.hash || out.find(want) == std::string::npos ||
        out.find("violated") == std::string::npos) {
      fprintf(stderr, "violation %s does not replay exactly: %d %d %016llx %016llx\n%s\n%s\n", cls.c_str(), d1.violated, d2.violated,
              (unsigned long long)d1.hash, (unsigned long long)d2.hash, out.c_str(), m.text().c_str());
      rc = 3;
    } else {
      printf("%s: %s\n(minimised in %d trials, replayed in a fresh process with the same hash)\n%s", d1.v.cls.c_str(),
             d1.v.msg.c_str(), tries, m.text().c_str());
      printf("VIOLATION property=%s replay=%s\n", p->id, file.c_str());
      rc = 1;
    }
  }
  if (rc != 3)
    for (auto &x : known)
      if (x.prop == o.prop) printf("KNOWN-FINDING: property=%s %s\n", x.prop.c_str(), x.text.c_str());
  if (const char *f = getenv("PSIM_COV")) { // return addresses of the blocks reached
    std::ofstream cv(f, std::ios::app);
    for (size_t i = 0; i < sizeof gShared->cov; i++)
      if (gShared->cov[i]) cv << std::hex << i + 0x400000 << "\n";
  }
  double wall = now() - t0;
  if (!o.noev) evidence(*p, o, wall, rc == 1, dir);
  printf("%s: %llu scenarios (%llu with faults, %llu skipped), %llu non-trivial, %llu simulated runs in %.1f s\n", p->id,
         (unsigned long long)T->scenarios, (unsigned long long)T->faulted, (unsigned long long)T->skipped,
         (unsigned long long)T->nontrivial, (unsigned long long)gShared->runs, wall);
  if (!rc && T->nontrivial == 0) {
    fprintf(stderr, "nothing non-trivial was explored\n");
    rc = 3;
  }
  return rc;
}

static int do_run(int argc, char **argv) { // debugging: one simulated process with arbitrary arguments
  sim_init_worker();
  Plan p;
  ProcSpec s;
  int i = 0;
  bool events = false;
  std::string cat;
  for (; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") {
      i++;
      break;
    }
    if (a == "--tools") s.prog = 1;
    else if (a == "--events") events = true;
    else if (a == "--unbuf") s.so = SO_UNBUF;
    else if (a == "--file") {
      std::string x = argv[++i];
      size_t q = x.find('=');
      p.files[x.substr(0, q)] = readfile(x.substr(q + 1));
    } else if (a == "--fault") {
      Fault f;
      if (!fault_parse(argv[++i], f)) {
        fprintf(stderr, "bad fault\n");
        return 2;
      }
      p.faults.push_back(f);
    } else if (a == "--salt") s.rng_salt = strtoull(argv[++i], nullptr, 10);
    else if (a == "--heap") s.heap_seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--bufsz") s.bufsz = atoi(argv[++i]);
    else if (a == "--budget") s.budget = strtoull(argv[++i], nullptr, 10);
    else if (a == "--ns") s.ns_per_tick = strtoull(argv[++i], nullptr, 10);
    else if (a == "--cat") cat = argv[++i];
    else {
      fprintf(stderr, "? %s\n", a.c_str());
      return 2;
    }
  }
  for (; i < argc; i++) s.args.push_back(argv[i]);
  p.phases.push_back({{s}});
  double t0 = now();
  RunResult r = run_plan(p);
  double t1 = now();
  auto &q = r.p[0];
  printf("%s\n", q.out.c_str());
  if (!q.err.empty()) printf("stderr: %s\n", q.err.c_str());
  printf("== %s %d ticks %llu ops %llu allocs %llu live %llu (%llu bytes) peak %llu fds %llu heap '%s' hash %016llx  %.4f s %s\n",
         kOutcomeName[q.outcome], q.code, (unsigned long long)q.ticks, (unsigned long long)q.ops, (unsigned long long)q.allocs,
         (unsigned long long)q.live_blocks, (unsigned long long)q.live_bytes, (unsigned long long)q.peak_bytes,
         (unsigned long long)q.leak_fds, q.heap_msg.c_str(), (unsigned long long)r.hash, t1 - t0, r.tool_msg.c_str());
  for (size_t k = 0; k < p.faults.size(); k++)
    printf("fault %zu fired %d pc %#llx\n", k, r.fired[k], (unsigned long long)r.fired_pc[k]);
  if (events)
    for (auto &e : q.ev)
      printf("%10llu op%-5llu %-8s ino %d res %lld a %llu %s\n", (unsigned long long)e.tick, (unsigned long long)e.n,
             kOpName[e.op], e.inode, (long long)e.res, (unsigned long long)e.a, esc(e.path).c_str());
  for (auto &d : r.disk) {
    printf("file %s (%zu bytes)\n", d.first.c_str(), d.second.size());
    if (d.first == cat) printf("%s\n", d.second.c_str());
  }
  return 0;
}
static int do_hashes(const Opt &o) { // print the hash of every scenario: compared across processes and job counts
  const Prop *p = find_prop(o.prop);
  if (!p) return 2;
  uint64_t n = o.count ? o.count : 16;
  std::vector<pid_t> kids;
  for (int w = 0; w < o.jobs; w++) {
    pid_t k = fork();
    if (!k) {
      sim_init_worker();
      for (uint64_t idx = (uint64_t)w; idx < n; idx += (uint64_t)o.jobs) {
        Ctx c;
        Rng r(family_seed(o.prop, o.seed, idx));
        std::vector<Scenario> fam;
        std::string out;
        try {
          p->gen(r, c, fam);
        } catch (Skip &) {}
        int j = 0;
        for (auto &s : fam) {
          s.prop = o.prop;
          Verdict d = evaluate(*p, s, c);
          char b[120];
          snprintf(b, sizeof b, "%s seed %llu family %llu/%d %016llx %d%s\n", o.prop.c_str(), (unsigned long long)o.seed,
                   (unsigned long long)idx, j++, (unsigned long long)d.hash, d.violated, d.tool ? " TOOL" : "");
          out += b;
        }
        if (write(1, out.data(), out.size()) < 0) {}
      }
      _exit(0);
    }
    kids.push_back(k);
  }
  for (pid_t q : kids) {
    int st;
    waitpid(q, &st, 0);
  }
  return 0;
}
int main(int argc, char **argv) {
  if (getenv("PSIM_TIGHT")) sim_lp_tight = 1;
  { // the same addresses every time: pointers left in uninitialised memory are part of an execution
    int was = personality(0xffffffff);
    if (was >= 0 && !(was & ADDR_NO_RANDOMIZE) && !getenv("PSIM_ASLR") &&
        personality((unsigned long)was | ADDR_NO_RANDOMIZE) >= 0) {
      setenv("PSIM_ASLR", "off", 1);
      execv("/proc/self/exe", argv);
    }
  }
  signal(SIGPIPE, SIG_IGN);
  sim_init_shared();
  T = (Tally *)mmap(nullptr, sizeof(Tally), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc < 2) {
    fprintf(stderr, "usage: psim check PROP | replay [-q] FILE | run ... | hashes PROP | gen PROP IDX\n");
    return 2;
  }
  std::string cmd = argv[1];
  if (cmd == "run") return do_run(argc - 2, argv + 2);
  if (cmd == "list") {
    for (auto &p : kProps) printf("%s %s\n", p.id, p.title);
    return 0;
  }
  if (cmd == "replay") {
    sim_init_worker();
    bool q = argc > 3 && !strcmp(argv[2], "-q");
    Scenario s;
    if (Scenario::parse(readfile(argv[argc - 1]), s)) to_san(s.prop, argv);
    return do_replay(argv[argc - 1], q);
  }
  if (cmd == "peer") {
    Scenario s;
    if (!getenv("PSIM_SCN") || !Scenario::parse(getenv("PSIM_SCN"), s)) return 2;
    sim_init_worker();
    return peer_main(s);
  }
  Opt o;
  const char *e;
  if ((e = getenv("VERIF_SEED"))) o.seed = strtoull(e, nullptr, 10);
  if ((e = getenv("VERIF_TIER"))) o.tier = e;
  o.prop = argc > 2 ? argv[2] : "";
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--seed") o.seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--tier") o.tier = argv[++i];
    else if (a == "--jobs") o.jobs = atoi(argv[++i]);
    else if (a == "--secs") o.secs = atof(argv[++i]);
    else if (a == "--count") o.count = strtoull(argv[++i], nullptr, 10);
    else if (a == "--noev") o.noev = true;
  }
  if (cmd != "gen") to_san(o.prop, argv);
  if (cmd == "check") return do_check(o);
  if (cmd == "hashes") return do_hashes(o);
  if (cmd == "gen") {
    const Prop *p = find_prop(o.prop);
    if (!p) return 2;
    sim_init_worker();
    Ctx c;
    Rng r(family_seed(o.prop, o.seed, o.count));
    std::vector<Scenario> fam;
    p->gen(r, c, fam);
    for (auto &s : fam) {
      s.prop = o.prop;
      printf("%s\n", s.text().c_str());
    }
    return 0;
  }
  return 2;
}
