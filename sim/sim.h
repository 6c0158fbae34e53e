// Deterministic simulator: everything the simulated process can observe of the outside
// world (disk, clock, signals, timers, pid, randomness, heap and stack garbage) is decided
// here from a Plan.  See ../DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

enum Action : int {
  A_NONE = 0,
  A_CRASH,
  A_SIGINT,
  A_SIGTERM,
  A_VTALRM,
  A_OPEN_FAIL,
  A_WRITE_ERR,
  A_WRITE_SHORT,
  A_DISK_FULL,
  A_CLOSE_ERR,
  A_READ_ERR,
  A_READ_SHORT,
  A_UNLINK_FAIL,
  A_RENAME_FAIL,
  A_ALLOC_FAIL,
  A_ALLOC_FAIL_FROM,
  A_CLOCK_JUMP,
  A_TIMES_FAIL,
  A_STALL,
  A_SYNC_ERR,
  A_STDOUT_ERR,
  A_COUNT
};
extern const char *kActionName[A_COUNT];

// trig: 't' = d basic blocks after seam operation n (n=0: after start)
//       'o' = seam operation n itself      'a' = allocation n
struct Fault {
  int proc = 0;
  char trig = 't';
  uint64_t n = 0;
  uint64_t d = 0;
  int act = A_NONE;
  int64_t arg = 0;
  bool operator==(const Fault &o) const {
    return proc == o.proc && trig == o.trig && n == o.n && d == o.d && act == o.act && arg == o.arg;
  }
};

enum StdoutMode { SO_UNBUF = 0, SO_LINE = 1, SO_FULL = 2 };

struct ProcSpec {
  int prog = 0;                  // 0 pomdp-solve, 1 pomdp-tools
  std::vector<std::string> args; // without argv[0]
  std::string in;                // standard input
  bool in_lines = false;         // ... delivered a line at a time
  int pid = 4242, ppid = 4000;
  uint64_t heap_seed = 1; // fills fresh and freed heap, stack garbage, layout
  uint64_t rng_salt = 0;  // 0: libc's own generators; else mixed into every draw
  uint64_t ns_per_tick = 1000;
  int64_t wall0 = 1000000000; // seconds at start
  int so = SO_FULL;
  int bufsz = 0; // stdio buffer of disk files, 0 = 4096
  int chunk = 0; // largest read delivery, 0 = unlimited
  bool zero_heap = false;
  bool no_reuse = false;          // never reuse freed blocks
  bool fence = false;             // every block ends at a page that cannot be accessed, freed blocks cannot be accessed
  uint64_t budget = 400000000ull; // basic blocks before it is declared hung
  bool snap = true;               // keep a copy of every committed file version
};

struct Phase {
  std::vector<ProcSpec> procs;
}; // more than one: interleaved by the scheduler
struct Plan {
  std::map<std::string, std::string> files;
  std::vector<Phase> phases;
  std::vector<Fault> faults; // Fault.proc counts procs across phases
  uint64_t sched_seed = 1;
  uint64_t disk_cap = 0; // bytes, 0 = 16 MB
};

enum Outcome {
  O_NONE = 0,
  O_EXIT,
  O_CRASH /*injected*/,
  O_SIGNAL /*simulated default action*/,
  O_ABORT,
  O_FATAL /*real fault: segv etc*/,
  O_HANG,
  O_TOOL /*machinery problem*/
};
extern const char *kOutcomeName[];

enum Op : int {
  OP_OPEN = 1,
  OP_READ,
  OP_WRITE,
  OP_CLOSE,
  OP_UNLINK,
  OP_RENAME,
  OP_SYNC,
  OP_SIGNAL,
  OP_TIMER,
  OP_TIMES,
  OP_OUT /*stdout*/,
  OP_ERR /*stderr*/,
  OP_FAULT,
  OP_EXIT,
  OP_DELIVER,
  OP_SEEK,
  OP_STAT,
  OP_IN
};
extern const char *kOpName[];

struct Ev {
  uint64_t tick;
  uint64_t n;
  int op;
  int inode;
  int64_t res;
  uint64_t a;
  uint64_t snap;
  uint32_t snaplen;
  uint32_t live;
  uint64_t liveb, allocs;
  char path[56];
};

struct ProcResult {
  int outcome = O_NONE;
  int code = 0;
  uint64_t ticks = 0, ops = 0, allocs = 0, live_blocks = 0, live_bytes = 0, peak_bytes = 0, leak_fds = 0;
  uint64_t user_ns = 0;
  std::string out, err;
  std::vector<Ev> ev;
  std::vector<std::string> snaps; // parallel to ev entries: content for committed versions ("" otherwise)
  std::string heap_msg;           // heap corruption, double free ... as seen by the simulated allocator
  uint64_t hash = 0;
  int max_open = 0;
  bool ok() const { return outcome == O_EXIT && code == 0; }
};
struct RunResult {
  std::vector<ProcResult> p;
  std::map<std::string, std::string> disk;
  std::vector<int> fired;         // per fault: times fired
  std::vector<uint64_t> fired_pc; // per fault: basic block where it fired first
  std::vector<int> fired_laspack; // per fault: that block is in the bundled laspack library
  uint64_t hash = 0;
  bool tool_error = false;
  std::string tool_msg;
};

std::string sim_first_build();         // path of psim beside psim-san
bool sim_san();                       // this is the second build (san_rt.cc)
extern "C" int sim_lp_tight;          // lpseam.c: LP solver with tighter tolerances (and more time)
struct LpTight {
  int was;
  LpTight() : was(sim_lp_tight) { sim_lp_tight = 1; }
  ~LpTight() { sim_lp_tight = was; }
};
RunResult run_plan(const Plan &p);
void sim_init_shared(); // once, before workers are forked (shared counters)
void sim_init_worker(); // once per worker

struct Shared { // across all workers
  uint64_t runs, procs, ticks, sim_ns, fired[A_COUNT], planned[A_COUNT], outcomes[16];
  uint64_t allocs, ops;
  uint8_t sites[1 << 20]; // hashed (action, basic block) states reached
  uint8_t cov[8 << 20];
};
extern Shared *gShared;

static inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull + b + 0x1234567;
  return splitmix(x);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u() { return splitmix(s); }
  uint64_t below(uint64_t n) { return n ? u() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return below(den) < (uint64_t)num; }
  double unit() { return (u() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
static inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
