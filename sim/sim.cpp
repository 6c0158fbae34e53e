#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/stat.h>
#include <sys/prctl.h>

const char *kActionName[A_COUNT] = {"none",        "crash",       "sigint",     "sigterm",         "vtalrm",     "open_fail",
                                    "write_err",   "write_short", "disk_full",  "close_err",       "read_err",   "read_short",
                                    "unlink_fail", "rename_fail", "alloc_fail", "alloc_fail_from", "clock_jump", "times_fail",
                                    "stall",       "sync_err",    "stdout_err"};
const char *kOutcomeName[] = {"none", "exit", "crash", "signal", "abort", "fatal", "hang", "tool"};
const char *kOpName[] = {"?",     "open", "read", "write", "close", "unlink",  "rename", "sync", "signal", "timer",
                         "times", "out",  "err",  "fault", "exit",  "deliver", "seek",   "stat", "in"};

static Shared beforeMain; // constructors of the second build run before main()
Shared *gShared = &beforeMain;

extern "C" int solve_main(int, char **);
extern "C" int tools_main(int, char **);

namespace {

const int MAXF = 320, MAXP = 8, MAXEV = 60000, MAXN = 400, MAXFAULT = 64;
const size_t ARENA = 384u << 20, OUTCAP = 1u << 20;
struct Inode {
  int used, nlink, opens;
  char *data;
  size_t len, cap;
};
struct Name {
  int ino;
  char path[240];
};
struct PRec {
  int outcome, code, alive;
  uint64_t ticks, ops, allocs, live_blocks, live_bytes, peak_bytes, leak_fds, user_ns, hash;
  int max_open;
  uint32_t nev;
  bool evover;
  size_t outlen, errlen;
  char heap_msg[160];
  char tool_msg[160];
  char out[OUTCAP], err[OUTCAP];
  Ev ev[MAXEV];
};
struct World {
  Inode ino[MAXF];
  Name name[MAXN];
  int nnames;
  size_t bump;
  uint64_t cap, used;
  int nf;
  Fault f[MAXFAULT];
  int fired[MAXFAULT];
  uint64_t fpc[MAXFAULT];
  bool concurrent;
  uint64_t sched;
  int nproc;
  int holder;
  PRec p[MAXP];
};
World *W;
char *arena;
int pipes[MAXP][2];

// ---------------------------------------------------------------- child state
bool in_child = false;
int me;
const ProcSpec *S;
PRec *R;
uint64_t g_tick, g_next = ~0ull, g_op, g_alloc;
struct Armed {
  int fi;
  uint64_t at;
};
Armed armed[MAXFAULT];
int narmed;
uint64_t timer_at = 0, timer_iv = 0;
int timer_sig = SIGVTALRM;
bool times_fail = false;
int64_t wall_off_ns = 0;
typedef void (*handler_t)(int);
handler_t handlers[65];
bool blocked[65], pending[65];
bool alloc_fail_from = false;
uint64_t lastpc;
void (*atexits[64])(void);
int natexit;
FILE *streams[256];
int nstreams;

[[noreturn]] void finish(int outcome, int code);
void tool(const char *m) {
  if (R) snprintf(R->tool_msg, sizeof R->tool_msg, "%s", m);
  finish(O_TOOL, 0);
}
char *ar_alloc(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (W->bump + n > ARENA) {
    if (in_child) tool("arena exhausted");
    abort();
  }
  char *p = arena + W->bump;
  W->bump += n;
  return p;
}

void hashmix(uint64_t v) {
  R->hash = (R->hash ^ v) * 1099511628211ull;
  R->hash ^= R->hash >> 29;
}
uint64_t cpu_ns() { return g_tick * S->ns_per_tick; }
Ev *ev(int op, int inode, int64_t res, uint64_t a, const char *path) {
  hashmix(op);
  hashmix(g_tick);
  hashmix((uint64_t)inode);
  hashmix((uint64_t)res);
  hashmix(a);
  hashmix(fnv(path, strlen(path)));
  if (R->nev >= MAXEV) {
    R->evover = true;
    static Ev dummy;
    return &dummy;
  }
  Ev *e = &R->ev[R->nev++];
  e->tick = g_tick;
  e->n = g_op;
  e->op = op;
  e->inode = inode;
  e->res = res;
  e->a = a;
  e->snap = 0;
  e->snaplen = 0;
  e->live = (uint32_t)R->live_blocks;
  e->liveb = R->live_bytes;
  e->allocs = g_alloc;
  strncpy(e->path, path, sizeof e->path - 1);
  e->path[sizeof e->path - 1] = 0;
  return e;
}
void snap_ino(Ev *e, int ino) {
  Inode &i = W->ino[ino];
  hashmix(fnv(i.data, i.len));
  if (!S->snap) return;
  char *p = ar_alloc(i.len + 1);
  memcpy(p, i.data, i.len);
  e->snap = (uint64_t)(p - arena) + 1;
  e->snaplen = (uint32_t)i.len;
}
uint64_t budget() { return sim_lp_tight ? S->budget * 8 : S->budget; }
void recompute() {
  uint64_t n = budget();
  for (int i = 0; i < narmed; i++)
    if (armed[i].at < n) n = armed[i].at;
  if (timer_at && timer_at < n) n = timer_at;
  g_next = n;
}
void fired(int fi, uint64_t pc) {
  if (!W->fired[fi]++) W->fpc[fi] = pc;
  __atomic_add_fetch(&gShared->fired[W->f[fi].act], 1, __ATOMIC_RELAXED);
  gShared->sites[(mix2(pc, W->f[fi].act) >> 7) & ((1 << 20) - 1)] = 1;
}
void deliver(int sig) {
  if (blocked[sig]) {
    pending[sig] = true;
    return;
  }
  ev(OP_DELIVER, sig, handlers[sig] == SIG_DFL ? 0 : handlers[sig] == SIG_IGN ? 2 : 1, 0, "signal");
  if (handlers[sig] == SIG_IGN) return;
  if (handlers[sig] == SIG_DFL) finish(O_SIGNAL, sig);
  blocked[sig] = true;
  handlers[sig](sig);
  blocked[sig] = false;
  if (pending[sig]) {
    pending[sig] = false;
    deliver(sig);
  }
}
void act_async(int fi, uint64_t pc) { // actions not tied to an operation's result
  Fault &f = W->f[fi];
  fired(fi, pc);
  ev(OP_FAULT, f.act, f.arg, 0, kActionName[f.act]);
  switch (f.act) {
  case A_CRASH:
    finish(O_CRASH, 0);
  case A_SIGINT:
    deliver(SIGINT);
    break;
  case A_SIGTERM:
    deliver(SIGTERM);
    break;
  case A_VTALRM:
    deliver(SIGVTALRM);
    break;
  case A_DISK_FULL:
    W->cap = W->used + (uint64_t)f.arg;
    break;
  case A_CLOCK_JUMP:
    wall_off_ns += f.arg * 1000000000ll;
    break;
  case A_STALL:
    wall_off_ns += f.arg * 1000000000ll;
    break;
  case A_TIMES_FAIL:
    times_fail = true;
    break;
  case A_ALLOC_FAIL_FROM:
    alloc_fail_from = true;
    break;
  default:
    break;
  }
}
void slow(uint64_t pc) {
  for (;;) {
    if (g_tick >= budget()) finish(O_HANG, 0);
    int k = -1;
    for (int i = 0; i < narmed; i++)
      if (armed[i].at <= g_tick) {
        k = i;
        break;
      }
    if (k >= 0) {
      int fi = armed[k].fi;
      armed[k] = armed[--narmed];
      recompute();
      act_async(fi, pc);
      continue;
    }
    if (timer_at && timer_at <= g_tick) {
      timer_at = timer_iv ? g_tick + timer_iv : 0;
      recompute();
      ev(OP_TIMER, timer_sig, 1, 0, "expire");
      deliver(timer_sig);
      continue;
    }
    break;
  }
  recompute();
}
bool is_async(int a) {
  return a == A_CRASH || a == A_SIGINT || a == A_SIGTERM || a == A_VTALRM || a == A_CLOCK_JUMP || a == A_TIMES_FAIL ||
         a == A_STALL || a == A_DISK_FULL || a == A_ALLOC_FAIL_FROM;
}
void arm_for_op() {
  bool any = false;
  for (int i = 0; i < W->nf; i++)
    if (W->f[i].proc == me && W->f[i].trig == 't' && W->f[i].n == g_op) {
      armed[narmed++] = {i, g_tick + W->f[i].d};
      any = true;
    }
  if (any) recompute();
}
void yield_token(bool exiting) {
  if (!W->concurrent) return;
  int alive[MAXP], n = 0;
  for (int i = 0; i < W->nproc; i++)
    if (R != &W->p[i] || !exiting)
      if (W->p[i].alive) alive[n++] = i;
  if (!n) return;
  int self = (int)(R - W->p);
  int nx = alive[splitmix(W->sched) % (uint64_t)n];
  if (nx == self) return;
  W->holder = nx;
  char c = 1;
  if (write(pipes[nx][1], &c, 1) != 1) _exit(97);
  if (!exiting) {
    if (read(pipes[self][0], &c, 1) != 1) _exit(98);
  }
}
// returns fault index applying to this operation or -1; runs asynchronous faults attached to the operation
int op_begin(int act_a, int act_b = -1, int act_c = -1) {
  yield_token(false);
  g_op++;
  int hit = -1;
  for (int i = 0; i < W->nf; i++) {
    Fault &f = W->f[i];
    if (f.proc != me || f.trig != 'o' || f.n != g_op) continue;
    if (is_async(f.act)) act_async(i, lastpc);
    else if (f.act == act_a || f.act == act_b || f.act == act_c) hit = i;
  }
  if (hit >= 0) fired(hit, lastpc);
  return hit;
}
void op_end() { arm_for_op(); }

struct Cookie {
  int ino;
  size_t pos;
  bool rd, wr, app;
  bool dirty;
  int kind; /*0 disk 1 stdout 2 stderr 3 stdin*/
  char path[240];
  FILE *f;
  char *buf;
};
Cookie *fds[128];
int open_count;

int find_name(const char *p) {
  while (p[0] == '.' && p[1] == '/') p += 2;
  for (int i = 0; i < W->nnames; i++)
    if (W->name[i].ino >= 0 && !strcmp(W->name[i].path, p)) return i;
  return -1;
}
const char *norm(const char *p) {
  while (p[0] == '.' && p[1] == '/') p += 2;
  return p;
}
int new_ino() {
  for (int i = 0; i < MAXF; i++)
    if (!W->ino[i].used) {
      memset(&W->ino[i], 0, sizeof(Inode));
      W->ino[i].used = 1;
      return i;
    }
  if (in_child) tool("too many inodes");
  abort();
}
int add_name(const char *p, int ino) {
  p = norm(p);
  int s = -1;
  for (int i = 0; i < W->nnames; i++)
    if (W->name[i].ino < 0) {
      s = i;
      break;
    }
  if (s < 0) {
    if (W->nnames >= MAXN) {
      if (in_child) tool("too many names");
      abort();
    }
    s = W->nnames++;
  }
  W->name[s].ino = ino;
  strncpy(W->name[s].path, p, 239);
  W->name[s].path[239] = 0;
  W->ino[ino].nlink++;
  return s;
}
void put_ino(int ino) {
  Inode &i = W->ino[ino];
  if (i.nlink <= 0 && i.opens <= 0) {
    W->used -= i.len;
    i.used = 0;
  }
}
void drop_name(int n) {
  int ino = W->name[n].ino;
  W->name[n].ino = -1;
  W->ino[ino].nlink--;
  put_ino(ino);
}
size_t ino_write(int ino, size_t pos, const char *b, size_t n) { // returns bytes that fitted
  Inode &i = W->ino[ino];
  size_t end = pos + n;
  if (end > i.len) {
    uint64_t grow = end - i.len;
    if (W->used + grow > W->cap) {
      uint64_t room = W->cap > W->used ? W->cap - W->used : 0;
      if (i.len + room <= pos) return 0;
      n = i.len + room - pos;
      end = pos + n;
    }
  }
  if (end > i.cap) {
    size_t nc = i.cap ? i.cap * 2 : 4096;
    while (nc < end) nc *= 2;
    char *d = ar_alloc(nc);
    if (i.len) memcpy(d, i.data, i.len);
    i.data = d;
    i.cap = nc;
  }
  if (pos > i.len) memset(i.data + i.len, 0, pos - i.len);
  memcpy(i.data + pos, b, n);
  if (end > i.len) {
    W->used += end - i.len;
    i.len = end;
  }
  return n;
}
int fail_errno(Fault &f, int dflt) { return f.arg > 0 && f.arg < 200 ? (int)f.arg : dflt; }

// open path; returns cookie or null with errno
Cookie *do_open(const char *path, bool rd, bool wr, bool creat_, bool trunc, bool app, bool excl) {
  path = norm(path);
  int fi = op_begin(A_OPEN_FAIL);
  Cookie *c = nullptr;
  int err = 0, ino = -1;
  if (fi >= 0) err = fail_errno(W->f[fi], EACCES);
  else {
    int n = find_name(path);
    if (n >= 0 && excl) err = EEXIST;
    else if (n < 0 && !creat_) err = ENOENT;
    else if (!path[0]) err = ENOENT;
    else if (strlen(path) >= 240) err = ENAMETOOLONG;
    else if (strchr(path, '/') && wr && n < 0 && strncmp(path, "out/", 4))
      err = ENOENT; // only one directory exists besides the current one
    else {
      if (n < 0) {
        ino = new_ino();
        add_name(path, ino);
      } else ino = W->name[n].ino;
      if (trunc) {
        W->used -= W->ino[ino].len;
        W->ino[ino].len = 0;
      }
      c = (Cookie *)calloc(1, sizeof(Cookie));
      c->ino = ino;
      c->rd = rd;
      c->wr = wr;
      c->app = app;
      c->dirty = trunc;
      strcpy(c->path, path);
      W->ino[ino].opens++;
      open_count++;
      if (open_count > R->max_open) R->max_open = open_count;
    }
  }
  ev(OP_OPEN, ino, c ? 0 : -err, (rd ? 1 : 0) | (wr ? 2 : 0) | (trunc ? 4 : 0) | (app ? 8 : 0), path);
  op_end();
  errno = err;
  return c;
}
ssize_t do_write(Cookie *c, const char *b, size_t n) {
  if (c->kind == 1 || c->kind == 2) {
    if (c->kind == 1)
      for (int i = 0; i < W->nf; i++)
        if (W->f[i].proc == me && W->f[i].act == A_STDOUT_ERR && R->outlen >= (uint64_t)W->f[i].n) {
          if (!W->fired[i]) fired(i, lastpc);
          errno = (int)W->f[i].arg ? (int)W->f[i].arg : EPIPE;
          return 0;
        }
    char *buf = c->kind == 1 ? R->out : R->err;
    size_t &len = c->kind == 1 ? R->outlen : R->errlen;
    Ev *e = ev(c->kind == 1 ? OP_OUT : OP_ERR, -1, (int64_t)n, len, "");
    hashmix(fnv(b, n));
    e->snap = 0;
    {
      size_t m = n < sizeof e->path - 1 ? n : sizeof e->path - 1;
      memcpy(e->path, b, m);
      e->path[m] = 0;
    }
    size_t room = OUTCAP - len;
    memcpy(buf + len, b, n < room ? n : room);
    len += n < room ? n : room;
    return (ssize_t)n;
  }
  int fi = op_begin(A_WRITE_ERR, A_WRITE_SHORT);
  size_t todo = n, done = 0;
  int err = 0;
  bool failed = false;
  if (c->app) c->pos = W->ino[c->ino].len;
  if (fi >= 0) {
    Fault &f = W->f[fi];
    size_t k = n ? (size_t)((f.arg >> 8) % (int64_t)(n + 1)) : 0;
    if (f.act == A_WRITE_ERR) {
      todo = k >= n ? (n ? n - 1 : 0) : k;
      failed = true;
      err = (f.arg & 255) ? (int)(f.arg & 255) : EIO;
    } else {
      done = ino_write(c->ino, c->pos, b, k);
      c->pos += done;
      c->dirty = true;
      ev(OP_WRITE, c->ino, (int64_t)done, c->pos, c->path);
      hashmix(fnv(b, done));
      op_end();
      g_op++;
    }
  }
  if (done < todo) {
    size_t w = ino_write(c->ino, c->pos, b + done, todo - done);
    if (w < todo - done) {
      failed = true;
      err = ENOSPC;
      for (int i = 0; i < W->nf; i++)
        if (W->f[i].act == A_DISK_FULL && W->fired[i]) W->fired[i]++;
    }
    c->pos += w;
    done += w;
  }
  c->dirty = true;
  ev(OP_WRITE, c->ino, failed ? -err : (int64_t)done, c->pos, c->path);
  hashmix(fnv(b, done));
  op_end();
  errno = err;
  return (ssize_t)done; // less than n means error
}
ssize_t do_read(Cookie *c, char *b, size_t n) {
  if (c->kind == 3) {
    int fi = op_begin(A_READ_ERR, A_READ_SHORT);
    if (fi >= 0 && W->f[fi].act == A_READ_ERR) {
      int e = fail_errno(W->f[fi], EIO);
      ev(OP_IN, -1, -e, c->pos, "<stdin>");
      op_end();
      errno = e;
      return -1;
    }
    size_t len = S->in.size();
    size_t k = c->pos < len ? len - c->pos : 0;
    if (k > n) k = n;
    if (S->in_lines) { // the other side sends a line and waits for the answer
      const char *nl = k ? (const char *)memchr(S->in.data() + c->pos, '\n', k) : nullptr;
      if (nl) k = (size_t)(nl - (S->in.data() + c->pos)) + 1;
    }
    if (fi >= 0 && k > 1) {
      size_t m = (size_t)W->f[fi].arg % k;
      k = m ? m : 1;
    }
    if (S->chunk > 0 && k > (size_t)S->chunk) k = (size_t)S->chunk;
    memcpy(b, S->in.data() + c->pos, k);
    c->pos += k;
    ev(OP_IN, -1, (int64_t)k, c->pos, "<stdin>");
    op_end();
    return (ssize_t)k;
  }
  int fi = op_begin(A_READ_ERR, A_READ_SHORT);
  Inode &i = W->ino[c->ino];
  size_t k = c->pos < i.len ? i.len - c->pos : 0;
  if (k > n) k = n;
  if (fi >= 0 && W->f[fi].act == A_READ_ERR) {
    int e = fail_errno(W->f[fi], EIO);
    ev(OP_READ, c->ino, -e, c->pos, c->path);
    op_end();
    errno = e;
    return -1;
  }
  if (fi >= 0 && k > 1) {
    size_t m = (size_t)W->f[fi].arg % k;
    k = m ? m : 1;
  }
  if (S->chunk > 0 && k > (size_t)S->chunk) k = (size_t)S->chunk;
  memcpy(b, i.data + c->pos, k);
  c->pos += k;
  ev(OP_READ, c->ino, (int64_t)k, c->pos, c->path);
  op_end();
  return (ssize_t)k;
}
int do_close(Cookie *c) {
  if (c->kind) { return 0; }
  int fi = op_begin(A_CLOSE_ERR);
  int err = 0;
  if (fi >= 0) {
    err = fail_errno(W->f[fi], EIO);
    Inode &i = W->ino[c->ino];
    if (c->wr && c->dirty && i.len) {
      W->used -= i.len - i.len / 2;
      i.len /= 2;
    }
  } // delayed allocation failed: the tail never reached the disk
  Ev *e = ev(OP_CLOSE, c->ino, -err, c->wr && c->dirty, c->path);
  if (c->wr && c->dirty) snap_ino(e, c->ino);
  W->ino[c->ino].opens--;
  open_count--;
  put_ino(c->ino);
  op_end();
  free(c);
  errno = err;
  return err ? -1 : 0;
}

ssize_t ck_read(void *v, char *b, size_t n) { return do_read((Cookie *)v, b, n); }
ssize_t ck_write(void *v, const char *b, size_t n) { return do_write((Cookie *)v, b, n); }
int ck_seek(void *v, off64_t *o, int wh) {
  Cookie *c = (Cookie *)v;
  if (c->kind) return -1;
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)c->pos : (int64_t)W->ino[c->ino].len;
  base += *o;
  if (base < 0) {
    errno = EINVAL;
    return -1;
  }
  c->pos = (size_t)base;
  *o = base;
  return 0;
}
int ck_close(void *v) {
  Cookie *c = (Cookie *)v;
  for (int i = 0; i < 128; i++)
    if (fds[i] == c) fds[i] = nullptr;
  return do_close(c);
}
FILE *wrap(Cookie *c, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie(c, mode, io);
  c->f = f;
  int bs = S->bufsz ? S->bufsz : 4096;
  if (!c->kind) {
    c->buf = (char *)malloc((size_t)bs);
    setvbuf(f, c->buf, _IOFBF, (size_t)bs);
  }
  if (nstreams < 256) streams[nstreams++] = f;
  return f;
}
void forget(FILE *f) {
  for (int i = 0; i < nstreams; i++)
    if (streams[i] == f) {
      streams[i] = streams[--nstreams];
      return;
    }
}

[[noreturn]] void finish(int outcome, int code) {
  R->outcome = outcome;
  R->code = code;
  R->ticks = g_tick;
  R->ops = g_op;
  R->allocs = g_alloc;
  R->user_ns = S ? cpu_ns() : 0;
  R->leak_fds = (uint64_t)open_count;
  R->alive = 0;
  ev(OP_EXIT, outcome, code, 0, kOutcomeName[outcome]);
  yield_token(true);
  _exit(0);
}
void heap_sweep();
[[noreturn]] void leave(int code) {
  static bool inexit = false;
  if (!inexit) {
    inexit = true;
    while (natexit) atexits[--natexit]();
    for (int i = 0; i < nstreams; i++) fflush(streams[i]);
  }
  heap_sweep();
  finish(O_EXIT, code & 255);
}

// ---------------------------------------------------------------- heap
char *const HEAP = (char *)0x200000000000ull;
const size_t HEAPSZ = 3ull << 30;
size_t heap_top;
struct Hdr {
  uint32_t magic;
  uint32_t cls;
  uint64_t size;
}; // 16 bytes
const uint32_t LIVE = 0x5ca1ab1e, DEAD = 0xdeadf00d;
char *freel[600];
uint64_t hs;
void heapmsg(const char *m, uint64_t sz) {
  if (!R->heap_msg[0])
    snprintf(R->heap_msg, sizeof R->heap_msg, "%s (block of %llu bytes, tick %llu)", m, (unsigned long long)sz,
             (unsigned long long)g_tick);
}
int cls_of(size_t n, size_t &cap) { // n excludes header
  size_t q = (n + 8 + 15) / 16;
  if (q == 0) q = 1;
  if (q <= 512) {
    cap = q * 16;
    return (int)q;
  }
  int k = 513;
  size_t c = 16384;
  while (c < n + 8) {
    c *= 2;
    k++;
  }
  cap = c;
  return k;
}
void garbage(char *p, size_t n) {
  if (S->zero_heap) {
    memset(p, 0, n);
    return;
  }
  if (n > 65536) n = 65536;
  uint64_t x = hs;
  uint64_t *q = (uint64_t *)p;
  size_t w = n / 8;
  for (size_t i = 0; i < w; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t v = x ^ (x >> 31);
    q[i] = v;
  }
  for (size_t i = w * 8; i < n; i++) p[i] = (char)x;
  hs = x;
}
// what a new block holds: anything, nothing but zero bytes, or words of either kind
void fresh(char *p, size_t n) {
  int mode = (int)(S->heap_seed >> 3 & 3);
  garbage(p, n);
  if (mode < 2 || n > 65536) return;
  if (mode == 2) {
    memset(p, 0, n);
    return;
  }
  uint32_t *q = (uint32_t *)p;
  uint64_t x = hs;
  for (size_t i = 0; i < n / 4; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    if (x >> 63) q[i] = 0;
  }
}
const uint64_t CANARY = 0xC3A5C85C97CB3127ull;
void put_canary(char *u, size_t n) { memcpy(u + n, &CANARY, 8); }
bool canary_ok(char *u, size_t n) { return !memcmp(u + n, &CANARY, 8); }
// a freed block holds the free-list link, the seed of its filling, then the filling
bool dead_ok(char *b) {
  Hdr *h = (Hdr *)b;
  if (h->magic != DEAD) return false;
  char *u = b + sizeof(Hdr), *nx;
  memcpy(&nx, u, 8);
  if (nx && (nx < HEAP || nx >= HEAP + heap_top)) return false;
  size_t n = h->size;
  if (n <= 16 || S->zero_heap) return true;
  if (n > 65536) n = 65536;
  uint64_t x, v;
  memcpy(&x, u + 8, 8);
  for (size_t i = 0; i < n / 8; i++) {
    x = x * 6364136223846793005ull + 1442695040888963407ull;
    v = x ^ (x >> 31);
    if (i >= 2 && memcmp(u + i * 8, &v, 8)) return false;
  }
  return true;
}
// the second build (san_rt.cc); absent from the first one
extern "C" {
void san_start() __attribute__((weak));
void san_heap(char *from, char *block, size_t n) __attribute__((weak));
}
// fenced blocks: [spare bytes][header][block] | page that cannot be accessed
char *const FENCE = (char *)0x210000000000ull;
const size_t PG = 4096, FENCEPG = 4u << 20; // 16 GB of address space, never reused
size_t fence_top;
uint32_t fence_live[FENCEPG]; // pages of the live block starting here
void *fence_alloc(size_t n) {
  size_t np = (n + sizeof(Hdr) + PG - 1) / PG;
  if (fence_top + np + 1 > FENCEPG) return nullptr;
  char *b = FENCE + fence_top * PG;
  if (mprotect(b, np * PG, PROT_READ | PROT_WRITE)) return nullptr;
  fence_live[fence_top] = (uint32_t)np;
  fence_top += np + 1;
  char *u = b + np * PG - n;
  Hdr h = {LIVE, (uint32_t)np, n};
  memcpy(u - sizeof h, &h, sizeof h);
  if (san_heap) san_heap(b, u, n);
  return u;
}
bool fence_free(char *u) {
  size_t pg = (size_t)(u - FENCE - (ptrdiff_t)sizeof(Hdr)) / PG;
  Hdr h;
  if (!fence_live[pg]) {
    heapmsg("double free or free of an invalid pointer", 0);
    return false;
  }
  memcpy(&h, u - sizeof h, sizeof h);
  if (h.magic != LIVE || h.cls != fence_live[pg] || u + h.size != FENCE + (pg + h.cls) * PG) {
    heapmsg("free of a corrupted or invalid pointer", 0);
    return false;
  }
  R->live_blocks--;
  R->live_bytes -= h.size;
  fence_live[pg] = 0;
  mmap(FENCE + pg * PG, h.cls * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  return true;
}
void *h_alloc(size_t n) {
  if (n > (1ull << 30)) return nullptr;
  if (S->fence)
    if (char *u = (char *)fence_alloc(n)) {
      fresh(u, n);
      R->live_blocks++;
      R->live_bytes += n;
      if (R->live_bytes > R->peak_bytes) R->peak_bytes = R->live_bytes;
      return u;
    }
  size_t cap;
  int k = cls_of(n, cap);
  char *b;
  if (freel[k] && !S->no_reuse) {
    b = freel[k];
    if (!dead_ok(b)) {
      heapmsg("write to a freed block", ((Hdr *)b)->size);
      freel[k] = nullptr;
    } else memcpy(&freel[k], b + sizeof(Hdr), sizeof(char *));
  } else {
    if (heap_top + cap + sizeof(Hdr) > HEAPSZ) return nullptr;
    b = HEAP + heap_top;
    heap_top += cap + sizeof(Hdr);
    if (S->heap_seed & 1) heap_top += ((splitmix(hs)) & 3) * 16;
  }
  Hdr *h = (Hdr *)b;
  h->magic = LIVE;
  h->cls = (uint32_t)k;
  h->size = n;
  char *u = b + sizeof(Hdr);
  fresh(u, n);
  put_canary(u, n);
  R->live_blocks++;
  R->live_bytes += n;
  if (R->live_bytes > R->peak_bytes) R->peak_bytes = R->live_bytes;
  return u;
}
bool alloc_should_fail() {
  g_alloc++;
  if (alloc_fail_from) return true;
  bool fl = false;
  for (int i = 0; i < W->nf; i++) {
    Fault &f = W->f[i];
    if (f.proc != me || f.trig != 'a') continue;
    if (f.act == A_ALLOC_FAIL && f.n == g_alloc) {
      fired(i, lastpc);
      fl = true;
    } else if (f.act == A_ALLOC_FAIL_FROM && g_alloc >= f.n) {
      fired(i, lastpc);
      alloc_fail_from = true;
      fl = true;
    } else if (is_async(f.act) && f.n == g_alloc) act_async(i, lastpc);
  }
  return fl;
}
void h_free(void *p) {
  if (!p) return;
  char *u = (char *)p;
  if (u >= FENCE && u <= FENCE + FENCEPG * PG) {
    fence_free(u);
    return;
  }
  if (u < HEAP || u >= HEAP + heap_top) {
    heapmsg("free of a pointer not from the heap", 0);
    return;
  }
  Hdr *h = (Hdr *)(u - sizeof(Hdr));
  if (h->magic == DEAD) {
    heapmsg("double free", h->size);
    return;
  }
  if (h->magic != LIVE) {
    heapmsg("free of a corrupted or invalid pointer", 0);
    return;
  }
  if (!canary_ok(u, h->size)) heapmsg("write past the end of a block", h->size);
  R->live_blocks--;
  R->live_bytes -= h->size;
  size_t n = h->size;
  uint64_t seed = hs;
  garbage(u, n);
  h->magic = DEAD;
  char *b = u - sizeof(Hdr);
  int k = (int)h->cls;
  memcpy(u, &freel[k], sizeof(char *));
  memcpy(u + 8, &seed, 8);
  freel[k] = b;
}
// every block on a free list must still be as it was left (called when the program ends by itself)
void heap_sweep() {
  for (int k = 0; k < 600; k++) {
    int n = 0;
    for (char *b = freel[k]; b && n < 100000; n++) {
      if (!dead_ok(b)) {
        heapmsg("write to a freed block", ((Hdr *)b)->size);
        break;
      }
      memcpy(&b, b + sizeof(Hdr), 8);
    }
  }
}
} // namespace

bool sim_san() { return san_start != nullptr; }
extern "C" {
void sim_mem_error(const char *what, uintptr_t pc) {
  if (!in_child || R->heap_msg[0]) return;
  char m[120];
  snprintf(m, sizeof m, "%s at %#llx", what, (unsigned long long)pc);
  heapmsg(m, 0);
}
__attribute__((no_instrument_function)) void __sanitizer_cov_trace_pc(void) {
  uint64_t pc = (uint64_t)__builtin_return_address(0);
  lastpc = pc;
  gShared->cov[(pc - 0x400000) & ((8u << 20) - 1)] = 1;
  if (__builtin_expect(++g_tick >= g_next, 0)) {
    if (in_child) slow(pc);
  }
}
void *sim_malloc(size_t n) {
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = h_alloc(n);
  if (!p) errno = ENOMEM;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  if (b && a > (1ull << 30) / b) {
    errno = ENOMEM;
    return nullptr;
  }
  void *p = h_alloc(a * b);
  if (!p) {
    errno = ENOMEM;
    return nullptr;
  }
  memset(p, 0, a * b);
  return p;
}
void sim_free(void *p) { h_free(p); }
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  Hdr h;
  memcpy(&h, (char *)p - sizeof h, sizeof h);
  size_t o = h.size;
  void *q = h_alloc(n);
  if (!q) {
    errno = ENOMEM;
    return nullptr;
  }
  memcpy(q, p, o < n ? o : n);
  h_free(p);
  return q;
}
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
char *sim_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = (char *)sim_malloc(n + 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}

FILE *sim_fopen(const char *path, const char *mode) {
  bool plus = strchr(mode, '+');
  char m = mode[0];
  Cookie *c = do_open(path, m == 'r' || plus, m != 'r' || plus, m != 'r', m == 'w', m == 'a', strchr(mode, 'x'));
  if (!c) return nullptr;
  int e = errno;
  FILE *f = wrap(c, mode);
  errno = e;
  return f;
}
int sim_fclose(FILE *f) {
  forget(f);
  return fclose(f);
}
FILE *sim_freopen(const char *path, const char *mode, FILE *f) {
  forget(f);
  FILE *n = sim_fopen(path, mode);
  if (!n) { return nullptr; }
  if (f == stdout) {
    stdout = n;
  } else if (f == stderr) {
    stderr = n;
  } else tool("freopen of a plain stream");
  return n;
}
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { return setvbuf(f, b, m, n); }
static int newfd(Cookie *c) {
  for (int i = 0; i < 128; i++)
    if (!fds[i]) {
      fds[i] = c;
      return 1000 + i;
    }
  errno = EMFILE;
  return -1;
}
int sim_fileno(FILE *f) {
  if (f == stdin) return 0;
  if (f == stdout) return 1;
  if (f == stderr) return 2;
  for (int i = 0; i < 128; i++)
    if (fds[i] && fds[i]->f == f) return 1000 + i;
  for (int i = 0; i < nstreams; i++)
    if (streams[i] == f) {
      static Cookie marks[128];
      for (int k = 0; k < 128; k++)
        if (!fds[k]) {
          marks[k].f = f;
          marks[k].kind = 9;
          fds[k] = &marks[k];
          return 1000 + k;
        }
    }
  errno = EBADF;
  return -1;
}
int sim_isatty(int) {
  errno = ENOTTY;
  return 0;
}
int sim_open(const char *p, int fl, ...) {
  int acc = fl & O_ACCMODE;
  Cookie *c =
      do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, (fl & O_EXCL) && (fl & O_CREAT));
  if (!c) return -1;
  return newfd(c);
}
int sim_creat(const char *p, mode_t) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC); }
static Cookie *fdc(int fd) {
  if (fd < 1000 || fd >= 1128 || !fds[fd - 1000]) {
    errno = EBADF;
    return nullptr;
  }
  return fds[fd - 1000];
}
ssize_t sim_write(int fd, const void *b, size_t n) {
  if (fd == 1 || fd == 2) {
    static Cookie o, e;
    o.kind = 1;
    e.kind = 2;
    return do_write(fd == 1 ? &o : &e, (const char *)b, n);
  }
  Cookie *c = fdc(fd);
  if (!c) return -1;
  ssize_t w = do_write(c, (const char *)b, n);
  return w < (ssize_t)n && w == 0 && n ? -1 : w;
}
ssize_t sim_read(int fd, void *b, size_t n) {
  if (fd == 0) {
    static Cookie s;
    s.kind = 3;
    return do_read(&s, (char *)b, n);
  }
  Cookie *c = fdc(fd);
  if (!c) return -1;
  return do_read(c, (char *)b, n);
}
int sim_close(int fd) {
  Cookie *c = fdc(fd);
  if (!c) return fd <= 2 ? 0 : -1;
  fds[fd - 1000] = nullptr;
  return do_close(c);
}
off_t sim_lseek(int fd, off_t o, int wh) {
  Cookie *c = fdc(fd);
  if (!c) return -1;
  off64_t x = o;
  if (ck_seek(c, &x, wh)) return -1;
  return (off_t)x;
}
FILE *sim_fdopen(int fd, const char *mode) {
  Cookie *c = fdc(fd);
  if (!c) return nullptr;
  return wrap(c, mode);
}
static int do_sync(const char *p) {
  int fi = op_begin(A_SYNC_ERR);
  int err = fi >= 0 ? EIO : 0;
  ev(OP_SYNC, -1, -err, 0, p);
  op_end();
  errno = err;
  return err ? -1 : 0;
}
int sim_fsync(int) { return do_sync("fsync"); }
int sim_fdatasync(int) { return do_sync("fdatasync"); }
void sim_sync(void) { do_sync("sync"); }
int sim_unlink(const char *p) {
  p = norm(p);
  int fi = op_begin(A_UNLINK_FAIL);
  int n = find_name(p), err = 0;
  if (fi >= 0) err = fail_errno(W->f[fi], EACCES);
  else if (n < 0) err = ENOENT;
  int ino = n >= 0 ? W->name[n].ino : -1;
  if (!err) drop_name(n);
  ev(OP_UNLINK, ino, -err, 0, p);
  op_end();
  errno = err;
  return err ? -1 : 0;
}
int sim_remove(const char *p) { return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
  a = norm(a);
  b = norm(b);
  int fi = op_begin(A_RENAME_FAIL);
  int n = find_name(a), err = 0, src = n >= 0 ? W->name[n].ino : -1;
  Ev *e;
  if (fi >= 0) err = fail_errno(W->f[fi], EACCES);
  else if (n < 0) err = ENOENT;
  else {
    int ino = W->name[n].ino;
    int t = find_name(b);
    if (t != n) {
      if (t >= 0) drop_name(t);
      W->ino[ino].opens++;
      drop_name(n);
      add_name(b, ino);
      W->ino[ino].opens--;
    }
  }
  e = ev(OP_RENAME, src, -err, 0, b);
  if (!err) snap_ino(e, W->name[find_name(b)].ino);
  op_end();
  errno = err;
  return err ? -1 : 0;
}
int sim_link(const char *a, const char *b) {
  a = norm(a);
  b = norm(b);
  op_begin(A_RENAME_FAIL);
  int n = find_name(a), err = 0;
  if (n < 0) err = ENOENT;
  else if (find_name(b) >= 0) err = EEXIST;
  else add_name(b, W->name[n].ino);
  ev(OP_RENAME, n, -err, 1, b);
  op_end();
  errno = err;
  return err ? -1 : 0;
}
int sim_access(const char *p, int) {
  p = norm(p);
  op_begin(-1);
  int n = find_name(p);
  ev(OP_STAT, n, n < 0 ? -ENOENT : 0, 0, p);
  op_end();
  if (n < 0) {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
static int fillstat(int ino, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644;
  st->st_ino = (ino_t)(ino + 10);
  st->st_nlink = 1;
  st->st_size = (off_t)W->ino[ino].len;
  st->st_blksize = 4096;
  return 0;
}
int sim_stat(const char *p, struct stat *st) {
  p = norm(p);
  op_begin(-1);
  int n = find_name(p);
  ev(OP_STAT, n, n < 0 ? -ENOENT : 0, 0, p);
  op_end();
  if (n < 0) {
    errno = ENOENT;
    return -1;
  }
  return fillstat(W->name[n].ino, st);
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
  Cookie *c = fdc(fd);
  if (!c) return -1;
  if (c->kind == 9) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG;
    return 0;
  }
  return fillstat(c->ino, st);
}
int sim_ftruncate(int fd, off_t len) {
  Cookie *c = fdc(fd);
  if (!c) return -1;
  op_begin(A_WRITE_ERR);
  Inode &i = W->ino[c->ino];
  if ((size_t)len < i.len) {
    W->used -= i.len - (size_t)len;
    i.len = (size_t)len;
  }
  c->dirty = true;
  ev(OP_WRITE, c->ino, 0, (uint64_t)len, c->path);
  op_end();
  return 0;
}
int sim_mkstemp(char *t) {
  size_t n = strlen(t);
  if (n < 6) {
    errno = EINVAL;
    return -1;
  }
  for (int k = 0; k < 1000; k++) {
    snprintf(t + n - 6, 7, "%c%05d", 'a' + (S->pid % 26), k);
    if (find_name(t) < 0) return sim_open(t, O_RDWR | O_CREAT | O_EXCL);
  }
  errno = EEXIST;
  return -1;
}
FILE *sim_tmpfile(void) { tool("tmpfile"); }
int sim_chmod(const char *, mode_t) { return 0; }
int sim_fchmod(int, mode_t) { return 0; }

int sim_setitimer(int which, const struct itimerval *nv, struct itimerval *ov) {
  if (ov) memset(ov, 0, sizeof *ov);
  uint64_t ns = (uint64_t)nv->it_value.tv_sec * 1000000000ull + (uint64_t)nv->it_value.tv_usec * 1000ull,
           iv = (uint64_t)nv->it_interval.tv_sec * 1000000000ull + (uint64_t)nv->it_interval.tv_usec * 1000ull;
  g_op++;
  ev(OP_TIMER, which, 0, ns, "set");
  timer_sig = which == ITIMER_VIRTUAL ? SIGVTALRM : which == ITIMER_PROF ? SIGPROF : SIGALRM;
  timer_at = ns ? g_tick + ns / S->ns_per_tick + 1 : 0;
  timer_iv = iv ? iv / S->ns_per_tick + 1 : 0;
  recompute();
  arm_for_op();
  return 0;
}
unsigned sim_alarm(unsigned s) {
  struct itimerval v;
  memset(&v, 0, sizeof v);
  v.it_value.tv_sec = s;
  sim_setitimer(ITIMER_REAL, &v, nullptr);
  return 0;
}
handler_t sim_signal(int sig, handler_t h) {
  g_op++;
  handler_t o = handlers[sig];
  handlers[sig] = h;
  ev(OP_SIGNAL, sig, h == SIG_DFL ? 0 : h == SIG_IGN ? 1 : 2, 0, "signal");
  arm_for_op();
  return o;
}
int sim_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
  if (o) {
    memset(o, 0, sizeof *o);
    o->sa_handler = handlers[sig];
  }
  if (n) sim_signal(sig, n->sa_handler);
  return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) {
  if (o) {
    sigemptyset(o);
    for (int i = 1; i < 65; i++)
      if (blocked[i]) sigaddset(o, i);
  }
  if (s)
    for (int i = 1; i < 65; i++) {
      bool in = sigismember(s, i) == 1;
      if (how == SIG_BLOCK) blocked[i] |= in;
      else if (how == SIG_UNBLOCK) blocked[i] = blocked[i] && !in;
      else blocked[i] = in;
      if (!blocked[i] && pending[i]) {
        pending[i] = false;
        deliver(i);
      }
    }
  return 0;
}
int sim_raise(int sig) {
  deliver(sig);
  return 0;
}
int sim_kill(pid_t p, int sig) {
  if (p == S->pid) deliver(sig);
  return 0;
}
void sim_abort(void) {
  for (int i = 0; i < 0; i++);
  finish(O_ABORT, 0);
}
void sim_assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
  fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", f, l, fn, a);
  finish(O_ABORT, 0);
}
void sim_stack_chk_fail(void) {
  heapmsg("write past the end of an array on the stack", 0);
  R->outcome = O_FATAL;
  finish(O_FATAL, SIGABRT);
}
void sim_exit(int c) { leave(c); }
void sim__exit(int c) { finish(O_EXIT, c & 255); }
int sim_atexit(void (*f)(void)) {
  if (natexit < 64) {
    atexits[natexit++] = f;
    return 0;
  }
  return -1;
}

static int64_t wall_ns() { return S->wall0 * 1000000000ll + (int64_t)cpu_ns() + wall_off_ns; }
clock_t sim_times(struct tms *t) {
  g_op++;
  uint64_t c = cpu_ns() / 10000000ull;
  memset(t, 0, sizeof *t);
  t->tms_utime = (clock_t)(c - c / 16);
  t->tms_stime = (clock_t)(c / 16); // a fault here: the tick counter wraps, and -1 comes back although all is well
  ev(OP_TIMES, 0, times_fail ? -1 : 0, c, "times");
  arm_for_op();
  return times_fail ? (clock_t)-1 : (clock_t)(wall_ns() / 10000000ll);
}
int sim_gettimeofday(struct timeval *t, void *) {
  int64_t n = wall_ns();
  t->tv_sec = n / 1000000000ll;
  t->tv_usec = (n % 1000000000ll) / 1000;
  return 0;
}
time_t sim_time(time_t *t) {
  time_t x = (time_t)(wall_ns() / 1000000000ll);
  if (t) *t = x;
  return x;
}
clock_t sim_clock(void) { return (clock_t)(cpu_ns() / 1000); }
int sim_clock_gettime(clockid_t id, struct timespec *t) {
  int64_t n = id == CLOCK_PROCESS_CPUTIME_ID ? (int64_t)cpu_ns() : wall_ns();
  t->tv_sec = n / 1000000000ll;
  t->tv_nsec = n % 1000000000ll;
  return 0;
}
int sim_getrusage(int, void *r) {
  memset(r, 0, 144);
  struct timeval *tv = (struct timeval *)r;
  uint64_t n = cpu_ns();
  tv->tv_sec = (time_t)(n / 1000000000ull);
  tv->tv_usec = (suseconds_t)((n % 1000000000ull) / 1000);
  return 0;
}
long sim_sysconf(int n) {
  if (n == _SC_CLK_TCK) return 100;
  return sysconf(n);
}
pid_t sim_getpid(void) { return S->pid; }
pid_t sim_getppid(void) { return S->ppid; }
char *sim_getenv(const char *) { return nullptr; }
int sim_system(const char *) {
  tool("system()");
  return -1;
}
pid_t sim_fork(void) {
  tool("fork()");
  return -1;
}
unsigned sim_sleep(unsigned s) {
  wall_off_ns += (int64_t)s * 1000000000ll;
  return 0;
}
FILE *simx_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
int simx_open64(const char *p, int fl, ...) { return sim_open(p, fl); }
handler_t simx_sysv_signal(int s, handler_t h) { return sim_signal(s, h); }
handler_t simx_bsd_signal(int s, handler_t h) { return sim_signal(s, h); }
char *simx_strdup(const char *s) { return sim_strdup(s); }
int sim_usleep(unsigned) { return 0; }
int sim_setrlimit(int, const void *) { return 0; }

static uint64_t salted(uint64_t v) { return S->rng_salt ? mix2(v, S->rng_salt) : v; }
long sim_nrand48(unsigned short x[3]) {
  long v = nrand48(x);
  if (!S->rng_salt) return v;
  return (long)(salted(((uint64_t)x[0] << 32) | ((uint64_t)x[1] << 16) | x[2]) >> 33);
}
double sim_erand48(unsigned short x[3]) {
  double v = erand48(x);
  if (!S->rng_salt) return v;
  return (double)(salted(((uint64_t)x[0] << 32) | ((uint64_t)x[1] << 16) | x[2]) >> 16) / 281474976710656.0;
}
static uint64_t lr = 1;
void sim_srand(unsigned s) { lr = s; }
int sim_rand(void) { return (int)(salted(splitmix(lr)) >> 33); }
void sim_srandom(unsigned s) { lr = s; }
long sim_random(void) { return (long)(salted(splitmix(lr)) >> 33); }
void sim_srand48(long s) { lr = (uint64_t)s; }
double sim_drand48(void) { return (double)(salted(splitmix(lr)) >> 11) / 9007199254740992.0; }
long sim_lrand48(void) { return (long)(salted(splitmix(lr)) >> 33); }
}

namespace {
void onfault(int sig, siginfo_t *si, void *) {
  if (R) {
    char *at = (char *)si->si_addr;
    if (sig == SIGSEGV && at >= FENCE && at < FENCE + FENCEPG * PG) heapmsg("access beyond the end of a block or to a freed block", 0);
    R->outcome = O_FATAL;
    R->code = sig;
    R->ticks = g_tick;
    R->ops = g_op;
    R->allocs = g_alloc;
    R->alive = 0;
    hashmix(0xFA7A1);
    hashmix(g_tick);
    hashmix((uint64_t)sig);
    yield_token(true);
  }
  _exit(0);
}
ucontext_t uc_main, uc_run;
char **g_argv;
int g_argc;
void trampoline() {
  int r = S->prog == 0 ? solve_main(g_argc, g_argv) : tools_main(g_argc, g_argv);
  leave(r);
}

[[noreturn]] void child_main(int gidx, int slot, const ProcSpec *s) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  in_child = true;
  me = gidx;
  S = s;
  R = &W->p[slot];
  if (W->concurrent) {
    char c;
    if (read(pipes[slot][0], &c, 1) != 1) _exit(96);
  }
  static char alt[65536];
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onfault;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, nullptr);
  struct itimerval wd;
  memset(&wd, 0, sizeof wd);
  wd.it_value.tv_sec = 300;
  setitimer(ITIMER_REAL, &wd, nullptr);
  if (mmap(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
    tool("heap mmap");
  if (s->fence && mmap(FENCE, FENCEPG * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
    tool("fence mmap");
  const size_t STK = 64u << 20;
  char *stk = (char *)mmap((void *)0x300000000000ull, STK, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (stk == MAP_FAILED) tool("stack mmap");
  hs = mix2(s->heap_seed, 77);
  garbage(stk + STK - 65536, 65536);
  hs = mix2(s->heap_seed, 78);
  heap_top = s->zero_heap ? 0 : (hs & 15) * 16;
  Cookie *co = (Cookie *)calloc(1, sizeof(Cookie)), *ce = (Cookie *)calloc(1, sizeof(Cookie)),
         *ci = (Cookie *)calloc(1, sizeof(Cookie));
  co->kind = 1;
  ce->kind = 2;
  ci->kind = 3;
  stdin = wrap(ci, "r");
  FILE *o = wrap(co, "w");
  setvbuf(o, nullptr, s->so == SO_UNBUF ? _IONBF : s->so == SO_LINE ? _IOLBF : _IOFBF, 4096);
  stdout = o;
  FILE *e = wrap(ce, "w");
  setvbuf(e, nullptr, _IONBF, 0);
  stderr = e;
  g_argc = 0;
  g_argv = (char **)calloc(s->args.size() + 2, sizeof(char *));
  g_argv[g_argc++] = (char *)(s->prog == 0 ? "pomdp-solve" : "pomdp-tools");
  for (auto &a : s->args) g_argv[g_argc++] = strdup(a.c_str());
  g_tick = 0;
  g_op = 0;
  g_alloc = 0;
  recompute();
  arm_for_op();
  if (san_start) san_start();
  getcontext(&uc_run);
  uc_run.uc_stack.ss_sp = stk;
  uc_run.uc_stack.ss_size = STK;
  uc_run.uc_link = nullptr;
  makecontext(&uc_run, trampoline, 0);
  swapcontext(&uc_main, &uc_run);
  _exit(95);
}
} // namespace

void sim_init_shared() {
  gShared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
void sim_init_worker() {
  W = (World *)mmap(nullptr, sizeof(World), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (W == MAP_FAILED || arena == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
}

extern "C" {
extern const char __start_laspack_text[] __attribute__((weak)), __stop_laspack_text[] __attribute__((weak));
}
RunResult run_plan(const Plan &pl) {
  RunResult rr;
  W->bump = 0;
  W->nnames = 0;
  memset(W->ino, 0, sizeof W->ino);
  W->cap = 64u << 20;
  W->used = 0;
  W->nf = 0;
  for (auto &f : pl.faults) {
    if (W->nf >= MAXFAULT) break;
    W->f[W->nf] = f;
    W->fired[W->nf] = 0;
    W->fpc[W->nf] = 0;
    W->nf++;
    __atomic_add_fetch(&gShared->planned[f.act], 1, __ATOMIC_RELAXED);
  }
  for (auto &kv : pl.files) {
    int i = new_ino();
    add_name(kv.first.c_str(), i);
    ino_write(i, 0, kv.second.data(), kv.second.size());
  }
  if (pl.disk_cap) W->cap = W->used + pl.disk_cap; // the room left
  W->sched = pl.sched_seed;
  int g = 0;
  rr.hash = 14695981039346656037ull;
  for (auto &ph : pl.phases) {
    int n = (int)ph.procs.size();
    W->nproc = n;
    W->concurrent = n > 1;
    pid_t pid[MAXP];
    for (int k = 0; k < n; k++) {
      PRec &r = W->p[k];
      memset(&r, 0, offsetof(PRec, out));
      r.alive = 1;
      r.hash = 1469598103934665603ull;
      if (n > 1 && pipe(pipes[k])) {
        perror("pipe");
        exit(3);
      }
    }
    fflush(nullptr);
    for (int k = 0; k < n; k++) {
      pid[k] = fork();
      if (pid[k] < 0) {
        perror("fork");
        exit(3);
      }
      if (!pid[k]) child_main(g + k, k, &ph.procs[k]);
    }
    if (n > 1) {
      W->holder = (int)(splitmix(W->sched) % (uint64_t)n);
      char c = 1;
      if (write(pipes[W->holder][1], &c, 1) != 1) exit(3);
    }
    for (int left = n; left > 0; left--) {
      int st;
      pid_t w = -1;
      int k = -1;
      for (;;) {
        w = waitpid(n == 1 ? pid[0] : -1, &st, 0);
        if (w < 0 && errno == EINTR) continue;
        break;
      }
      for (int i = 0; i < n; i++)
        if (pid[i] == w) k = i;
      if (k < 0) {
        left++;
        if (w < 0) {
          perror("waitpid");
          exit(3);
        }
        continue;
      }
      PRec &r = W->p[k];
      if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
        if (r.outcome == O_NONE) {
          r.outcome = O_TOOL;
          r.code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
          snprintf(r.tool_msg, sizeof r.tool_msg, "child ended with status %d", st);
        }
        if (r.alive) {
          r.alive = 0;
          if (W->concurrent && W->holder == k) {
            for (int i = 0; i < n; i++)
              if (W->p[i].alive) {
                W->holder = i;
                char c = 1;
                if (write(pipes[i][1], &c, 1) != 1) exit(3);
                break;
              }
          }
        }
      }
    }
    if (n > 1)
      for (int k = 0; k < n; k++) {
        close(pipes[k][0]);
        close(pipes[k][1]);
      }
    for (int k = 0; k < n; k++) {
      PRec &r = W->p[k];
      ProcResult q;
      q.outcome = r.outcome;
      q.code = r.code;
      q.ticks = r.ticks;
      q.ops = r.ops;
      q.allocs = r.allocs;
      q.live_blocks = r.live_blocks;
      q.live_bytes = r.live_bytes;
      q.peak_bytes = r.peak_bytes;
      q.leak_fds = r.leak_fds;
      q.user_ns = r.user_ns;
      q.max_open = r.max_open;
      q.out.assign(r.out, r.outlen);
      q.err.assign(r.err, r.errlen);
      q.heap_msg = r.heap_msg;
      q.ev.assign(r.ev, r.ev + r.nev);
      q.snaps.resize(r.nev);
      for (uint32_t i = 0; i < r.nev; i++)
        if (r.ev[i].snap) q.snaps[i].assign(arena + r.ev[i].snap - 1, r.ev[i].snaplen);
      q.hash = mix2(r.hash, fnv(r.out, r.outlen, fnv(r.err, r.errlen)));
      q.hash = mix2(q.hash, mix2(r.ticks, (uint64_t)r.outcome * 1000 + (uint64_t)r.code));
      q.hash = mix2(q.hash, mix2(r.allocs, r.live_bytes));
      rr.hash = mix2(rr.hash, q.hash);
      if (r.outcome == O_TOOL) {
        rr.tool_error = true;
        rr.tool_msg = r.tool_msg;
      }
      __atomic_add_fetch(&gShared->procs, 1, __ATOMIC_RELAXED);
      __atomic_add_fetch(&gShared->ticks, r.ticks, __ATOMIC_RELAXED);
      __atomic_add_fetch(&gShared->sim_ns, r.ticks * ph.procs[k].ns_per_tick, __ATOMIC_RELAXED);
      __atomic_add_fetch(&gShared->outcomes[r.outcome & 15], 1, __ATOMIC_RELAXED);
      __atomic_add_fetch(&gShared->allocs, r.allocs, __ATOMIC_RELAXED);
      __atomic_add_fetch(&gShared->ops, r.ops, __ATOMIC_RELAXED);
      rr.p.push_back(std::move(q));
    }
    g += n;
  }
  // open handles of dead processes go away
  for (int i = 0; i < MAXF; i++)
    if (W->ino[i].used) { W->ino[i].opens = 0; }
  for (int i = 0; i < W->nnames; i++)
    if (W->name[i].ino >= 0) {
      Inode &n = W->ino[W->name[i].ino];
      std::string c(n.data ? n.data : "", n.len);
      rr.hash = mix2(rr.hash, fnv(c.data(), c.size(), fnv(W->name[i].path, strlen(W->name[i].path))));
      rr.disk[W->name[i].path] = c;
    }
  for (int i = 0; i < W->nf; i++) {
    rr.fired.push_back(W->fired[i]);
    rr.fired_pc.push_back(W->fpc[i]);
    rr.fired_laspack.push_back(W->fpc[i] >= (uint64_t)__start_laspack_text && W->fpc[i] < (uint64_t)__stop_laspack_text);
  }
  __atomic_add_fetch(&gShared->runs, 1, __ATOMIC_RELAXED);
  return rr;
}
