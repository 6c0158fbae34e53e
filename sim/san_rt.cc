// Runtime of the second build, for P26: every load and store of the program, and what it passes to the C library, is checked
// against a shadow of its memory (instrumentation of gcc's kernel-address sanitizer; this file is its whole runtime).
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#define SHADOW 0x100000000000ull // as in build.py
#define SHADOWSZ (1ull << 44)
extern "C" void sim_mem_error(const char *what, uintptr_t pc);

static bool ready, on;
static void init() {
  if (ready) return;
  if (mmap((void *)SHADOW, SHADOWSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) {
    perror("shadow mmap");
    _Exit(3);
  }
  ready = true;
}
static inline int8_t *sh(uintptr_t a) { return (int8_t *)((a >> 3) + SHADOW); }
static inline bool low(uintptr_t a) { return a >> 47 == 0; }
static bool bad1(uintptr_t a) {
  int8_t s = *sh(a);
  return s && (int8_t)(a & 7) >= s;
}
static uintptr_t badn(uintptr_t a, size_t n) { // first bad byte, or 0
  if (!low(a) || !low(a + n)) return 0;
  for (uintptr_t e = a + n; a < e;) {
    if (!(a & 7) && e - a >= 8 && !*sh(a)) {
      a += 8;
      continue;
    }
    if (bad1(a)) return a;
    a++;
  }
  return 0;
}
static void report(uintptr_t a, size_t n, bool wr, void *pc) {
  if (!on) return;
  uintptr_t b = badn(a, n);
  int8_t s = *sh(b ? b : a);
  if (s > 0) s = *(sh(b ? b : a) + 1);
  const char *o;
  switch ((uint8_t)s) {
    case 0xf9: o = "a global variable"; break;
    case 0xf1: case 0xf2: case 0xf3: o = "a local variable"; break;
    case 0xf8: o = "a local variable out of its scope"; break;
    case 0xfa: o = "a block"; break;
    default: o = "an object"; break;
  }
  char m[80];
  snprintf(m, sizeof m, "%s beyond the bounds of %s", wr ? "write" : "read", o);
  sim_mem_error(m, (uintptr_t)pc);
}
#define PC __builtin_return_address(0)

extern "C" {
struct Glob {
  uintptr_t beg, size, full;
  const char *name, *module;
  uintptr_t dyn, loc, odr;
};
void __asan_register_globals(Glob *g, size_t n) {
  init();
  for (size_t i = 0; i < n; i++) {
    uintptr_t a = g[i].beg, e = a + g[i].size, f = a + g[i].full;
    if (e & 7) *sh(e) = (int8_t)(e & 7), e = (e | 7) + 1;
    if (f > e) memset(sh(e), 0xf9, (f - e) >> 3);
  }
}
void __asan_unregister_globals(Glob *, size_t) {}
void __asan_handle_no_return() {}
void __asan_before_dynamic_init(const char *) {}
void __asan_after_dynamic_init() {}
#define ACC(k, wr)                                                                                              \
  void __asan_report_##k##1_noabort(uintptr_t a) { report(a, 1, wr, PC); }                                      \
  void __asan_report_##k##2_noabort(uintptr_t a) { report(a, 2, wr, PC); }                                      \
  void __asan_report_##k##4_noabort(uintptr_t a) { report(a, 4, wr, PC); }                                      \
  void __asan_report_##k##8_noabort(uintptr_t a) { report(a, 8, wr, PC); }                                      \
  void __asan_report_##k##16_noabort(uintptr_t a) { report(a, 16, wr, PC); }                                    \
  void __asan_report_##k##_n_noabort(uintptr_t a, size_t n) { report(a, n, wr, PC); }                           \
  void __asan_##k##N_noabort(uintptr_t a, size_t n) { if (badn(a, n)) report(a, n, wr, PC); }                   \
  void __asan_##k##1_noabort(uintptr_t a) { if (badn(a, 1)) report(a, 1, wr, PC); }                             \
  void __asan_##k##2_noabort(uintptr_t a) { if (badn(a, 2)) report(a, 2, wr, PC); }                             \
  void __asan_##k##4_noabort(uintptr_t a) { if (badn(a, 4)) report(a, 4, wr, PC); }                             \
  void __asan_##k##8_noabort(uintptr_t a) { if (badn(a, 8)) report(a, 8, wr, PC); }                             \
  void __asan_##k##16_noabort(uintptr_t a) { if (badn(a, 16)) report(a, 16, wr, PC); }
ACC(load, false)
ACC(store, true)
void __asan_set_shadow_00(uintptr_t a, size_t n) { memset((void *)a, 0, n); }
void __asan_set_shadow_f1(uintptr_t a, size_t n) { memset((void *)a, 0xf1, n); }
void __asan_set_shadow_f2(uintptr_t a, size_t n) { memset((void *)a, 0xf2, n); }
void __asan_set_shadow_f3(uintptr_t a, size_t n) { memset((void *)a, 0xf3, n); }
void __asan_set_shadow_f5(uintptr_t a, size_t n) { memset((void *)a, 0xf5, n); }
void __asan_set_shadow_f8(uintptr_t a, size_t n) { memset((void *)a, 0xf8, n); }
void __asan_poison_stack_memory(uintptr_t a, size_t n) {
  memset(sh(a), 0xf8, n >> 3);
  if (n & 7) *sh(a + n) = (int8_t)0xf8;
}
void __asan_unpoison_stack_memory(uintptr_t a, size_t n) {
  memset(sh(a), 0, n >> 3);
  if (n & 7) *sh(a + n) = (int8_t)(n & 7);
}
void __asan_alloca_poison(uintptr_t, size_t) {}
void __asan_allocas_unpoison(uintptr_t, uintptr_t) {}

// for the simulator
void san_start() { init(), on = true; }
void san_heap(char *from, char *block, size_t n) { // a new block, whose end is aligned
  uintptr_t a = (uintptr_t)from, u = (uintptr_t)block;
  memset(sh(a), 0xfa, (u >> 3) - (a >> 3));
  if ((u & ~7ull) < u + n) memset(sh(u), 0, ((u + n + 7) >> 3) - (u >> 3));
}

// the C library, as the program calls it
#define RD(p, n) if (badn((uintptr_t)(p), n)) report((uintptr_t)(p), n, false, PC)
#define WR(p, n) if (badn((uintptr_t)(p), n)) report((uintptr_t)(p), n, true, PC)
#define RS(p) { const char *p_ = (const char *)(p); if (p_) RD(p_, strlen(p_) + 1); }
void *san_memcpy(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memcpy(d, s, n); }
void *san_memmove(void *d, const void *s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void *san_memset(void *d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int san_memcmp(const void *a, const void *b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
char *san_strcpy(char *d, const char *s) { RS(s); WR(d, strlen(s) + 1); return strcpy(d, s); }
char *san_stpcpy(char *d, const char *s) { RS(s); WR(d, strlen(s) + 1); return stpcpy(d, s); }
char *san_strncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); RD(s, l < n ? l + 1 : n); WR(d, n); return strncpy(d, s, n); }
char *san_strcat(char *d, const char *s) { RS(d); RS(s); WR(d + strlen(d), strlen(s) + 1); return strcat(d, s); }
char *san_strncat(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); RS(d); RD(s, l < n ? l + 1 : n); WR(d + strlen(d), l + 1); return strncat(d, s, n); }
size_t san_strlen(const char *s) { RS(s); return strlen(s); }
int san_strcmp(const char *a, const char *b) { RS(a); RS(b); return strcmp(a, b); }
int san_strncmp(const char *a, const char *b, size_t n) { RD(a, strnlen(a, n)); RD(b, strnlen(b, n)); return strncmp(a, b, n); }
char *san_strstr(const char *a, const char *b) { RS(a); RS(b); return (char *)strstr(a, b); }
char *san_strchr(const char *a, int c) { RS(a); return (char *)strchr(a, c); }
char *san_strrchr(const char *a, int c) { RS(a); return (char *)strrchr(a, c); }
double san_strtod(const char *a, char **e) { RS(a); if (e) WR(e, sizeof *e); return strtod(a, e); }
long san_strtol(const char *a, char **e, int b) { RS(a); if (e) WR(e, sizeof *e); return strtol(a, e, b); }
size_t san_fread(void *p, size_t s, size_t n, FILE *f) { WR(p, s * n); return fread(p, s, n, f); }
size_t san_fwrite(const void *p, size_t s, size_t n, FILE *f) { RD(p, s * n); return fwrite(p, s, n, f); }
int san_fputs(const char *s, FILE *f) { RS(s); return fputs(s, f); }
int san_puts(const char *s) { RS(s); return puts(s); }
char *san_fgets(char *s, int n, FILE *f) { if (n > 0) WR(s, (size_t)n); return fgets(s, n, f); }
void san_qsort(void *p, size_t n, size_t s, int (*c)(const void *, const void *)) { WR(p, n * s); qsort(p, n, s, c); }

// the strings a format names, and what a scan has stored
static void fmt_args(const char *f, va_list ap, bool scan, int stored, void *pc) {
  for (; *f; f++) {
    if (*f != '%') continue;
    f++;
    if (*f == '%') continue;
    int lng = 0;
    bool skip = false;
    int prec = -1;
    for (; *f && !strchr("diouxXeEfFgGaAcspn[", *f); f++) {
      if (*f == '*') {
        if (scan) skip = true;
        else prec = va_arg(ap, int);
      } else if (*f == 'l' || *f == 'z' || *f == 'L' || *f == 'j') lng++;
      else if (*f >= '0' && *f <= '9') prec = (prec < 0 ? 0 : prec) * 10 + (*f - '0');
      else if (*f == 'h') lng--;
    }
    if (!*f) return;
    if (scan) {
      char k = *f;
      if (k == '[') {
        f++;
        if (*f == '^') f++;
        if (*f == ']') f++;
        while (*f && *f != ']') f++;
        k = 's';
        if (!*f) return;
      }
      if (skip) continue;
      char *p = va_arg(ap, char *);
      if (k != 'n' && stored-- <= 0) return;
      size_t n = k == 's' ? strlen(p) + 1 : k == 'c' ? (size_t)(prec > 0 ? prec : 1) : strchr("eEfFgGaA", k) ? (lng ? 8 : 4)
                 : lng > 0 ? 8 : lng == -1 ? 2 : lng == -2 ? 1 : 4;
      if (badn((uintptr_t)p, n)) report((uintptr_t)p, n, true, pc);
    } else if (strchr("eEfFgGaA", *f)) (void)va_arg(ap, double);
    else if (*f == 's') {
      const char *p = va_arg(ap, const char *);
      if (p && prec < 0 && badn((uintptr_t)p, strlen(p) + 1)) report((uintptr_t)p, strlen(p) + 1, false, pc);
    } else if (lng > 0 || *f == 'p' || *f == 'n') (void)va_arg(ap, long);
    else (void)va_arg(ap, int);
  }
}
#define VCHK(f, ap) { va_list q; va_copy(q, ap); fmt_args(f, q, false, 0, PC); va_end(q); }
int san_vfprintf(FILE *o, const char *f, va_list ap) { VCHK(f, ap) return vfprintf(o, f, ap); }
int san_vsprintf(char *d, const char *f, va_list ap) {
  VCHK(f, ap)
  va_list q;
  va_copy(q, ap);
  int n = vsnprintf(nullptr, 0, f, q);
  va_end(q);
  if (n >= 0) WR(d, (size_t)n + 1);
  return vsprintf(d, f, ap);
}
int san_vsnprintf(char *d, size_t m, const char *f, va_list ap) {
  VCHK(f, ap)
  WR(d, m);
  return vsnprintf(d, m, f, ap);
}
#define VA(name, first, last, call) { va_list ap; va_start(ap, last); int r = call; va_end(ap); return r; }
int san_printf(const char *f, ...) VA(printf, , f, san_vfprintf(stdout, f, ap))
int san_fprintf(FILE *o, const char *f, ...) VA(fprintf, , f, san_vfprintf(o, f, ap))
int san_sprintf(char *d, const char *f, ...) VA(sprintf, , f, san_vsprintf(d, f, ap))
int san_snprintf(char *d, size_t m, const char *f, ...) VA(snprintf, , f, san_vsnprintf(d, m, f, ap))
int san_vfscanf(FILE *i, const char *f, va_list ap) {
  va_list q;
  va_copy(q, ap);
  int r = vfscanf(i, f, ap);
  fmt_args(f, q, true, r, PC);
  va_end(q);
  return r;
}
int san_vsscanf(const char *s, const char *f, va_list ap) {
  RS(s);
  va_list q;
  va_copy(q, ap);
  int r = vsscanf(s, f, ap);
  fmt_args(f, q, true, r, PC);
  va_end(q);
  return r;
}
int san_fscanf(FILE *i, const char *f, ...) VA(fscanf, , f, san_vfscanf(i, f, ap))
int san_scanf(const char *f, ...) VA(scanf, , f, san_vfscanf(stdin, f, ap))
int san_sscanf(const char *s, const char *f, ...) VA(sscanf, , f, san_vsscanf(s, f, ap))
}
