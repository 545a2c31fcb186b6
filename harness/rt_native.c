// Native side of sym.h: inputs come from a recorded counterexample (or path sample); the code under test is the real
// object code, with its allocator, streams and system calls redirected here and to env.c (objcopy --redefine-sym).
#define _GNU_SOURCE
#include "sym.h"
#include <regex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef MOTH_TSAN
#include <ucontext.h>
void *__tsan_get_current_fiber(void); void *__tsan_create_fiber(unsigned); void __tsan_switch_to_fiber(void *, unsigned); void __tsan_acquire(void *); void __tsan_release(void *); void __tsan_read_range(void *, unsigned long); void __tsan_write_range(void *, unsigned long);
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
#include <sanitizer/asan_interface.h>
#endif
static FILE *in; static uint64_t arg_, live_, nalloc_; static int64_t fail_at = -1;
static void die(int c, const char *a, const char *b) { fprintf(stderr, "RT-%s: %s\n", a, b); fflush(stderr); _exit(c); }
static size_t next(const char *name, unsigned char *o, size_t cap) {
  static char line[1 << 21]; if (!fgets(line, sizeof line, in)) die(78, "DIVERGED", "no more inputs");
  char *sp = strchr(line, ' '); *sp = 0; if (strcmp(line, name)) die(78, "DIVERGED", name);
  char *h = sp + 1; size_t n = strcspn(h, "\r\n") / 2; if (n > cap) die(78, "DIVERGED", "input too long");
  for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = v; } return n; }
void sym_bytes(void *p, size_t n, const char *name) { static unsigned char b[1 << 20]; size_t k = next(name, b, sizeof b); if (k != n) die(78, "DIVERGED", "size"); memcpy(p, b, n); }
uint64_t sym_num(uint64_t lo, uint64_t hi, const char *name) { unsigned char b[8] = {0}; next(name, b, 8); uint64_t v = 0; for (int i = 7; i >= 0; i--) v = v << 8 | b[i]; if (v < lo || v > hi) die(78, "DIVERGED", "range"); return v; }
uint64_t sym_pick(uint64_t lo, uint64_t hi, const char *name) { return sym_num(lo, hi, name); }
void sym_assume(int c) { if (!c) die(77, "ASSUME", "assumption does not hold"); }
void sym_assert(int c, const char *m) { if (!c) die(99, "ASSERT", m); }
void sym_reach(const char *l) { (void)l; }
uint64_t sym_live(void) { return live_; }
int64_t sym_fail_at(int64_t k) { int64_t o = fail_at; fail_at = k; return o; }
uint64_t sym_nalloc(void) { return nalloc_; }
int sym_init(const void *p, size_t n) {
#ifdef MSAN
  return __msan_test_shadow(p, n) < 0;
#else
  (void)p; (void)n; return 1;
#endif
}
int sym_valid(const void *p, size_t n) {
#ifdef ASAN
  return __asan_region_is_poisoned((void *)p, n) == 0;
#else
  (void)p; (void)n; return 1;
#endif
}
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_stop(void) { fflush(stdout); fprintf(stderr, "RT-STOP\n"); _exit(0); }
uint64_t sym_arg(void) { return arg_; }
int sym_engine(void) { return 0; }
// threads are coroutines; under TSan each is a fiber with a stack of its own and no implied synchronisation
static int races_, tid_;
void sym_races(void);
int sym_tid(void) { return tid_; }
#ifdef MOTH_TSAN
static char stk[16][4 << 20] __attribute__((aligned(64))); static void *fib[16]; static ucontext_t uc[16], back[16]; static void *(*ufn[16])(void *), *uarg[16], *ures[16];
/* creating a fiber orders what its creator did before: all of them are made here */
void sym_races(void) { races_ = 1; if (!fib[0]) fib[0] = __tsan_get_current_fiber(); for (int i = 1; i < 14; i++) if (!fib[i]) fib[i] = __tsan_create_fiber(0); }
static void tramp(int k) { ures[k] = ufn[k](uarg[k]); __tsan_switch_to_fiber(fib[tid_], 1); swapcontext(&uc[k], &back[k]); }
void sym_thread(int id) { if (!fib[0]) fib[0] = __tsan_get_current_fiber(); if (!fib[id]) fib[id] = __tsan_create_fiber(0); tid_ = id; if (races_) __tsan_switch_to_fiber(fib[id], 1); }
void *sym_run(void *(*fn)(void *), void *arg, int id) { if (!fib[0]) fib[0] = __tsan_get_current_fiber(); int o = tid_; if (!races_) return fn(arg); if (!fib[id]) fib[id] = __tsan_create_fiber(0); ufn[id] = fn; uarg[id] = arg; getcontext(&uc[id]); uc[id].uc_stack.ss_sp = stk[id]; uc[id].uc_stack.ss_size = sizeof stk[0]; uc[id].uc_link = 0; makecontext(&uc[id], (void (*)(void))tramp, 1, id); tid_ = id; __tsan_switch_to_fiber(fib[id], 1); swapcontext(&back[id], &uc[id]); tid_ = o; __tsan_switch_to_fiber(fib[o], 1); return ures[id]; }
void sym_acquire(void *p) { if (races_) __tsan_acquire(p); }
void sym_release(void *p) { if (races_) __tsan_release(p); }
__attribute__((noinline)) void sym_touch(const void *p, size_t n, int w) { if (!races_ || !n) return; if (w) __tsan_write_range((void *)p, n); else __tsan_read_range((void *)p, n); __asm__ volatile("" ::: "memory"); }
#else
void sym_races(void) { races_ = 1; }
void sym_thread(int id) { tid_ = id; }
void *sym_run(void *(*fn)(void *), void *arg, int id) { int o = tid_; tid_ = id; void *r = fn(arg); tid_ = o; return r; }
void sym_acquire(void *p) { (void)p; } void sym_release(void *p) { (void)p; } void sym_touch(const void *p, size_t n, int w) { (void)p; (void)n; (void)w; }
#endif
void sym_debug(const char *n, uint64_t v) { fprintf(stderr, "DBG %s = %llu\n", n, (unsigned long long)v); }
// allocator: counts live blocks, injects failures, fills new memory, always moves on realloc
static int refuse(size_t n) { nalloc_++; if (n > (64u << 20)) return 1; if (fail_at >= 0 && fail_at-- == 0) { fail_at = -1; return 1; } return 0; }
static int reuse_; static struct { void *p; size_t n; } kept[4096]; static int nkept;
#include <malloc.h>
void sym_reuse(int on) { reuse_ = on; }
static void *get(size_t n) { if (reuse_) for (int i = nkept; i-- > 0;) if (kept[i].n == n) { void *p = kept[i].p; memmove(kept + i, kept + i + 1, sizeof kept[0] * (size_t)(nkept - i - 1)); nkept--;
#ifdef ASAN
  __asan_unpoison_memory_region(p, n);
#endif
  return p; } return malloc(n); }
static void put(void *p) { if (!p || !reuse_ || nkept == 4096) { free(p); return; } kept[nkept].p = p; kept[nkept++].n = malloc_usable_size(p);
#ifdef ASAN
  __asan_poison_memory_region(p, kept[nkept - 1].n);
#endif
}
void *moth_malloc(size_t n) { if (refuse(n)) return 0; void *p = get(n);
#if !defined MSAN && !defined MOTH_TSAN
  if (p) memset(p, 0xBE, n);
#endif
  if (p) live_++; return p; }
void *moth_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n) || refuse(n)) return 0; void *p = reuse_ ? get(n) : calloc(a, b); if (p && reuse_) memset(p, 0, n); if (p) live_++; return p; }
void moth_free(void *p) { if (p) live_--; put(p); }
void *moth_realloc(void *p, size_t n) { if (!p) return moth_malloc(n); if (!n) { moth_free(p); return 0; } size_t old = malloc_usable_size(p); if (refuse(n)) return 0; void *q = get(n); if (!q) return 0;
#if defined MSAN || defined MOTH_TSAN
  memcpy(q, p, old < n ? old : n);
#else
  memset(q, 0xBE, n); memcpy(q, p, old < n ? old : n);
#endif
  put(p); return q; }
void *moth_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; return moth_realloc(p, n); }
char *moth_strdup(const char *s) { size_t n = strlen(s) + 1; char *d = moth_malloc(n); if (d) memcpy(d, s, n); return d; }
char *moth_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *d = moth_malloc(l + 1); if (d) { memcpy(d, s, l); d[l] = 0; } return d; }
int moth_vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); *o = moth_malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, ap); }
int moth_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int n = moth_vasprintf(o, f, ap); va_end(ap); return n; }
int moth_regcomp(regex_t *r, const char *p, int f) { if (refuse(0)) return REG_ESPACE; int e = regcomp(r, p, f); if (!e) live_++; return e; }
void moth_regfree(regex_t *r) { live_--; regfree(r); }
void moth_exit(int c) { (void)c; die(98, "EXIT", "exit() called"); }
int main(int argc, char **argv) { in = fopen(argv[1], "r"); if (!in) return 76; arg_ = argc > 2 ? strtoull(argv[2], 0, 10) : 0; main_sym(); fprintf(stderr, "RT-OK\n"); fflush(stderr); _exit(0); }
