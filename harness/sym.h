// Interface between harnesses and the symbolic executor (engine) / the native replay runtime (rt_native.c).
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef unsigned long long u64_t;
void sym_bytes(void *p, size_t n, const char *name);                 /* n arbitrary bytes */
uint64_t sym_num(uint64_t lo, uint64_t hi, const char *name);        /* arbitrary number, stays symbolic */
uint64_t sym_pick(uint64_t lo, uint64_t hi, const char *name);       /* arbitrary number, one path per value */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_reach(const char *label);                                   /* vacuity witness */
uint64_t sym_live(void);                                             /* heap blocks allocated and not freed */
void sym_reuse(int on);                                             /* from now on an allocation gets the block of its size that was released last, if there is one */
int64_t sym_fail_at(int64_t k);                                      /* let the k-th following allocation fail (-1: none); the previous setting */
uint64_t sym_nalloc(void);                                           /* allocations so far */
int sym_init(const void *p, size_t n);                               /* all n bytes initialised? */
int sym_valid(const void *p, size_t n);                              /* n bytes at p inside one live object? */
uint64_t sym_ite(int c, uint64_t a, uint64_t b);
int sym_eq(const void *a, const void *b, size_t n);                  /* n bytes equal, one expression, no forks */
uint64_t sym_conc(uint64_t v);                                       /* one path per feasible value */
void sym_stop(void) __attribute__((noreturn));                       /* end of this path */
uint64_t sym_arg(void);                                              /* variant number of this harness run */
int sym_engine(void);                                                /* 1 when executed symbolically */
/* data races: from sym_races() on, accesses by the code under test are ordered by sym_release/sym_acquire only */
void sym_races(void);
void sym_thread(int id);                                             /* what follows is done by thread id (0: main) */
int sym_tid(void);
void sym_acquire(void *sync); void sym_release(void *sync);
void sym_touch(const void *p, size_t n, int write);                  /* the modelled system reads / writes caller memory here */
void *sym_run(void *(*fn)(void *), void *arg, int id);               /* runs fn as thread id, on a stack of its own */
void sym_debug(const char *name, uint64_t v);
void main_sym(void);
#define CHECK(c, msg) sym_assert((c) != 0, msg)
