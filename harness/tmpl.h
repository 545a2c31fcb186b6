// Builders for template harnesses: T is the template, E the text it must render to.
#pragma once
#include "sym.h"
#include "env.h"
#include "greshunkel.h"
#include <stdlib.h>
#include <string.h>
#ifndef TSIZE
#define TSIZE 40000
#endif
static char T[TSIZE], E[TSIZE]; static size_t nt, ne; static int le;   /* le: the last thing is a plain line's end */
static void reset(void) { nt = ne = 0; le = 0; }
static void tn(const void *p, size_t n) { memcpy(T + nt, p, n); nt += n; }
static void en(const void *p, size_t n) { memcpy(E + ne, p, n); ne += n; }
static void t(const char *s) { tn(s, strlen(s)); }
static void e(const char *s) { en(s, strlen(s)); }
static void te(const char *s) { t(s); e(s); }
static void tfill(size_t n, char c) { memset(T + nt, c, n); nt += n; memset(E + ne, c, n); ne += n; }
static char *tmpl_(void) { char *m = malloc(nt + 1); memcpy(m, T, nt); m[nt] = 0; return m; }
static void text_is(const char *r, const char *msg) { CHECK(r != 0, "rendering succeeds"); CHECK(sym_valid(r, ne + 1), "the whole text is returned"); CHECK(sym_eq(r, E, ne), msg); CHECK(r[ne] == 0, "nothing is added to the text"); }
static void renders(const greshunkel_ctext *c, const char *msg) { char *m = tmpl_(); size_t o = 12345; char *r = gshkl_render(c, m, nt, &o); text_is(r, msg); free(r); free(m); }
static void renders_null(const greshunkel_ctext *c, const char *msg) { char *m = tmpl_(); char *r = gshkl_render(c, m, nt, 0); text_is(r, msg); free(r); free(m); }
static void free_ctx(greshunkel_ctext *c) { gshkl_free_context(c); }
/* n arbitrary text bytes: not NUL, no x or X (they could build markup), NUL-terminated */
static char *text(char *b, size_t n, const char *name) { sym_bytes(b, n, name); b[n] = 0; for (size_t i = 0; i < n; i++) sym_assume((b[i] != 0) & (b[i] != 'x') & (b[i] != 'X') & (b[i] != '@')); return b; }
