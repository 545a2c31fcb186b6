// D05: strnstr and endswith agree with their definitions.
#include "sym.h"
#include "env.h"
#include "utils.h"
#include <string.h>
#include <stdlib.h>
static void chk_search(const char *h, size_t n, const char *nd, size_t nl) {
  size_t L = 0; while (L < n && h[L]) L++;
  const char *want = 0;
  if (!nl) want = h; else for (size_t i = 0; i + nl <= L && !want; i++) { int eq = 1; for (size_t k = 0; k < nl; k++) eq &= h[i + k] == nd[k]; if (eq) want = h + i; }
  const char *got = strnstr(h, nd, n);
  CHECK(got == want, "bounded search returns the first occurrence inside the first n bytes, or nothing");
  if (want && nl) sym_reach(want + nl == h + L ? "found at the end" : "found"); else sym_reach("absent");
}
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { // every haystack/needle of small sizes; the haystack is exactly n bytes (not terminated) or terminated before
    size_t m = sym_pick(0, 5, "m"), nl = sym_pick(0, 3, "nl"); char *h = malloc(m ? m : 1), *nd = malloc(nl + 1);
    sym_bytes(h, m, "h"); sym_bytes(nd, nl, "needle"); nd[nl] = 0; for (size_t i = 0; i < nl; i++) sym_assume(nd[i] != 0);
    chk_search(h, m, nd, nl); free(h); free(nd); break; }
  case 1: { // terminated haystack shorter than n
    size_t m = sym_pick(0, 4, "m"), nl = sym_pick(0, 3, "nl"); char *h = malloc(m + 1), *nd = malloc(nl + 1);
    sym_bytes(h, m, "h"); h[m] = 0; sym_bytes(nd, nl, "needle"); nd[nl] = 0; for (size_t i = 0; i < nl; i++) sym_assume(nd[i] != 0);
    static const size_t N[] = {0, 1, 2, 3, 4, 5, 6, 64, 1024, 2097152, 0x7fffffff, 0x80000000u, 0xffffffffu}; size_t n = N[sym_pick(0, 12, "nidx")];
    if (n <= m + 1 || 1) chk_search(h, n < m + 1 ? n : n, nd, nl); free(h); free(nd); break; }
  case 2: { // wide haystacks
    static const size_t M[] = {255, 256, 257, 300, 1023, 1024, 1100}; size_t m = M[sym_pick(0, 6, "midx")]; char *h = malloc(m);
    memset(h, 'a', m); static const int off[] = {1, 2, 3, 4, 200}; size_t o = m - off[sym_pick(0, 4, "off")]; sym_bytes(h + o, off[0], "b"); 
    char nd[4]; sym_bytes(nd, 2, "needle"); nd[2] = 0; sym_assume((nd[0] != 0) & (nd[1] != 0) & (h[o] != 0)); chk_search(h, m, nd, 2); free(h); break; }
  case 4: { // needle longer than 255
    char nd[300]; size_t nl = sym_pick(254, 258, "nl"); memset(nd, 'q', nl); nd[nl] = 0; sym_bytes(nd + nl - 1, 1, "last"); sym_assume(nd[nl - 1] != 0); size_t pad = sym_pick(0, 2, "pad"), tail = sym_pick(0, 1, "tail"); size_t m = pad + nl + tail; char *h = malloc(m); memset(h, 'q', m); sym_bytes(h + pad + nl - 1, 1, "hl"); sym_assume(h[pad + nl - 1] != 0);
    chk_search(h, m, nd, nl); free(h); break; }
  case 3: { // suffix test
    size_t a = sym_pick(0, 4, "a"), b = sym_pick(0, 4, "b"); char *s = malloc(a + 1), *t = malloc(b + 1); sym_bytes(s, a, "s"); sym_bytes(t, b, "t"); s[a] = t[b] = 0;
    for (size_t i = 0; i < a; i++) sym_assume(s[i] != 0); for (size_t i = 0; i < b; i++) sym_assume(t[i] != 0);
    int want = a >= b; if (want) for (size_t i = 0; i < b; i++) want &= s[a - b + i] == t[i];
    CHECK((endswith(s, t) != 0) == want, "suffix test is true exactly when the string ends with the suffix"); sym_reach("suffix"); free(s); free(t); break; }
  case 5: { static const size_t B[] = {255, 256, 257, 300, 511, 513}; size_t b = B[sym_pick(0, 5, "bidx")], x = sym_pick(0, 2, "extra"); char *s = malloc(b + x + 1), *t = malloc(b + 1); memset(s, 'z', b + x); memset(t, 'z', b); s[b + x] = t[b] = 0;
    static const size_t P[] = {0, 1, 3, 254}; size_t p = P[sym_pick(0, 3, "pos")]; sym_bytes(t + p, 1, "c"); sym_assume(t[p] != 0);
    int want = t[p] == 'z'; CHECK((endswith(s, t) != 0) == want, "suffix test is true exactly when the string ends with the suffix"); sym_reach("long suffix"); free(s); free(t); break; }
  // ---- D07
  case 20: { // any size, any date, any kind of file
    struct env_vfile *f = env_add_file("./some.file", "", 0); f->size = (size_t)sym_num(0, 0x7fffffffffffffffull, "size"); f->mtime = (long)sym_num(0, ~0ull, "mtime"); static const unsigned MODE[] = {0100644, 0100000, 040755, 010644}; f->mode = MODE[sym_pick(0, 3, "mode")]; f->openable = (int)sym_pick(0, 1, "openable"); f->exists = (int)sym_pick(0, 1, "exists"); size_t s = get_file_size("./some.file"); time_t t = get_file_creation_date("./some.file"); CHECK(s == (f->exists ? f->size : 0), "the size of the file, 0 if it cannot be examined"); CHECK(t == (f->exists ? f->mtime : 0), "the date of its last change, 0 if it cannot be examined"); CHECK(get_file_size("./other") == 0 && get_file_creation_date("./other") == 0, "another file"); CHECK(env_open_fds == 0, "nothing stays open"); sym_reach(f->exists ? "file" : "no file"); break; }
  }
}
