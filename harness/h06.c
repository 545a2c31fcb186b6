// H06: cookie lookup.
#include "sym.h"
#include "utils.h"
#include <string.h>
#include <stdlib.h>
static void chk(const char *ck, size_t n, const char *nm, size_t k) {
  // reference: items between ';', blanks in front of an item are not part of it
  long vs = -1, ve = 0; size_t i = 0;
  while (i < n && vs < 0) { if (ck[i] == ' ') { i++; continue; } size_t e = i; while (e < n && ck[e] != ';') e++;
    if (e - i > k && sym_eq(ck + i, nm, k) && ck[i + k] == '=') { vs = (long)(i + k + 1); ve = (long)e; } i = e + 1; }
  char *c = malloc(n + 1), *m = malloc(k + 1); memcpy(c, ck, n); c[n] = 0; memcpy(m, nm, k); m[k] = 0;
  uint64_t live = sym_live(); char *r = m38_get_cookie_value(c, n, m);
  if (vs < 0) { CHECK(r == 0, "a cookie that is not there is absent"); CHECK(sym_live() == live, "nothing leaks"); sym_reach("absent"); }
  else { CHECK(r != 0, "a cookie that is there is found"); size_t l = (size_t)(ve - vs); CHECK(sym_valid(r, l + 1) && sym_eq(r, ck + vs, l) && r[l] == 0, "the value is exactly the bytes up to the next ';' or the end");
    CHECK(r < c || r > c + n, "the value is a copy"); free(r); CHECK(sym_live() == live, "nothing leaks"); sym_reach("found"); }
  CHECK(sym_eq(c, ck, n), "the header value is left alone"); free(c);
  /* the size says where the header value ends: nothing has to follow it, and what follows it does not count */
  for (int behind = 0; behind < 2; behind++) { if (behind && vs >= 0 && ve == (long)n) break; char *x = malloc(n + (behind ? k + 4 : 0) + (n == 0)); memcpy(x, ck, n); if (behind) { x[n] = ';'; memcpy(x + n + 1, nm, k); x[n + 1 + k] = '='; x[n + 2 + k] = 'Q'; x[n + 3 + k] = 0; }
    r = m38_get_cookie_value(x, n, m); if (vs < 0) CHECK(r == 0, "what follows the header value does not count"); else { size_t l = (size_t)(ve - vs); CHECK(r != 0, "a cookie that is there is found"); CHECK(sym_valid(r, l + 1) && sym_eq(r, ck + vs, l) && r[l] == 0, "the value is exactly the bytes up to the next ';' or the end"); free(r); } free(x); CHECK(sym_live() + 1 == live, "nothing leaks"); }
  free(m);
}
static void text(char *s, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)s[i]; sym_assume((c != 0) & (c != 9) & (c != 10) & (c != 13)); } }
static void nam(char *s, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)s[i]; sym_assume((c > 32) & (c != '=') & (c != ';')); } }
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { char s[16], m[4]; 
#ifdef THOROUGH
    size_t n = sym_pick(0, 10, "n"), k = sym_pick(1, 2, "k");
#else
    size_t n = sym_pick(0, 8, "n"), k = sym_pick(1, 2, "k");
#endif
    sym_bytes(s, n, "cookie"); text(s, n); sym_bytes(m, k, "name"); nam(m, k); chk(s, n, m, k); break; }
  case 1: { // several items, names that are prefixes, suffixes or values of each other
    static const char *I[] = {"id=1", "sid=2", "id2=3", "x=id=4", "id", "id=", "=id", "ID=5", "id =6", "id=a b", ""}; static const char *S[] = {";", "; ", ";  "}; static char s[64]; size_t n = 0; int c = (int)sym_pick(1, 3, "items"); const char *sep = S[sym_pick(0, 2, "sep")];
    for (int i = 0; i < c; i++) { const char *it = I[sym_pick(0, 10, "item")]; if (i) { strcpy(s + n, sep); n += strlen(sep); } strcpy(s + n, it); n += strlen(it); } chk(s, n, "id", 2); sym_reach("items"); break; }
  case 2: { // long values and names
    static const size_t L[] = {15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1500}; size_t v = L[sym_pick(0, 15, "vlen")], k = L[sym_pick(0, 12, "nlen")]; int before = (int)sym_pick(0, 1, "before"); static char s[4200], m[600]; memset(m, 'n', k);
    size_t n = 0; if (before) { memset(s, 'n', k); s[k - 1] = 'm'; n = k; s[n++] = '='; s[n++] = 'q'; s[n++] = ';'; s[n++] = ' '; } memset(s + n, 'n', k); n += k; s[n++] = '='; memset(s + n, 'v', v); sym_bytes(s + n + v - 1, 1, "last"); text(s + n + v - 1, 1); n += v; memcpy(s + n, "; t=1", 5); n += 5; chk(s, n, m, k); sym_reach("long"); break; }
  case 3: CHECK(m38_get_cookie_value(0, 0, "x") == 0, "no header, no cookie"); break;
  }
}
