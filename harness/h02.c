// H02: header lookup.
#include "sym.h"
#include "parse.h"
#include <string.h>
#include <stdlib.h>
static void chk(const char *t, size_t n, const char *nm, size_t k, int term) {
  long vs = -1, ve = 0; size_t i = 0;
  while (vs < 0) { size_t e = i; while (e + 2 <= n && !((t[e] == '\r') & (t[e + 1] == '\n'))) e++; if (e + 2 > n) break;
    if (e - i > k && sym_eq(t + i, nm, k) && t[i + k] == ':') { size_t v = i + k + 1; while (v < e && (t[v] == ' ' || t[v] == '\t')) v++; vs = (long)v; ve = (long)e; } i = e + 2; }
  char *c = malloc(n + term + 1), *m = malloc(k + 1); memcpy(c, t, n); if (term) c[n] = 0; memcpy(m, nm, k); m[k] = 0; (void)term;
  char *q = c; if (!term) { q = malloc(n ? n : 1); memcpy(q, t, n); }
  uint64_t live = sym_live(); char *r; 
  if (term && sym_pick(0, 1, "via")) { m38_http_request rq; memset(&rq, 0, sizeof rq); rq.full_header = q; rq.header_len = n; r = m38_get_header_value_request(&rq, m); } else r = m38_get_header_value_raw(q, n, m);
  if (vs < 0) { CHECK(r == 0, "a header that is not there is absent"); sym_reach("absent"); }
  else { CHECK(r != 0, "a header that is there is found"); size_t l = (size_t)(ve - vs); CHECK(sym_valid(r, l + 1) && sym_eq(r, t + vs, l) && r[l] == 0, "the value is exactly the rest of its line"); free(r); sym_reach("found"); }
  CHECK(sym_live() == live, "nothing leaks"); CHECK(sym_eq(q, t, n), "the request text is left alone");
  if (q != c) free(q); free(c); free(m);
}
static void text(const char *s, size_t n) { for (size_t i = 0; i < n; i++) sym_assume(s[i] != 0); }
#ifdef THOROUGH
#define NS 10
#else
#define NS 8
#endif
void main_sym(void) {
  static char s[4200]; static char m[600]; static const char F[] = "GET /ab:c?d:e HTTP/1.1\r\n";
  switch (sym_arg()) {
  case 0: { // arbitrary text behind the request line, not terminated, arbitrary one- or two-byte name
    memcpy(s, F, 24); size_t n = sym_pick(0, NS, "n"), k = sym_pick(1, 2, "k"); sym_bytes(s + 24, n, "text"); text(s + 24, n); sym_bytes(m, k, "name"); for (size_t i = 0; i < k; i++) sym_assume((m[i] > 32) & (m[i] != ':') & (m[i] < 127)); chk(s, 24 + n, m, k, (int)sym_pick(0, 1, "terminated")); break; }
  case 1: { // header lists in which the name is part of other names, values and the path
    static const char *I[] = {"Host: a", "X-Host: b", "Host2: c", "A: Host: d", "host: e", "Host:f", "Host:   g h ", "Host :i", "Host", "Host:", " Host: j", "Referer: http://x/Host: k"}; static const char *P[] = {"GET / HTTP/1.1\r\n", "GET /Host: HTTP/1.1\r\n", "GET /?x=Host:y HTTP/1.1\r\n"};
    const char *p = P[sym_pick(0, 2, "path")]; size_t n = strlen(p); memcpy(s, p, n); int c = (int)sym_pick(0, 3, "lines"); for (int i = 0; i < c; i++) { const char *l = I[sym_pick(0, 11, "line")]; memcpy(s + n, l, strlen(l)); n += strlen(l); if (i + 1 < c || sym_pick(0, 1, "complete")) { memcpy(s + n, "\r\n", 2); n += 2; } }
    if (sym_pick(0, 1, "end")) { memcpy(s + n, "\r\n", 2); n += 2; } chk(s, n, "Host", 4, 0); sym_reach("lists"); break; }
  case 2: { // long names and values
    static const size_t L[] = {1, 31, 127, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 2000}; size_t k = L[sym_pick(0, 9, "nlen")], v = L[sym_pick(0, 13, "vlen")]; memset(m, 'n', k); size_t n = 24; memcpy(s, F, 24); if (sym_pick(0, 1, "before")) { memset(s + n, 'n', k + 1); n += k + 1; memcpy(s + n, ": no\r\n", 6); n += 6; }
    memset(s + n, 'n', k); n += k; s[n++] = ':'; s[n++] = ' '; memset(s + n, 'v', v); sym_bytes(s + n + v - 1, 1, "last"); text(s + n + v - 1, 1); n += v; memcpy(s + n, "\r\n\r\n", 4); n += 4; n -= sym_pick(0, 4, "cut"); chk(s, n, m, k, (int)sym_pick(0, 1, "terminated")); sym_reach("long"); break; }
  case 3: { // with arbitrary bytes, NUL included: only memory safety and the form of the answer
    memcpy(s, F, 24); size_t n = sym_pick(0, NS, "n"); sym_bytes(s + 24, n, "text"); char *q = malloc(24 + n); memcpy(q, s, 24 + n); char *r = m38_get_header_value_raw(q, 24 + n, "a"); if (r) { CHECK(strlen(r) <= n, "the value is not longer than the text"); free(r); } free(q); CHECK(sym_live() == 0, "nothing leaks"); sym_reach("nul"); break; }
  }
}
