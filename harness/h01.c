// H01: request line and header block.
#include "sym.h"
#include "parse.h"
#include <string.h>
#include <stdlib.h>
static void chk(const unsigned char *s, size_t n) {
  // reference
  size_t a = 0; while (a < n && s[a] != ' ') a++; size_t b = a + 1; while (a < n && b < n && s[b] != ' ') b++; int words = a < n && b < n;
  size_t h = 0; while (h + 4 <= n && !((s[h] == '\r') & (s[h + 1] == '\n') & (s[h + 2] == '\r') & (s[h + 3] == '\n'))) h++; int blank = h + 4 <= n; size_t pl = b - a - 1;
  int ok = words && blank && pl <= 511;
  unsigned char *in = malloc(n + 1); memcpy(in, s, n); in[n] = 0; m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r);
  int rc = m38_parse_request(in, n, r);
  CHECK(sym_eq(in, s, n) && in[n] == 0, "the received bytes are left alone");
  if (!ok) { CHECK(rc != 0, "a request without two words and a blank line inside the received bytes is refused"); sym_reach("refused"); }
  else { CHECK(rc == 0, "a request with two words and a blank line inside the received bytes is accepted"); size_t vl = a < 15 ? a : 15;
    CHECK(sym_eq(r->verb, s, vl) && r->verb[vl] == 0, "the method is the first word, cut to 15 bytes");
    CHECK(sym_eq(r->resource, s + a + 1, pl) && r->resource[pl] == 0, "the path is the second word");
    CHECK(r->header_len == h + 4, "the header length counts everything up to and including the blank line"); CHECK(sym_valid(r->full_header, h + 5) && sym_eq(r->full_header, s, h + 4) && r->full_header[h + 4] == 0, "the header block is everything up to and including the blank line");
    sym_reach("accepted"); }
  free(r->full_header); free(r); free(in); CHECK(sym_live() == 0, "nothing leaks");
}
static void line(const unsigned char *s, size_t n) { int sp = 0; for (size_t i = 0; i < n && sp < 2; i++) { sym_assume(s[i] != 0); sp += s[i] == ' '; } } /* no NUL in the request line */
#ifdef THOROUGH
#define NS 11
#define NT 6
#else
#define NS 9
#define NT 5
#endif
void main_sym(void) {
  static unsigned char s[4200];
  switch (sym_arg()) {
  case 0: { size_t n = sym_pick(0, NS, "n"); sym_bytes(s, n, "req"); line(s, n); chk(s, n); break; }
  case 1: { // a normal request line, then arbitrary bytes (NUL included)
    memcpy(s, "GET /a HTTP/1.1", 15); size_t n = 15 + sym_pick(0, NT + 2, "n"); sym_bytes(s + 15, n - 15, "tail"); chk(s, n); sym_reach("tail"); break; }
  case 2: { // long words
    size_t v = sym_pick(0, 18, "vlen"); static const size_t P[] = {0, 1, 15, 16, 127, 255, 256, 510, 511, 512, 513, 600, 1000}; size_t p = P[sym_pick(0, 12, "plen")], n = 0; memset(s, 'V', v); n = v; s[n++] = ' '; memset(s + n, 'p', p); if (p) { sym_bytes(s + n + p - 1, 1, "last"); sym_assume((s[n + p - 1] != ' ') & (s[n + p - 1] != 0)); } n += p;
    int k = (int)sym_pick(0, 3, "rest"); if (k) s[n++] = ' '; if (k > 1) { memcpy(s + n, "HTTP/1.1\r\n", 10); n += 10; } if (k > 2) { memcpy(s + n, "\r\nbody", 6); n += 6; } chk(s, n); sym_reach("long words"); break; }
  case 3: { // the blank line at, before or behind the end of what was received
    static const size_t H[] = {30, 255, 256, 511, 512, 1000, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 4000}; size_t h = H[sym_pick(0, 15, "hlen")]; memcpy(s, "POST /x HTTP/1.1\r\nA: ", 21); memset(s + 21, 'h', h - 21); sym_bytes(s + h, 4, "end"); size_t n = h + sym_pick(0, 5, "got"); s[h + 4] = 'B'; chk(s, n); sym_reach("edge"); break; }
  case 4: { // bytes behind the header block, with further blank lines in it
    memcpy(s, "GET / HTTP/1.1\r\nX: y\r\n\r\n", 24); size_t b = sym_pick(0, NT, "n"); sym_bytes(s + 24, b, "body"); chk(s, 24 + b); sym_reach("body"); break; }
  case 5: { // no or one space, spaces only behind the received bytes
    size_t n = sym_pick(0, 8, "n"); memcpy(s, "GET /\r\n\r\n", 9); int k = (int)sym_pick(0, 1, "k"); if (k) memcpy(s, "GETxx\r\n\r\n", 9); unsigned char *in = malloc(40); memcpy(in, s, n); memcpy(in + n, " / HTTP/1.1\r\n\r\n", 16); in[n + 16] = 0; in[39] = 0; m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r);
    int rc = m38_parse_request(in, n, r); CHECK(rc != 0, "bytes behind the received ones do not count"); free(r->full_header); free(r); free(in); sym_reach("behind"); break; }
  }
}
