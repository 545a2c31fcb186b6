// H09: partial responses.
#include "http.h"
#ifdef THOROUGH
#define RG 4
#else
#define RG 3
#endif
static int code; static unsigned char *body; static size_t blen; static const char *mime; static int is_null;
static int handler(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = is_null ? 0 : body; s->outsize = blen; if (mime) strcpy(s->mimetype, mime); return code; }
static int eat(const char *b, size_t n, size_t *p, const char *s) { size_t l = strlen(s); if (*p + l > n || !sym_eq(b + *p, s, l)) return 0; *p += l; return 1; }
static int line(const char *b, size_t n, size_t *p) { while (*p + 2 <= n) { if (b[*p] == '\r' && b[*p + 1] == '\n') { *p += 2; return 1; } (*p)++; } return 0; }
/* finds 'name: <digits>' as a header line of the block and returns the digits' value; text form compared by the caller */
static int has_line(const char *b, size_t hl, const char *l) { size_t k = strlen(l); for (size_t i = 0; i + k <= hl; i++) if ((i == 0 || (i >= 2 && b[i - 1] == '\n')) && sym_eq(b + i, l, k)) return 1; return 0; }
static m38_handled_request *h; static const char *b; static size_t n, hl; static uint64_t live; static m38_app *app; static m38_route rt;
static void ask(const char *range, size_t rl) {
  char *req = malloc(rl + 100); size_t k = put(req, "GET /p HTTP/1.1\r\nHost: x\r\nRange: "); memcpy(req + k, range, rl); k += rl; k += put(req + k, "\r\nX: y\r\n\r\n");
  mkroute(&rt, "GET", "^/p$", 0, handler, 0); app = mkapp(&rt, 1, 0); live = sym_live(); h = req1(app, req, k); free(req); live = live - 1; CHECK(h != 0, "the request is answered"); b = h->response_bytes; n = h->response_len;
  CHECK(sym_valid(b, n) && sym_init(b, n), "every byte of the recorded length exists and was written");
  for (hl = 4; hl <= n; hl++) if (b[hl - 4] == '\r' && b[hl - 3] == '\n' && b[hl - 2] == '\r' && b[hl - 1] == '\n') break; CHECK(hl <= n, "a blank line ends the header block"); }
static void done(void) { finish(h); CHECK(conns[nconns - 1].closed == 1, "closed once"); CHECK(sym_live() == live, "nothing leaks"); free(app); nconns = 0; }
static void partial(size_t s, size_t e) { char t[120]; size_t p = 0, k; CHECK(eat(b, n, &p, "HTTP/1.1 206") && line(b, n, &p), "a 206 is sent"); CHECK(h->response_code == 206, "the recorded status is 206");
  k = put(t, "Content-Range: bytes "); k += putn(t + k, s); t[k++] = '-'; k += putn(t + k, e); t[k++] = '/'; k += putn(t + k, blen); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has_line(b, hl, t), "Content-Range states first byte, last byte and size");
  k = put(t, "Content-Length: "); k += putn(t + k, n - hl); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has_line(b, hl, t), "Content-Length is the number of body bytes");
  k = put(t, "Content-Type: "); k += put(t + k, mime && mime[0] ? mime : "text/html"); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has_line(b, hl, t), "Content-Type is the handler's or text/html"); CHECK(has_line(b, hl, "Connection: close\r\n"), "Connection: close"); CHECK(has_line(b, hl, "Server: 38-Moths\r\n"), "Server line");
  CHECK(n - hl == e - s + 1, "the body has the requested number of bytes"); CHECK(sym_eq(b + hl, body + s, e - s + 1), "the body is exactly the requested bytes"); done(); }
static size_t num(char *t, uint64_t a, int open, uint64_t z) { size_t k = put(t, "bytes="); k += putn(t + k, a); t[k++] = '-'; if (!open) k += putn(t + k, z); return k; }
static void whole_or(uint64_t a, int open, uint64_t z) { /* expectation for a well-formed range; z < a means no limit */
  if (a >= blen) { partial(0, blen - 1); sym_reach("outside"); return; } if (open || z < a) { partial((size_t)a, blen - 1); sym_reach("open"); return; } partial((size_t)a, z < blen - 1 ? (size_t)z : blen - 1); if (z >= blen) sym_reach("cut"); else sym_reach("inside"); }
static void mk(size_t l) { blen = l; body = malloc(l); memset(body, 'B', l); }
static const uint64_t SZ[] = {1, 2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 4095, 4096, 4097, 9999, 10000, 10001, 99999, 100000, 100001};
void main_sym(void) { code = 200; mime = 0; is_null = 0; char t[200];
  switch (sym_arg()) {
  case 0: { // small contents, all A and B
    mk(sym_pick(1, 6, "n")); sym_bytes(body, blen, "body"); uint64_t a = sym_pick(0, 7, "A"); int open = (int)sym_pick(0, 1, "open"); uint64_t z = open ? 0 : sym_pick(1, 8, "B"); if (!open && z < a) sym_stop(); ask(t, num(t, a, open, z)); whole_or(a, open, z); free(body); break; }
  case 1: { // sizes and offsets of every number of digits
    mk(SZ[sym_pick(0, 19, "n")]); size_t w = sym_pick(0, 8, "A"); uint64_t A[] = {0, 1, 9, 10, blen / 2, blen - 1, blen, 10 * blen, 100}; uint64_t a = A[w]; uint64_t Z[] = {1, a, a + 1, 9, 10, 99, 100, blen / 2 + 1, blen - 2, blen - 1, blen, blen + 1, 1000000}; size_t x = sym_pick(0, 13, "B"); int open = x == 13; uint64_t z = open ? 0 : Z[x]; if (!open && (z < a || z == 0 || z > 2000000)) sym_stop();
    sym_bytes(body, 1, "first"); sym_bytes(body + blen - 1, 1, "last"); if (a < blen) sym_bytes(body + a, 1, "from"); if (!open && z < blen) sym_bytes(body + z, 1, "to"); ask(t, num(t, a, open, z)); whole_or(a, open, z); free(body); sym_reach("sizes"); break; }
  case 2: { // malformed ranges deliver everything
    static const char *const M[] = {"", "b", "bytes", "bytes=", "bytes", "byte=1-2", "Bytes=1-2", "bytes 1-2", "bytes=3", "items=1-2", "=1-2", "1-2", "bytes=99999999999999999999-", "bytes=99999999999999999999-99999999999999999999", "bytes:1-2", "bytes=abc"}; size_t m = sym_pick(0, 15, "m"); if (m == 3) sym_stop();
    mk(sym_pick(1, 5, "n")); sym_bytes(body, blen, "body"); ask(M[m], strlen(M[m])); partial(0, blen - 1); free(body); sym_reach("malformed"); break; }
  case 3: { // limits beyond every integer type
    static const char *const M[] = {"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457"}; mk(sym_pick(1, 5, "n")); sym_bytes(body, blen, "body"); size_t m = sym_pick(0, 11, "m"); size_t k = put(t, "bytes="); uint64_t a = sym_pick(0, 5, "A"); int where = (int)sym_pick(0, 2, "where");
    if (where == 0) { k += putn(t + k, a); k += put(t + k, "-"); k += put(t + k, M[m]); ask(t, k); partial(a < blen ? a : 0, blen - 1); } else { k += put(t + k, M[m]); k += put(t + k, "-"); if (where == 2) k += put(t + k, M[m]); ask(t, k); partial(0, blen - 1); } free(body); sym_reach("limits"); break; }
  case 4: { // anything after bytes=: always a slice of the content, consistently described
    mk(sym_pick(1, 3, "n")); sym_bytes(body, blen, "body"); size_t k = put(t, "bytes="); size_t g = sym_pick(0, RG, "len"); sym_bytes(t + k, g, "range"); for (size_t i = 0; i < g; i++) sym_assume(t[k + i] != '\r' && t[k + i] != '\n' && t[k + i] != 0); ask(t, k + g); size_t l = n - hl; CHECK(l >= 1 && l <= blen, "the body is not longer than the content"); char r[80]; int ok = 0;
    for (size_t s = 0; s + l <= blen; s++) { size_t q = put(r, "Content-Range: bytes "); q += putn(r + q, s); r[q++] = '-'; q += putn(r + q, s + l - 1); r[q++] = '/'; q += putn(r + q, blen); q += put(r + q, "\r\n"); r[q] = 0; if (has_line(b, hl, r)) { ok = 1; CHECK(sym_eq(b + hl, body + s, l), "the body is the described slice of the content"); } } CHECK(ok, "Content-Range describes the body"); size_t q = put(r, "Content-Length: "); q += putn(r + q, l); q += put(r + q, "\r\n"); r[q] = 0; CHECK(has_line(b, hl, r), "Content-Length is the number of body bytes"); done(); free(body); sym_reach("anything"); break; }
  case 5: { // other statuses and empty bodies are not partial
    static const int C[] = {200, 301, 302, 400, 403, 404, 500}; static const char *const M[] = {"bytes=0-1", "bytes=1-", "bytes=", "x", "bytes=9-9"}; code = C[sym_pick(0, 6, "code")]; size_t l = sym_pick(0, 3, "n"); if ((code == 200) != (l == 0)) sym_stop(); mk(l ? l : 1); blen = l; if (l) sym_bytes(body, l, "body"); is_null = l == 0 && sym_pick(0, 1, "null"); size_t m = sym_pick(0, 4, "m"); ask(M[m], strlen(M[m]));
    size_t p = 0, k = put(t, "HTTP/1.1 "); k += putn(t + k, (uint64_t)code); t[k++] = ' '; t[k] = 0; CHECK(eat(b, n, &p, t), "the status is the handler's"); CHECK(h->response_code == code, "the recorded status is the handler's"); k = put(t, "Content-Length: "); k += putn(t + k, l); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has_line(b, hl, t), "Content-Length is the body size"); CHECK(n - hl == l && (!l || sym_eq(b + hl, body, l)), "the body is whole"); for (size_t i = 0; i + 13 <= hl; i++) CHECK(!(b[i] == 'C' && sym_eq(b + i, "Content-Range", 13)), "no Content-Range"); done(); free(body); sym_reach("not partial"); break; }
  case 6: { // content types of every length
    char m[40]; size_t l = sym_pick(0, 31, "mime"); memset(m, 'm', l); m[l] = 0; mime = m; mk(12); sym_bytes(body, 12, "body"); uint64_t a = sym_pick(0, 1, "A") * 9; ask(t, num(t, a, 0, a + 1)); whole_or(a, 0, a + 1); free(body); sym_reach("types"); break; }
  }
}
