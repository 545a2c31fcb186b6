// H08: full responses. H15 (arg >= 10): custom headers.
#include "http.h"
static int code; static unsigned char *body; static size_t blen; static const char *mime; static int is_null;
static struct { char *n; size_t nl; char *v; size_t vl; int term; } hd[260]; static int nh; static uint64_t added_ok;
static int handler(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = is_null ? 0 : body; s->outsize = blen; if (mime) strcpy(s->mimetype, mime);
  for (int i = 0; i < nh; i++) { char *n = malloc(hd[i].nl + 1), *v = malloc(hd[i].vl + 1); memcpy(n, hd[i].n, hd[i].nl); memcpy(v, hd[i].v, hd[i].vl); n[hd[i].nl] = v[hd[i].vl] = 0; if (!hd[i].term) { char *n2 = malloc(hd[i].nl ? hd[i].nl : 1), *v2 = malloc(hd[i].vl ? hd[i].vl : 1); memcpy(n2, n, hd[i].nl); memcpy(v2, v, hd[i].vl); free(n); free(v); n = n2; v = v2; }
    int rc = m38_insert_custom_header(s, n, hd[i].nl, v, hd[i].vl); CHECK(rc == 1, "adding a custom header reports success"); memset(n, '#', hd[i].nl); memset(v, '#', hd[i].vl); free(n); free(v); }
  return code; }
static int eat(const char *b, size_t n, size_t *p, const char *s) { size_t l = strlen(s); if (*p + l > n || !sym_eq(b + *p, s, l)) return 0; *p += l; return 1; }
static int eatm(const char *b, size_t n, size_t *p, const char *s, size_t l) { if (*p + l > n || (l && !sym_eq(b + *p, s, l))) return 0; *p += l; return 1; }
static int line(const char *b, size_t n, size_t *p) { while (*p + 2 <= n) { if (b[*p] == '\r' && b[*p + 1] == '\n') { *p += 2; return 1; } (*p)++; } return 0; }
static char exphead[9000];
static void go(const char *req) {
  static m38_route rt; mkroute(&rt, "GET", "^/p$", 0, handler, 0); m38_app *app = mkapp(&rt, 1, 0); uint64_t live = sym_live();
  m38_handled_request *h = req1(app, req, strlen(req)); CHECK(h != 0, "the request is answered"); const char *b = h->response_bytes; size_t n = h->response_len, p = 0; char t[64]; size_t k;
  CHECK(sym_valid(b, n) && sym_init(b, n), "every byte of the recorded length exists and was written");
  k = put(t, "HTTP/1.1 "); k += putn(t + k, (uint64_t)code); t[k++] = ' '; t[k] = 0; CHECK(eat(b, n, &p, t), "the status line has the handler's status code"); size_t q = p; CHECK(line(b, n, &p) && p > q + 2, "the status line names the status");
  CHECK(eat(b, n, &p, "Content-Type: ") && eat(b, n, &p, mime && mime[0] ? mime : "text/html") && eat(b, n, &p, "\r\n"), "Content-Type is the handler's or text/html");
  k = put(t, "Content-Length: "); k += putn(t + k, blen); k += put(t + k, "\r\n"); t[k] = 0; CHECK(eat(b, n, &p, t), "Content-Length is the body size"); CHECK(eat(b, n, &p, "Connection: close\r\n"), "Connection: close follows");
  for (int i = 0; i < nh; i++) { CHECK(eatm(b, n, &p, hd[i].n, hd[i].nl) && eat(b, n, &p, ": ") && eatm(b, n, &p, hd[i].v, hd[i].vl) && eat(b, n, &p, "\r\n"), "custom headers follow in the order added"); }
  CHECK(eat(b, n, &p, "Server: 38-Moths\r\n\r\n"), "the Server line and one blank line end the header block"); CHECK(n - p == blen, "the recorded length counts header block and body"); CHECK(blen == 0 || sym_eq(b + p, body, blen), "the body is exactly the handler's bytes");
  CHECK(h->response_code == code, "the recorded status is the handler's"); sym_reach("full response");
  finish(h); CHECK(conns[nconns - 1].closed == 1, "closed once"); CHECK(sym_live() == live, "nothing leaks"); free(app); nconns = 0; }
static const int CODES[] = {200, 301, 302, 400, 403, 404, 500};
static void mk(size_t n) { body = malloc(n ? n : 1); blen = n; memset(body, 'B', n); is_null = 0; }
static char *str(size_t n, char c) { char *s = malloc(n + 1); memset(s, c, n); s[n] = 0; return s; }
void main_sym(void) {
  nh = 0; mime = 0; code = 200;
  switch (sym_arg()) {
  case 0: { code = CODES[sym_pick(0, 6, "code")]; size_t n = sym_pick(0, 6, "n"); if (code == 404 && n == 0) n = 1; mk(n); sym_bytes(body, n, "body"); go("GET /p HTTP/1.1\r\n\r\n"); free(body); break; }
  case 1: { static const size_t N[] = {0, 1, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, 4095, 4096, 4097, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 999999, 1000000}; code = CODES[sym_pick(0, 6, "code")]; size_t n = N[sym_pick(0, 24, "n")]; if (code == 404 && n == 0) n = 1; mk(n); if (n) sym_bytes(body + n - 1, 1, "last"); if (n > 1) sym_bytes(body, 1, "first"); go("GET /p HTTP/1.1\r\nHost: x\r\n\r\n"); free(body); sym_reach("sizes"); break; }
  case 2: { char m[40]; size_t l = sym_pick(0, 31, "mime"); memset(m, 'm', l); if (l) { sym_bytes(m + l - 1, 1, "c"); sym_assume(m[l - 1] != 0); } m[l] = 0; mime = m; code = CODES[sym_pick(0, 1, "code")]; mk(sym_pick(0, 3, "n")); sym_bytes(body, blen, "body"); go("GET /p HTTP/1.1\r\n\r\n"); free(body); sym_reach("types"); break; }
  case 3: { // no body at all
    code = CODES[sym_pick(0, 4, "code")]; mk(0); is_null = 1; go("GET /p HTTP/1.1\r\n\r\n"); free(body); sym_reach("null body"); break; }
  case 4: { // body and type contain what looks like format directives or terminators
    static char m[] = "a%s%n/%zu"; mime = m; mk(8); memcpy(body, "%s\r\n\r\n%", 8); code = CODES[sym_pick(0, 6, "code")]; hd[0].n = "%s%s"; hd[0].nl = 4; hd[0].v = "%n%d %zu"; hd[0].vl = 8; hd[0].term = 1; nh = (int)sym_pick(0, 1, "h"); go("GET /p HTTP/1.1\r\n\r\n"); free(body); sym_reach("directives"); break; }
  // ---- H15
  case 10: { // arbitrary short names and values
    nh = (int)sym_pick(0, 3, "n"); code = CODES[sym_pick(0, 6, "code")]; for (int i = 0; i < nh; i++) { hd[i].nl = sym_pick(1, 2, "nl"); hd[i].vl = sym_pick(0, 2, "vl"); hd[i].n = str(hd[i].nl, 'N'); hd[i].v = str(hd[i].vl, 'V'); sym_bytes(hd[i].n, hd[i].nl, "name"); sym_bytes(hd[i].v, hd[i].vl, "value"); for (size_t j = 0; j < hd[i].nl; j++) sym_assume(hd[i].n[j] != 0); for (size_t j = 0; j < hd[i].vl; j++) sym_assume(hd[i].v[j] != 0); hd[i].term = 1; }
    mk(2); sym_bytes(body, 2, "body"); go("GET /p HTTP/1.1\r\n\r\n"); free(body); for (int i = 0; i < nh; i++) { free(hd[i].n); free(hd[i].v); } sym_reach("custom headers"); break; }
  case 11: { // many headers
    static const int MORE[] = {16, 17, 32, 33, 64, 65, 66, 100, 129, 257}; nh = (int)sym_pick(0, 24, "n"); if (nh > 14) nh = MORE[nh - 15]; for (int i = 0; i < nh; i++) { hd[i].nl = 1 + (size_t)i % 5; hd[i].vl = (size_t)(i * 7) % 11; hd[i].n = str(hd[i].nl, (char)('A' + i % 26)); hd[i].v = str(hd[i].vl, (char)('a' + i / 26)); hd[i].term = i & 1; } mk(3); sym_bytes(body, 3, "body"); go("GET /p HTTP/1.1\r\n\r\n"); free(body); for (int i = 0; i < nh; i++) { free(hd[i].n); free(hd[i].v); } sym_reach("many headers"); break; }
  case 12: { // long names and values, one or two of them
    static const size_t L[] = {1, 7, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 3000}; nh = (int)sym_pick(1, 2, "n"); size_t a = L[sym_pick(0, 17, "nl")], v = L[sym_pick(0, 17, "vl")]; hd[0].nl = a; hd[0].vl = v; hd[0].n = str(a, 'N'); hd[0].v = str(v, 'V'); hd[0].term = (int)sym_pick(0, 1, "term"); sym_bytes(hd[0].v + v - 1, 1, "last"); sym_assume(hd[0].v[v - 1] != 0); hd[1].n = "Next"; hd[1].nl = 4; hd[1].v = "value"; hd[1].vl = 5; hd[1].term = 1; mk(1); go("GET /p HTTP/1.1\r\n\r\n"); free(body); free(hd[0].n); free(hd[0].v); sym_reach("long headers"); break; }
  case 15: { // headers of the same name, of the same value, of both, next to each other or not
    static const int N[] = {2, 3, 4, 5, 8, 17, 33, 70}; nh = N[sym_pick(0, 7, "n")]; int kind = (int)sym_pick(0, 5, "kind"); char *v = str(3, 'v'); sym_bytes(v + 2, 1, "last"); sym_assume(v[2] != 0); for (int i = 0; i < nh; i++) { int same = kind == 0 || (kind == 1 && i % 2 == 0) || (kind == 2 && i >= nh / 2) || (kind == 5 && (i == 0 || i == nh - 1)); hd[i].nl = 6; hd[i].n = str(6, same || kind == 3 ? 'N' : (char)('a' + i % 26)); hd[i].vl = 3; hd[i].v = same || kind == 4 ? v : str(3, (char)('A' + i % 26)); hd[i].term = i & 1; } mk(1); go("GET /p HTTP/1.1\r\n\r\n"); free(body); for (int i = 0; i < nh; i++) { free(hd[i].n); if (hd[i].v != v) free(hd[i].v); } free(v); sym_reach("same headers"); break; }
  case 14: { // very long names and values, one or two of them
    static const size_t L[] = {1, 4096, 8191, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 200000, 1048577, 4100000}; nh = 3; size_t w = sym_pick(0, 12, "l"), o = sym_pick(0, 1, "other") ? 70000 : 3; if (w == 12) o = 3; int which = (int)sym_pick(0, 1, "which"); hd[0].nl = which ? L[w] : o; hd[0].vl = which ? o : L[w]; hd[0].n = str(hd[0].nl, 'N'); hd[0].v = str(hd[0].vl, 'V'); hd[0].term = 1; sym_bytes(hd[0].v + hd[0].vl - 1, 1, "last"); sym_assume(hd[0].v[hd[0].vl - 1] != 0); hd[1].nl = 4; hd[1].n = "Next"; hd[1].vl = o; hd[1].v = str(o, 'W'); hd[1].term = 1; hd[2].n = "Last"; hd[2].nl = 4; hd[2].v = "value"; hd[2].vl = 5; hd[2].term = 1; mk(1); go("GET /p HTTP/1.1\r\n\r\n"); free(body); free(hd[0].n); free(hd[0].v); free(hd[1].v); sym_reach("very long headers"); break; }
  case 13: { // refused additions
    m38_http_response r; memset(&r, 0, sizeof r); r.extra_headers = vector_new(sizeof(void *), 4); uint64_t live = sym_live(); int pre = (int)sym_pick(0, 2, "before"); char hb[2] = "a"; for (int i = 0; i < pre; i++) CHECK(m38_insert_custom_header(&r, hb, 1, "v", 1) == 1, "added"); size_t c0 = r.extra_headers->count; uint64_t l2 = sym_live();
    int k = (int)sym_pick(1, 7, "missing"); int rc = m38_insert_custom_header(k & 1 ? 0 : &r, k & 2 ? 0 : "n", 1, k & 4 ? 0 : "v", 1); CHECK(rc == 0, "a missing name, value or response is refused"); CHECK(r.extra_headers->count == c0 && sym_live() == l2, "nothing is added"); (void)live; sym_reach("refused"); break; }
  }
}
