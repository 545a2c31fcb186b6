// Sizes and counts beyond every round number nearby: requests, responses, routes, files (H03, H08, H09, H10, H11, H14, H17, H22).
#include "http.h"
#include "parse.h"
#include "greshunkel.h"
#include "utils.h"
#include "simple_sparsehash.h"
static void pat(unsigned char *p, size_t n, unsigned s) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)('a' + (i * 7 + i / 251 + s) % 26); }
static const size_t L[] = {4096, 8192, 9000, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 70000, 100000, 140000};
static const size_t RL[] = {65537, 70000, 140000, 1048575, 1048576, 1048577, 2500000};
static size_t len(const char *nm) { return L[sym_pick(0, 13, nm)]; }
static unsigned char *body, *expect; static size_t blen, elen; static int ran, which; static const char *w_hdr; static size_t w_hl; static int formed;
static int h(const m38_http_request *r, m38_http_response *s) { (void)r; ran++; s->out = body; s->outsize = blen; return 200; }
static int hb(const m38_http_request *r, m38_http_response *s) { ran++; CHECK(r->body_len == elen && sym_valid(r->full_body, elen + 1) && sym_eq(r->full_body, expect, elen) && r->full_body[elen] == 0, "the body is byte for byte what was received, cut to Content-Length");
  if (w_hdr) { char *v = m38_get_header_value_request(r, "X-V"); CHECK(v != 0 && sym_eq(v, w_hdr, w_hl) && v[w_hl] == 0, "the handler finds the value of a header"); free(v); }
  if (formed) { size_t z; CHECK(r->form_elements != 0, "the fields of a form are there"); const void *v = sparse_dict_get(r->form_elements, "a", 1, &z); CHECK(v && z == elen - 2 && sym_eq(v, expect + 2, z), "a field has the value that was submitted"); }
  return m38_return_raw_buffer("ok", 2, s); }
static int hn(const m38_http_request *r, m38_http_response *s) { (void)s; ran++; which = atoi(r->resource + 2); return m38_return_raw_buffer("ok", 2, s); }
static m38_route rt; static m38_route many[300];
static int hits[300]; static int hr(int i, m38_http_response *s) { hits[i]++; return m38_return_raw_buffer("ok", 2, s); }
static size_t head_end(const char *b, size_t n) { for (size_t i = 4; i <= n; i++) if (b[i - 4] == '\r' && b[i - 3] == '\n' && b[i - 2] == '\r' && b[i - 1] == '\n') return i; return 0; }
static int has(const char *b, size_t hl, const char *l) { size_t k = strlen(l); for (size_t i = 2; i + k <= hl; i++) if (b[i - 1] == '\n' && memcmp(b + i, l, k) == 0) return 1; return 0; }
static unsigned char *sink; static size_t want_total;
static long some(struct conn *c, size_t n) { (void)c; return (long)(n > 60000 ? n - 1 : n > 2 ? n - n / 3 : n); }
static void finish_big(m38_handled_request *q) { int k = 0; while (q) { CHECK(++k < 20000, "sending ends"); q = m38_send_response(q); } }
static int hfile(const m38_http_request *r, m38_http_response *s) { (void)r; return m38_mmap_file("/srv/a.txt", s); }
static int hrange(const m38_http_request *r, m38_http_response *s) { return h(r, s); }
void main_sym(void) { unsigned char s[2]; sym_bytes(s, 2, "byte"); uint64_t live; m38_app *app;
  switch (sym_arg()) {
  case 0: { // H03: large bodies, with the header block or after it, and m38_parse_body itself
    size_t n = len("size"); int how = (int)sym_pick(0, 2, "how"), d = (int)sym_pick(0, 2, "cl"); size_t c = d == 0 ? n : d == 1 ? n - 1 : n + 1; elen = c < n ? c : n; expect = malloc(n + 1); pat(expect, n, 1); expect[n - 1] = s[0]; expect[elen - 1] = s[1]; 
    if (how == 2) { m38_http_request *q = malloc(sizeof *q); memset(q, 0, sizeof *q); unsigned char *raw = malloc(7 + n + 1); memset(raw, 'h', 7); memcpy(raw + 7, expect, n); raw[7 + n] = 0; q->header_len = 7; CHECK(m38_parse_body(n, c, raw, q) == 0 && q->body_len == elen && sym_valid(q->full_body, elen + 1) && sym_eq(q->full_body, expect, elen) && q->full_body[elen] == 0, "the body is the received bytes cut to Content-Length"); free(q->full_body); free(q); free(raw); free(expect); CHECK(sym_live() == 0, "nothing leaks"); break; }
    char *b = malloc(n + 200); size_t k = put(b, "POST /p HTTP/1.1\r\nContent-Length: "); k += putn(b + k, c); k += put(b + k, "\r\n\r\n"); mkroute(&rt, "POST", "^/p$", 0, hb, 0); app = mkapp(&rt, 1, 0); live = sym_live(); int i = conn_add(); if (how) { memcpy(b + k, expect, n); conn_seg(i, b, k + n); } else { conn_seg(i, b, k); conn_seg(i, expect, n); } m38_handled_request *q = m38_generate_response(CONN0 + i, app); CHECK(q && ran == 1, "the handler is called once"); finish(q); CHECK(sym_live() == live, "nothing leaks"); free(b); free(expect); free(app); break; }
  case 1: case 2: { // H08, H09: large bodies, whole or a range
    int range = sym_arg() == 2; size_t ri = sym_pick(0, range ? 6 : 7, "size"); blen = ri == 7 ? 16777217 : RL[ri]; body = malloc(blen); if (ri == 7) memset(body, 'm', blen); else pat(body, blen, 2); body[blen - 1] = s[0]; body[0] = s[1]; char q[200]; size_t k = put(q, "GET /p HTTP/1.1\r\n"), a = 0, z = blen - 1; if (range) { static const size_t A[] = {0, 1, 65535, 65536}; a = A[sym_pick(0, 3, "from")]; int o = (int)sym_pick(0, 2, "to"); z = o == 0 ? blen - 1 : o == 1 ? blen - 2 : a ? a : 1; if (z < a) sym_stop(); k += put(q + k, "Range: bytes="); k += putn(q + k, a); q[k++] = '-'; if (o) k += putn(q + k, z); k += put(q + k, "\r\n"); } k += put(q + k, "\r\n");
    mkroute(&rt, "GET", "^/p$", 0, h, 0); app = mkapp(&rt, 1, 0); live = sym_live(); m38_handled_request *r = req1(app, q, k); CHECK(r && ran == 1, "answered"); const char *b = r->response_bytes; size_t hl = head_end(b, r->response_len < 1000 ? r->response_len : 1000), n = z - a + 1; CHECK(hl > 0, "a header block"); char t[100]; k = put(t, "Content-Length: "); k += putn(t + k, n); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has(b, hl, t), "Content-Length is the number of body bytes"); CHECK(r->response_len == hl + n && sym_valid(b, hl + n) && sym_eq(b + hl, body + a, n), "the body is exactly the bytes asked for"); if (range) { k = put(t, "Content-Range: bytes "); k += putn(t + k, a); t[k++] = '-'; k += putn(t + k, z); t[k++] = '/'; k += putn(t + k, blen); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has(b, hl, t), "Content-Range is the range"); } CHECK(r->response_code == (range ? 206 : 200), "status"); finish_big(r); CHECK(conns[0].closed == 1, "closed once"); free(app); free(body); (void)live; CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 3: { // H10: long route tables
    static const int N[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}; int n = N[sym_pick(0, 12, "n")]; for (int i = 0; i < n; i++) { char m[20] = "^/r"; size_t k = 3 + putn(m + 3, (uint64_t)i); k += put(m + k, "x?(y|z)*$"); mkroute(&many[i], i % 50 == 7 ? "PUT" : "GET", m, 0, hn, 0); } int w = (int)sym_pick(0, 3, "w"); int q = w == 0 ? n - 1 : w == 1 ? n - 2 : w == 2 ? n / 2 : n; int how = (int)sym_pick(0, 4, "how"); int want = q < n && q % 50 != 7 && how < 3; char p[40]; size_t k = put(p, how == 3 ? "GET /R" : "GET /r"); k += putn(p + k, (uint64_t)q); k += put(p + k, how == 1 ? "xzy" : how == 2 ? "y" : how == 4 ? "yx" : ""); k += put(p + k, " HTTP/1.1\r\n\r\n"); app = mkapp(many, n, 0); live = sym_live(); m38_handled_request *r = req1(app, p, k); CHECK(r && ran == want && r->response_code == (want ? 200 : 404), "the handler of the first matching route runs, once, and no other"); CHECK(!want || which == q, "the path"); finish(r); CHECK(sym_live() == live, "nothing leaks"); free(app); (void)hits; (void)hr; break; }
  case 4: { // H11: long responses, whole or short sends
    blen = RL[sym_pick(0, 6, "size")]; body = malloc(blen); pat(body, blen, 2); body[blen - 1] = s[0]; body[blen / 2] = s[1]; mkroute(&rt, "GET", "^/p$", 0, hrange, 0); app = mkapp(&rt, 1, 0); m38_handled_request *r = req1(app, "GET /p HTTP/1.1\r\n\r\n", 19); CHECK(r != 0, "answered"); want_total = r->response_len; sink = malloc(want_total); expect = malloc(want_total); memcpy(expect, r->response_bytes, want_total); conns[0].wire = sink; conns[0].cap = want_total; if (sym_pick(0, 1, "short")) send_rc = some; finish_big(r); CHECK(conns[0].nwire == want_total && sym_eq(sink, expect, want_total), "every byte is sent once and in order"); CHECK(conns[0].closed == 1, "closed once"); free(expect); free(sink); free(body); free(app); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 5: { // H14: large files
    static const size_t F[] = {65537, 140000, 1048576, 1048577, 5000000, 16777217, 33554433}; size_t n = F[sym_pick(0, 6, "n")]; unsigned char *d = malloc(n); memset(d, 'F', n); d[n - 1] = s[0]; d[n / 2] = s[1]; env_add_file("/srv/a.txt", d, n); m38_http_response R; memset(&R, 0, sizeof R); int rc = m38_mmap_file("/srv/a.txt", &R); CHECK(rc == 200 && R.outsize == n && sym_valid(R.out, n) && sym_eq(R.out, d, n), "exactly the file's bytes"); m38_mmap_cleanup(rc, &R); CHECK(env_open_maps == 0 && env_bad_unmap == 0 && env_open_fds == 0, "exactly the mapped region is unmapped"); free(d); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 6: { // H17: large template files
    size_t n = len("size"); unsigned char *d = malloc(n); for (size_t i = 0; i < n; i++) d[i] = i % 200 == 199 ? '\n' : 't'; int end = (int)sym_pick(0, 1, "end"); size_t k = n; if (end) { memcpy(d + n - 12, "xXx @name xXx" + 0, 12); memcpy(d + n - 13, "xXx @name xXx", 13); k = n - 13; } else { sym_assume((s[0] != 0) & (s[0] != 'x') & (s[0] != 'X') & (s[0] != '\r') & (s[0] != '\n')); d[n - 1] = s[0]; } env_add_file("t.html", d, n); greshunkel_ctext *c = gshkl_init_context(); gshkl_add_string(c, "name", "value"); m38_http_response R; memset(&R, 0, sizeof R); int rc = m38_render_file(c, "t.html", &R); CHECK(rc == 200 && R.outsize == (end ? k + 5 : n) && sym_valid(R.out, R.outsize) && sym_eq(R.out, d, k), "the text is what rendering the file's bytes gives"); CHECK(!end || sym_eq(R.out + k, "value", 5), "the text is what rendering the file's bytes gives"); m38_heap_cleanup(rc, &R); CHECK(env_open_maps == 0 && env_open_fds == 0 && env_bad_unmap == 0, "no descriptor or mapping stays behind"); free(d); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 7: { // H22: large headers and forms as the handler sees them
    size_t n = len("size"); int where = (int)sym_pick(0, 1, "where"), later = (int)sym_pick(0, 1, "later"); unsigned char *v = malloc(n); pat(v, n, 3); sym_assume((s[0] > ' ') & (s[0] < 127) & (s[0] != '&') & (s[0] != '%') & (s[0] != '+')); v[n - 1] = s[0]; elen = where ? n + 2 : 3; expect = malloc(elen + 1); memcpy(expect, "a=1", 3); if (where) memcpy(expect + 2, v, n); else { w_hdr = (char *)v; w_hl = n; } formed = 1; char *b = malloc(2 * n + 400); size_t k = put(b, "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n"); if (!where) { k += put(b + k, "X-V: "); memcpy(b + k, v, n); k += n; k += put(b + k, "\r\n"); } k += put(b + k, "Content-Length: "); k += putn(b + k, elen); k += put(b + k, "\r\n\r\n"); mkroute(&rt, "POST", "^/p$", 0, hb, 0); app = mkapp(&rt, 1, 0); live = sym_live(); int i = conn_add(); if (!later) { memcpy(b + k, expect, elen); conn_seg(i, b, k + elen); } else { conn_seg(i, b, k); conn_seg(i, expect, elen); } m38_handled_request *q = m38_generate_response(CONN0 + i, app); CHECK(q && ran == 1, "the handler is called once"); finish(q); CHECK(sym_live() == live, "nothing leaks"); free(b); free(expect); free(v); free(app); break; }
  case 8: { // H09: responses of up to 10^13 bytes, of which the client wants a few: only those are there to be read
    static const uint64_t Z[] = {9999999, 10000000, 16777216, 99999999, 100000000, 2147483647, 2147483648u, 4294967295u, 4294967296u, 4294967297u, 9999999999u, 10000000000u, 10000000000000u}; uint64_t total = Z[sym_pick(0, 12, "total")], a, z; static const uint64_t A[] = {1, 99999, 999999, 8388607, 16777215, 99999997, 2147483646, 2147483647, 2147483648u, 4294967294u, 4294967295u, 4294967296u, 9999999998u}; int w = (int)sym_pick(0, 14, "from"); a = w < 13 ? A[w] : total - (uint64_t)(w - 12) * 2; uint64_t n = sym_pick(1, 4, "n"); z = a + n - 1; if (a >= total || z >= total) sym_stop(); int beyond = z == total - 1 ? (int)sym_pick(0, 2, "beyond") : 0;
    body = malloc(n); memset(body, 'w', n); body[0] = s[0]; body[n - 1] = s[1]; unsigned char *win = body; blen = total; body = (unsigned char *)((uintptr_t)win - a); char q[200]; size_t k = put(q, "GET /p HTTP/1.1\r\nRange: bytes="); k += putn(q + k, a); q[k++] = '-'; if (beyond < 2) k += putn(q + k, beyond ? z + 1000 : z); k += put(q + k, "\r\n\r\n");
    mkroute(&rt, "GET", "^/p$", 0, h, 0); app = mkapp(&rt, 1, 0); m38_handled_request *r = req1(app, q, k); CHECK(r && ran == 1 && r->response_code == 206, "answered"); const char *b = r->response_bytes; size_t hl = head_end(b, r->response_len); CHECK(hl > 0 && r->response_len == hl + n && sym_valid(b, hl + n) && sym_eq(b + hl, win, n), "the body is exactly the bytes asked for"); char t[100]; k = put(t, "Content-Length: "); k += putn(t + k, n); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has(b, hl, t), "Content-Length is the number of body bytes"); k = put(t, "Content-Range: bytes "); k += putn(t + k, a); t[k++] = '-'; k += putn(t + k, z); t[k++] = '/'; k += putn(t + k, total); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has(b, hl, t), "Content-Range is the range"); finish_big(r); free(app); free(win); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 9: { // H14: files beyond every integer limit: the mapping covers the whole file, and all of it is unmapped
    static const uint64_t Z[] = {2147483647, 2147483648u, 2147483649u, 4294967295u, 4294967296u, 4294967297u, 4294971392u, 1099511627776u, 10000000000000u}; uint64_t n = Z[sym_pick(0, 8, "n")]; unsigned char d[300]; memset(d, 'F', 300); d[0] = s[0]; d[299] = s[1]; env_add_file("/srv/a.txt", d, n)->huge = 300; int req = (int)sym_pick(0, 1, "req");
    if (!req) { m38_http_response R; memset(&R, 0, sizeof R); int rc = m38_mmap_file("/srv/a.txt", &R); CHECK(rc == 200 && R.outsize == n && sym_valid(R.out, 300) && sym_eq(R.out, d, 300), "exactly the file's bytes"); m38_mmap_cleanup(rc, &R); }
    else { mkroute(&rt, "GET", "^/f$", 0, hfile, m38_mmap_cleanup); app = mkapp(&rt, 1, 0); uint64_t a = sym_pick(0, 2, "a"); a = a == 2 ? 298 : a; char q[100]; size_t k = put(q, "GET /f HTTP/1.1\r\nRange: bytes="); k += putn(q + k, a); q[k++] = '-'; k += putn(q + k, a + 1); k += put(q + k, "\r\n\r\n"); m38_handled_request *r = req1(app, q, k); CHECK(r && r->response_code == 206, "answered"); const char *b = r->response_bytes; size_t hl = head_end(b, r->response_len); CHECK(hl && r->response_len == hl + 2 && sym_eq(b + hl, d + a, 2), "exactly the file's bytes"); char t[100]; k = put(t, "Content-Range: bytes "); k += putn(t + k, a); t[k++] = '-'; k += putn(t + k, a + 1); t[k++] = '/'; k += putn(t + k, n); k += put(t + k, "\r\n"); t[k] = 0; CHECK(has(b, hl, t), "Content-Range is the range"); finish(r); free(app); }
    CHECK(env_open_maps == 0 && env_bad_unmap == 0 && env_open_fds == 0, "exactly the mapped region is unmapped"); CHECK(sym_live() == 0, "nothing leaks"); break; }
  }
  sym_reach("large");
}
