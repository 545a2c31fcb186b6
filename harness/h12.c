// H12: nothing is left behind. H13 (arg >= 20): arbitrary client input.
#include "http.h"
#include "parse.h"
static int kind, handler_ran; static unsigned char page[6000];
static m38_header_pair dummy; static const char FILE_TEXT[] = "hello xXx @who xXx!\nsecond line\n";
static int h_any(const m38_http_request *r, m38_http_response *s) { handler_ran++;
  switch (kind) {
  case 0: return m38_return_raw_buffer("static", 6, s);
  case 1: s->out = malloc(5); memcpy(s->out, "heap!", 5); s->outsize = 5; return 200;
  case 2: return m38_mmap_file("/srv/file.txt", s);
  case 3: return m38_mmap_file("/srv/none.txt", s);
  case 4: case 5: { greshunkel_ctext *c = gshkl_init_context(); gshkl_add_string(c, "who", "you"); greshunkel_ctext *sub = gshkl_init_context(); gshkl_add_string(sub, "x", "y"); gshkl_add_sub_context(c, "sub", sub); return m38_render_file(c, kind == 4 ? "/srv/file.txt" : "/srv/none.txt", s); }
  case 6: return 404;
  case 7: s->out = malloc(5); memcpy(s->out, "oops!", 5); s->outsize = 5; return 404;
  case 8: m38_insert_custom_header(s, "Location", 8, "/elsewhere", 10); m38_insert_custom_header(s, "Set-Cookie", 10, "a=b", 3); s->out = 0; s->outsize = 0; return 302;
  case 9: { char *a = m38_get_header_value_request(r, "Cookie"), *b = m38_get_header_value_request(r, "X-None"); CHECK(!b, "absent header"); if (a) { char *v = m38_get_cookie_value(a, strlen(a), "sid"); free(v); } free(a); if (r->form_elements) { size_t z; const void *q = sparse_dict_get(r->form_elements, "a", 1, &z); (void)q; } s->out = malloc(r->body_len + 1); memset(s->out, 'c', r->body_len + 1); if (r->body_len) memcpy(s->out, r->full_body, r->body_len); s->outsize = r->body_len + 1; return 200; }
  case 10: for (int i = 0; i < 9; i++) m38_insert_custom_header(s, "X-Many", 6, "value", 5); s->out = malloc(6000); memcpy(s->out, page, 6000); s->outsize = 6000; return 200;
  case 11: m38_insert_custom_header(s, "X-Lost", 6, "1", 1); return 404;
  case 12: s->out = malloc(3); memcpy(s->out, "err", 3); s->outsize = 3; return 500;
  case 13: s->out = malloc(8); memcpy(s->out, "unused", 7); s->outsize = 0; return 200; /* a buffer that ends up holding nothing */
  case 14: s->extra_data = malloc(30); s->out = (unsigned char *)"constant"; s->outsize = 8; return 200;
  } return 500; }
static void cl_extra(const int c, m38_http_response *s) { (void)c; free(s->extra_data); }
static void (*const CL[])(const int, m38_http_response *) = {0, m38_heap_cleanup, m38_mmap_cleanup, m38_mmap_cleanup, m38_heap_cleanup, m38_heap_cleanup, 0, m38_heap_cleanup_no_check, m38_heap_cleanup, m38_heap_cleanup_no_check, m38_heap_cleanup, m38_mmap_cleanup, m38_heap_cleanup_no_check, m38_heap_cleanup, cl_extra};
static int nf_heap(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = malloc(4); memcpy(s->out, "nope", 4); s->outsize = 4; return 404; }
static char *R_[40]; static size_t RL[40]; static int nr;
static void rq(const char *s) { R_[nr] = (char *)s; RL[nr++] = strlen(s); }
static int smode, scount;
static long rc(struct conn *c, size_t n) { (void)c; if (smode == 0) return (long)n; if (smode == 1) return (long)(n > 700 ? 700 : n); if (smode == 2) return scount-- > 0 ? (long)(n > 50 ? 50 : n) : -1; return scount-- > 0 ? (long)n : 0; }
static m38_route rts[2]; static m38_route r404; static int with404, nthreads = 1;
static uint64_t base;
static void serve_all(void) { env_nvfs = 0; env_add_file("/srv/file.txt", FILE_TEXT, sizeof FILE_TEXT - 1); memset(page, 'P', sizeof page);
  mkroute(&rts[0], "GET", "^/p", 0, h_any, CL[kind]); mkroute(&rts[1], "POST", "^/(p)(.*)$", 2, h_any, CL[kind]); mkroute(&r404, "GET", "^.*$", 0, nf_heap, m38_heap_cleanup_no_check);
  m38_app *app = mkapp(rts, 2, with404 ? &r404 : 0); app->num_threads = nthreads; base = sym_live(); script_conns = nconns; send_rc = rc; int r = e2e(app); CHECK(r == 0, "the server ran");
  for (int i = 0; i < nconns; i++) CHECK(conns[i].closed == 1, "every connection is closed exactly once by the server"); CHECK(sym_live() == base, "every block allocated for a request is freed"); CHECK(env_open_fds == 0 && env_bad_close == 0 && bad_close == 0, "no descriptor stays open and none is closed twice"); CHECK(env_open_maps == 0 && env_bad_unmap == 0, "no mapping stays behind"); free(app); }
static char big[8200];
static void requests(void) { nr = 0;
  rq("GET /p HTTP/1.1\r\n\r\n"); rq("GET /p HTTP/1.1\r\nRange: bytes=1-3\r\n\r\n"); rq("GET /p HTTP/1.1\r\nX-Real-IP: 1.2.3.4\r\nUser-Agent: me\r\nCookie: sid=1; t=2\r\nContent-Type: text/plain\r\n\r\n"); rq("POST /p HTTP/1.1\r\nContent-Length: 4\r\n\r\nbody"); rq("POST /p HTTP/1.1\r\nContent-Length: 12\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\na=1&b=%41&c="); rq("POST /p HTTP/1.1\r\nContent-Length: 7\r\nContent-Type: application/x-www-form-urlencoded; charset=utf-8\r\n\r\na=%zz&b"); rq("GET /none HTTP/1.1\r\nRange: bytes=0-\r\n\r\n"); rq("POST /p HTTP/1.1\r\nContent-Length: 0\r\n\r\nbody"); rq("POST /p HTTP/1.1\r\n\r\nbody"); rq("POST /p HTTP/1.1\r\nContent-Length: -3\r\n\r\nbody"); rq("garbage"); rq(""); rq("GET /p HTTP/1.1\r\nHost: x\r\n"); rq("GET  HTTP/1.1\r\n\r\n"); rq("PUT /p HTTP/1.1\r\n\r\n"); rq("GET /p?x=1 HTTP/1.1\r\nRange: nonsense\r\nRange: bytes=1-\r\n\r\n"); rq("GET /p HTTP/1.1\r\nContent-Length: abc\r\n\r\n"); rq("GET /p HTTP/1.1\r\nContent-Length: 0\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n"); }
// ---------------------------------------------------------------- H13
static unsigned char *wire_of(int i, size_t cap) { conns[i].wire = malloc(cap); conns[i].cap = cap; return conns[i].wire; }
static void whole_response(int i) { const char *w = (const char *)conns[i].wire; size_t n = conns[i].nwire, hl; CHECK(n <= conns[i].cap, "harness: room"); CHECK(n > 12 && sym_eq(w, "HTTP/1.1 ", 9), "what is sent is a response");
  for (hl = 4; hl <= n; hl++) if (w[hl - 4] == '\r' && w[hl - 3] == '\n' && w[hl - 2] == '\r' && w[hl - 1] == '\n') break; CHECK(hl <= n, "with a complete header block"); size_t p = 0, cl = 0; int got = 0; while (p + 16 < hl) { if ((p == 0 || w[p - 1] == '\n') && sym_eq(w + p, "Content-Length: ", 16)) { got = 1; for (p += 16; w[p] != '\r'; p++) cl = cl * 10 + (size_t)(w[p] - '0'); break; } p++; } CHECK(got && cl == n - hl, "and exactly the body it announces"); }
static void check_conn(int i) { CHECK(conns[i].closed == 1, "the connection ends"); if (conns[i].sends) { if (!conns[i].failed) whole_response(i); sym_reach("answered"); } else sym_reach("refused"); }
static void serve13(void) { int good = conn_add(); conn_seg(good, "GET /p HTTP/1.1\r\nHost: h\r\n\r\n", 28); static unsigned char *w[NCONN]; for (int i = 0; i < nconns; i++) w[i] = wire_of(i, 20000); 
  mkroute(&rts[0], "GET", "^/p", 0, h_any, CL[kind]); mkroute(&rts[1], "POST", "^/([a-z]*)(.*)$", 2, h_any, CL[kind]); env_nvfs = 0; env_add_file("/srv/file.txt", FILE_TEXT, sizeof FILE_TEXT - 1); m38_app *app = mkapp(rts, 2, 0); script_conns = nconns; send_rc = rc; CHECK(e2e(app) == 0, "the server ran"); for (int i = 0; i < nconns; i++) check_conn(i); CHECK(smode || (conns[good].sends && conns[good].nwire > 40), "other connections are answered"); for (int i = 0; i < nconns; i++) free(w[i]); free(app); }
#ifdef THOROUGH
#define T(a, b) (b)
#else
#define T(a, b) (a)
#endif
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { requests(); kind = (int)sym_pick(0, 14, "kind"); int q = (int)sym_pick(0, 17, "request"); with404 = (int)sym_pick(0, 1, "with404"); smode = (int)sym_pick(0, 3, "send"); if (smode >= 2) scount = (int)sym_pick(0, 2, "after"); int i = conn_add(); conn_seg(i, R_[q], RL[q]); conns[i].end = (long)sym_pick(0, 1, "end") - 1; serve_all(); sym_reach(conns[i].sends ? "answered" : "refused"); break; }
  case 1: { // bodies that arrive later, never, or with an error
    static const char *const HD[] = {"POST /p HTTP/1.1\r\nContent-Length: 5\r\n\r\n", "POST /p HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n", "GET /p HTTP/1.1\r\nContent-Length: 5\r\nRange: bytes=1-2\r\n\r\n"}; static const char *const B[] = {"", "a", "a=1&b", "a=1&b=2&c=3", "a=%4", "\0\0\0\0\0"}; static const size_t BL[] = {0, 1, 5, 11, 4, 5}; static const int K[] = {0, 1, 2, 4, 8, 9, 10}; kind = K[sym_pick(0, 6, "kind")]; int hd = (int)sym_pick(0, 2, "head"); int b = (int)sym_pick(0, 5, "body"); int i = conn_add(); conn_seg(i, HD[hd], strlen(HD[hd])); if (BL[b]) conn_seg(i, B[b], BL[b]); conns[i].end = (long)sym_pick(0, 1, "end") - 1; smode = (int)sym_pick(0, 2, "send"); scount = 1; serve_all(); sym_reach("late body"); break; }
  case 2: { // large requests: several reads, growth of the receive buffer, many fields
    static const size_t N[] = {900, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000}; size_t n = N[sym_pick(0, 8, "n")]; int what = (int)sym_pick(0, 3, "what"); kind = (int)sym_pick(0, 1, "kind") ? 9 : 0; size_t k = 0;
    if (what == 0) { k = put(big, "GET /p HTTP/1.1\r\nUser-Agent: "); while (k < n - 4) big[k++] = 'u'; k += put(big + k, "\r\n\r\n"); } else if (what == 1) { k = put(big, "GET /p HTTP/1.1\r\n"); while (k < n) k += put(big + k, "X: yyyyy\r\n"); k += put(big + k, "\r\n"); } else { k = put(big, "POST /p HTTP/1.1\r\nContent-Length: "); k += putn(big + k, n); k += put(big + k, what == 2 ? "\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n" : "\r\n\r\n"); size_t e = k + n; int f = 0; while (k < e) { char t[20]; size_t l = put(t, "f"); l += putn(t + l, (uint64_t)f++); l += put(t + l, "=%41v&"); for (size_t j = 0; j < l && k < e; j++) big[k++] = t[j]; } }
    int i = conn_add(); conn_seg(i, big, k); conns[i].end = (long)sym_pick(0, 1, "end") - 1; smode = (int)sym_pick(0, 1, "send"); serve_all(); sym_reach("large"); break; }
  case 3: { // several connections of different kinds, one or two workers
    requests(); int n = (int)sym_pick(2, 3, "n"); kind = (int)sym_pick(0, 14, "kind"); nthreads = (int)sym_pick(1, 2, "threads"); static const int Q[] = {0, 1, 4, 6, 7, 10}; for (int i = 0; i < n; i++) { int q = Q[sym_pick(0, 5, "request")]; conn_add(); conn_seg(i, R_[q], RL[q]); } smode = (int)sym_pick(0, 2, "send"); scount = 1; serve_all(); sym_reach("several"); break; }
  case 4: { // arbitrary bytes in the places where they steer the request
    static const char *const PRE[] = {"", "GET /p", "GET /p HTTP/1.1\r\n", "POST /p HTTP/1.1\r\nContent-Length:", "GET /p HTTP/1.1\r\nRange: bytes="}; static const char *const POST[] = {"", " HTTP/1.1\r\n\r\n", "\r\n\r\n", "\r\n\r\nab", "\r\n\r\n"}; int w = (int)sym_pick(0, 4, "where"); kind = w == 4 ? 2 : 9; size_t k = put(big, PRE[w]); size_t m = sym_pick(0, 3, "len"); sym_bytes(big + k, m, "bytes"); k += m; k += put(big + k, POST[w]); int i = conn_add(); conn_seg(i, big, k); smode = (int)sym_pick(0, 1, "send") * 2; serve_all(); sym_reach("arbitrary"); break; }
  // ---- H13
  case 20: { // any bytes at all
    size_t n = sym_pick(0, T(9, 10), "n"); sym_bytes(big, n, "request"); kind = 9; int i = conn_add(); if (n) conn_seg(i, big, n); conns[i].end = (long)sym_pick(0, 1, "end") - 1; serve13(); sym_reach("any"); break; }
  case 21: { // any bytes where they steer the request
    static const char *const PRE[] = {"GET /p", "GET /p HTTP/1.1\r\n", "POST /p HTTP/1.1\r\nContent-Length: ", "GET /p HTTP/1.1\r\nRange: bytes=", "GET /p HTTP/1.1\r\nRange: ", "GET /p HTTP/1.1\r\nCookie: sid", "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\n", "POST /p HTTP/1.1\r\nContent-Length: 3\r\nContent-Type: application/x-www-form-urlencoded", "POST /", "GET /p HTTP/1.1\r\nCookie: a=b"}; static const char *const POST[] = {" HTTP/1.1\r\n\r\n", "\r\n\r\n", "\r\n\r\nabc", "\r\n\r\n", "\r\n\r\n", "\r\n\r\n", "", "\r\n\r\na=b", " \r\n\r\n", "\r\n\r\n"}; static const int M[] = {T(4, 5), T(5, 7), T(3, 4), T(2, 3), 3, T(4, 5), T(4, 5), 4, T(4, 5), 4};
    int w = (int)sym_pick(0, 9, "where"); kind = w == 3 || w == 4 ? (int)sym_pick(0, 1, "kind") * 2 : 9; size_t k = put(big, PRE[w]); size_t m = sym_pick(0, (uint64_t)M[w], "len"); sym_bytes(big + k, m, "bytes"); k += m; k += put(big + k, POST[w]); int i = conn_add(); conn_seg(i, big, k); serve13(); sym_reach("steering"); break; }
  case 22: { // a request cut at every point, the rest arriving in the next read, or never
    requests(); int q = (int)sym_pick(0, 17, "request"); if (RL[q] == 0) sym_stop(); size_t cut = sym_pick(0, RL[q], "cut"); kind = sym_pick(0, 1, "kind") ? 9 : 10; int i = conn_add(); if (cut) conn_seg(i, R_[q], cut); if (cut < RL[q] && cut && sym_pick(0, 1, "rest")) conn_seg(i, R_[q] + cut, RL[q] - cut); conns[i].end = (long)sym_pick(0, 1, "end") - 1; serve13(); sym_reach("split"); break; }
  case 23: { // sizes around the receive size, in pieces, the end of the header block anywhere
    static const size_t N[] = {1, 30, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 2040, 2047, 2048, 2049, 2052, 3072, 4096, 5000}; size_t n = N[sym_pick(0, 19, "n")]; int what = (int)sym_pick(0, 3, "what"); size_t k = put(big, what == 3 ? "POST /p HTTP/1.1\r\nContent-Length: 1100\r\nA: " : "GET /p HTTP/1.1\r\nA: "); if (what == 2) k = 0; while (k < n) big[k++] = 'x'; if (what != 1 && what != 2) k += put(big + k, "\r\n\r\n"); if (what == 3) { memset(big + k, 'b', 1100); k += 1100; } sym_bytes(big + k - 1, 1, "last"); if (k > 2000) { sym_bytes(big + 1023, 2, "edge"); }
    kind = 9; int i = conn_add(); size_t cut = sym_pick(0, 3, "cut"); size_t C[] = {k, 1024, k / 2, k > 5 ? k - 5 : k}; if (C[cut] > k) C[cut] = k; conn_seg(i, big, C[cut]); if (C[cut] < k) conn_seg(i, big + C[cut], k - C[cut]); conns[i].end = (long)sym_pick(0, 1, "end") - 1; serve13(); sym_reach("sizes"); break; }
  case 24: { // long things that get logged
    static const size_t N[] = {0, 10, 500, 700, 780, 799, 800, 801, 1100, 3000}; static const char *const HN[] = {"User-Agent: ", "X-Real-IP: ", "Range: ", "Host: "}; kind = (int)sym_pick(0, 1, "kind") * 9; size_t k = put(big, "GET /p"); size_t pl = (size_t)sym_pick(0, 2, "path") * 200; for (size_t j = 0; j < pl; j++) big[k++] = j & 1 ? 's' : '%'; k += put(big + k, " HTTP/1.1\r\n"); k += put(big + k, HN[sym_pick(0, 3, "name")]); size_t n = N[sym_pick(0, 9, "n")]; for (size_t j = 0; j < n; j++) big[k++] = "%s%n%d"[j % 6]; k += put(big + k, "\r\n\r\n"); int i = conn_add(); conn_seg(i, big, k); serve13(); sym_reach("logged"); break; }
  case 25: { // many form fields, in one or two reads
    int f = (int)sym_pick(0, 6, "fields") * 17; char *b = malloc(4000); size_t bl = 0; for (int j = 0; j < f; j++) { bl += put(b + bl, "k"); bl += putn(b + bl, (uint64_t)(j * 7)); bl += put(b + bl, j % 3 ? "=%20&" : "=+x&"); } if (bl) { sym_bytes(b + bl - 1, 1, "last"); } size_t k = put(big, "POST /p HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: "); k += putn(big + k, bl + (size_t)sym_pick(0, 2, "more") - 1); k += put(big + k, "\r\n\r\n"); kind = 9; int i = conn_add(); int two = (int)sym_pick(0, 1, "two"); conn_seg(i, big, k); if (!two) { memcpy(big + k, b, bl); conns[i].seg[0].n = k + bl; } else if (bl) conn_seg(i, b, bl); serve13(); free(b); sym_reach("many fields"); break; }
  }
  (void)dummy; (void)handler_ran;
}
