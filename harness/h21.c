// H21: any single allocation fails while a request is served.
#include "http.h"
#include "parse.h"
static const char FILE_TEXT[] = "the text of a file, served whole or not at all";
static int kind, called, cleaned, clean_status; static unsigned char page[5000]; static char sym_[3];
static int w_status; static const char *w_body; static size_t w_len; static int hdrs; /* what the last handler answered */
static int answer(int st, const void *b, size_t n) { w_status = st; w_body = b; w_len = n; return st; }
static int oom(m38_http_response *s) { m38_return_raw_buffer("no memory", 9, s); sym_reach("handler without memory"); return answer(500, "no memory", 9); }
static int h_any(const m38_http_request *r, m38_http_response *s) { called++; hdrs = 0;
  switch (kind) {
  case 0: m38_return_raw_buffer("constant", 8, s); return answer(200, "constant", 8);
  case 1: s->out = malloc(5000); if (!s->out) return oom(s); memcpy(s->out, page, 5000); s->outsize = 5000; return answer(200, page, 5000);
  case 2: { int c = m38_mmap_file("/srv/file.txt", s); if (c != 200) { CHECK(c == 404, "a file that cannot be served is not found"); return answer(404, s->out, s->outsize); } return answer(200, FILE_TEXT, sizeof FILE_TEXT - 1); }
  case 3: for (int i = 0; i < 9; i++) { char v[3] = {'v', (char)('0' + i), 0}; if (m38_insert_custom_header(s, "X-Many", 6, v, 2)) hdrs |= 1 << i; } m38_return_raw_buffer("see there", 9, s); return answer(302, "see there", 9);
  case 4: { char *a = m38_get_header_value_request(r, "Cookie"); char *c = a ? m38_get_cookie_value(a, strlen(a), "sid") : 0; if (c) CHECK(strcmp(c, "1") == 0, "the right cookie"); free(a); free(c); if (r->form_elements) { size_t z = 0; const char *q = sparse_dict_get(r->form_elements, "a", 1, &z); if (q) CHECK(z == 3 && sym_eq(q, sym_, 3), "the right field"); sym_reach("form"); } s->out = malloc(r->body_len + 5); if (!s->out) return oom(s); memcpy(s->out, "body:", 5); if (r->body_len) memcpy(s->out + 5, r->full_body, r->body_len); s->outsize = r->body_len + 5; memcpy(page, s->out, s->outsize); return answer(200, page, s->outsize); }
  default: return answer(404, 0, 0); } }
static int nf(const m38_http_request *r, m38_http_response *s) { (void)r; called++; hdrs = 0; s->out = malloc(4); if (!s->out) return oom(s); memcpy(s->out, "nope", 4); s->outsize = 4; return answer(404, "nope", 4); }
static void (*real)(const int, m38_http_response *);
static void cl(const int st, m38_http_response *s) { cleaned++; clean_status = st; if (real) real(st, s); }
static void cl404(const int st, m38_http_response *s) { cleaned++; clean_status = st; if (st == 404) free(s->out); }
static m38_route rts[2], r404; static unsigned char wire[12000];
/* the response on the wire is exactly that of the last handler */
static void check_wire(struct conn *c, int range) { const char *w = (char *)wire; size_t n = c->nwire, hl; CHECK(n <= c->cap, "harness: room"); for (hl = 4; hl <= n; hl++) if (w[hl - 4] == '\r' && w[hl - 3] == '\n' && w[hl - 2] == '\r' && w[hl - 1] == '\n') break; CHECK(hl <= n, "the header block is complete");
  int st = (w[9] - '0') * 100 + (w[10] - '0') * 10 + (w[11] - '0'); const char *b = w_body; size_t bl = w_len; if (range && w_status == 200 && st == 206) { b += 1; bl = 3; sym_reach("range"); } else CHECK(st == w_status, "the status of the handler"); CHECK(n - hl == bl && (!bl || sym_eq(w + hl, b, bl)), "the whole body of the handler"); int seen = 0; if (st != 206) { for (size_t p = 0; p + 12 <= hl; p++) if (w[p] == 'X' && memcmp(w + p, "X-Many: v", 9) == 0) { int bit = 1 << (w[p + 9] - '0'); CHECK(hdrs & bit && !(seen & bit), "headers whose insertion succeeded, once"); seen |= bit; } CHECK(seen == hdrs, "all headers whose insertion succeeded"); }
  char t[40]; size_t k = put(t, "Content-Length: "); k += putn(t + k, bl); k += put(t + k, "\r\n"); int ok = 0; for (size_t p = 0; p + k <= hl; p++) if (w[p] == 'C' && memcmp(w + p, t, k) == 0) ok++; CHECK(ok == 1, "its length"); }
static char rqb[3][4300]; static size_t rql[3]; static int nsegs, has_range;
static void request(int q) { size_t k = 0, l = 0; char *h = rqb[0], *b = rqb[1]; nsegs = 1; has_range = 0;
  switch (q) {
  case 0: k = put(h, "GET /p HTTP/1.1\r\nCookie: sid=1\r\n\r\n"); break;
  case 1: k = put(h, "GET /p HTTP/1.1\r\nUser-Agent: me\r\nRange: bytes=1-3\r\n\r\n"); has_range = 1; break;
  case 2: k = put(h, "POST /p/x HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 13\r\n\r\nb=%41&a="); memcpy(h + k, sym_, 3); k += 3; k += put(h + k, "&c"); break;
  case 3: k = put(h, "POST /p/x HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\n"); l = put(b, "a="); memcpy(b + l, sym_, 3); l += 3; nsegs = 2; break;
  case 4: k = put(h, "GET /p HTTP/1.1\r\nX-Long: "); while (k < 2600) h[k++] = 'l'; h[1500] = sym_[0]; k += put(h + k, "\r\n\r\n"); break;
  case 5: k = put(h, "GET /none HTTP/1.1\r\n\r\n"); break;
  case 6: k = put(h, "POST /p/x HTTP/1.1\r\nContent-Length: 4000\r\n\r\n"); while (l < 4000) b[l++] = 'b'; b[2000] = sym_[1]; nsegs = 2; break;
  case 7: k = put(h, "POST /p/x HTTP/1.1\r\nContent-Length: 2100\r\n\r\n"); for (int i = 0; i < 2100; i++) h[k++] = 'b'; break; }
  rql[0] = k; rql[1] = l; }
static m38_app *app_(int with404) { env_nvfs = 0; env_add_file("/srv/file.txt", FILE_TEXT, sizeof FILE_TEXT - 1); real = kind == 1 || kind == 4 ? m38_heap_cleanup : kind == 2 ? m38_mmap_cleanup : 0; mkroute(&rts[0], "GET", "^/p", 0, h_any, cl); mkroute(&rts[1], "POST", "^/(p)/(.*)$", 2, h_any, cl); mkroute(&r404, "GET", "^.*$", 0, nf, cl404); return mkapp(rts, 2, with404 ? &r404 : 0); }
static int add(void) { int i = conn_add(); for (int s = 0; s < nsegs; s++) conn_seg(i, rqb[s], rql[s]); conns[i].wire = wire; conns[i].cap = sizeof wire; return i; }
static const char NF[] = "<h1>\"Welcome to Die|</h1>";
static m38_app *e_app; static int e_fail;
static void go(void) { sym_fail_at(e_fail); run_all(); int64_t left = sym_fail_at(-1); sym_reach(left >= 0 ? "server, nothing fails" : "server, one fails"); }
void main_sym(void) {
  sym_bytes(sym_, 3, "bytes"); for (int i = 0; i < 3; i++) sym_assume(((sym_[i] >= 'a') & (sym_[i] <= 'z')) | ((sym_[i] >= '0') & (sym_[i] <= '9'))); memset(page, 'P', sizeof page); page[7] = (unsigned char)sym_[0]; page[4999] = (unsigned char)sym_[1];
  switch (sym_arg()) {
  case 0: { // one request, the f-th allocation fails; then the same once more
    kind = (int)sym_pick(0, 5, "kind"); int q = (int)sym_pick(0, 7, "request"), with404 = (int)sym_pick(0, 1, "with404"); if (q == 5 && kind) sym_stop(); if (q != 5 && kind != 5 && with404) sym_stop(); int f = (int)sym_pick(0, 55, "fail"); request(q); m38_app *a = app_(with404); uint64_t base = sym_live();
    for (int round = 0; round < 2; round++) { called = cleaned = 0; w_status = 404; w_body = NF; w_len = sizeof NF - 1; int i = add(); sym_fail_at(round ? -1 : f); m38_handled_request *r = m38_generate_response(CONN0 + i, a); int64_t left = sym_fail_at(-1); if (r) { if (w_status == 404 && !w_body) { w_body = NF; w_len = sizeof NF - 1; } int c0 = cleaned; CHECK(!c0, "no clean-up before the answer is sent"); int own = called > 0 && !((q == 5 || kind == 5) && !with404); finish(r); CHECK(cleaned == own, "the clean-up of the route runs once"); check_wire(&conns[i], has_range); sym_reach(left >= 0 || round ? "nothing fails" : "answered all the same"); }
      else { CHECK(!round && left < 0, "a request is refused only for lack of memory"); sym_reach(called ? "refused after the handler" : "refused"); CHECK(cleaned <= 1, "the clean-up of the route runs once"); moth_close(CONN0 + i); }
      CHECK(sym_live() == base && env_open_fds == 0 && env_open_maps == 0 && env_bad_unmap == 0, "everything the request held is released"); CHECK(conns[i].closed == 1, "closed once"); }
    free(a); break; }
  case 1: { // the whole server, three connections
    kind = (int)sym_pick(0, 5, "kind"); static const int Q[] = {1, 2, 3, 5}; int q = Q[sym_pick(0, 3, "request")]; e_fail = (int)sym_pick(0, 70, "fail"); request(q); m38_app *a = app_(1); a->num_threads = (int)sym_pick(1, 2, "threads"); uint64_t base = sym_live(); for (int i = 0; i < 3; i++) { int c = add(); conns[c].wire = 0; } script_conns = 3; coop = 1; join_hook = go; CHECK(m38_http_serve(a) == 0, "the server ran"); run_all(); int un = 0; for (int i = 0; i < 3; i++) { CHECK(conns[i].closed == 1, "every connection is closed once"); if (!conns[i].sends) un++; } CHECK(un <= 1, "only the request that lacked memory goes unanswered"); CHECK(sym_live() == base && env_open_fds == 0 && env_open_maps == 0 && env_bad_unmap == 0, "everything the requests held is released"); free(a); break; }
  case 2: { // registering a custom 404 page
    int which = (int)sym_pick(0, 1, "which"); m38_app *a = mkapp(rts, 0, 0); sym_fail_at(0); int r = which ? m38_set_404_cleanup(a, cl404) : m38_set_404_handler(a, nf); sym_fail_at(-1); CHECK(r != 0 && a->r_404_route == 0, "lack of memory is reported"); r = which ? m38_set_404_cleanup(a, cl404) : m38_set_404_handler(a, nf); CHECK(r == 0 && a->r_404_route != 0 && (which ? (void *)a->r_404_route->cleanup == (void *)cl404 : a->r_404_route->handler == nf), "and a later attempt works"); free(a->r_404_route); free(a); sym_reach("registering"); break; }
  }
}
