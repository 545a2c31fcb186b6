// H11: sending.
#include "http.h"
static int code = 200, ncleanup, cleanup_code, cleanup_closed, cleanup_early; static void *cleanup_out; static unsigned char *body; static size_t blen; static int xdata;
static int handler(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = body; s->outsize = blen; s->extra_data = &xdata; return code; }
static size_t total; static int failed, will_fail;
static void cleanup(const int c, m38_http_response *s) { ncleanup++; cleanup_code = c; cleanup_out = s->out; cleanup_closed = conns[nconns - 1].closed; CHECK(s->extra_data == &xdata, "cleanup sees the response's data"); CHECK(s->outsize == blen, "cleanup sees the response's size"); cleanup_early = !failed && conns[nconns - 1].nwire < total; }
static unsigned char *wire; static unsigned char *want; static size_t sent;
static int mode, shorts; static size_t step;
static long rc(struct conn *c, size_t k) { CHECK(k >= 1 && k <= total - c->nwire, "a send offers at least one and at most the bytes left"); long r;
  if (mode == 0) { /* few symbolic decisions, then everything */ if (shorts <= 0) return (long)k; shorts--; uint64_t w = sym_pick(0, 6, "send"); size_t v[] = {k, 1, k / 2, k - 1, 2}; if (w >= 5) { failed = 1; return w == 5 ? -1 : 0; } r = (long)v[w]; if (r < 1 || (size_t)r > k) sym_stop(); return r; }
  if (mode == 1) { /* fixed steps, failing at some point */ if (shorts-- == 0) { failed = 1; return will_fail == 1 ? -1 : 0; } return (long)(step < k ? step : k); }
  r = (long)sym_num(0, k, "accepted"); r = (long)sym_conc((uint64_t)r); if (r == 0) failed = 1; return r; }
static void go(int with_cleanup, const char *extra) {
  static m38_route rt; mkroute(&rt, "GET", "^/p$", 0, handler, with_cleanup ? cleanup : 0); m38_app *app = mkapp(&rt, 1, 0); uint64_t live = sym_live(); char q[200]; size_t k = put(q, "GET /p HTTP/1.1\r\n"); k += put(q + k, extra); k += put(q + k, "\r\n");
  m38_handled_request *h = req1(app, q, k); CHECK(h != 0, "answered"); total = h->response_len; int rcode = h->response_code; want = malloc(total); memcpy(want, h->response_bytes, total); struct conn *c = &conns[nconns - 1]; wire = malloc(total + 8); c->wire = wire; c->cap = total + 8; send_rc = rc; int calls = 0;
  CHECK(rcode == 206 || !blen || sym_eq(want + total - blen, body, blen), "the body is in the response");
  while (h) { CHECK(c->closed == 0 && ncleanup == 0, "nothing is released before the end"); CHECK(++calls < 40000, "sending ends"); size_t before = c->nwire; h = m38_send_response(h); CHECK(h == 0 || c->nwire > before, "every round makes progress or ends"); if (h) CHECK(c->nwire < total, "sending ends with the last byte"); }
  CHECK(sym_eq(wire, want, c->nwire), "the bytes on the wire are the response's bytes in order"); CHECK(failed || c->nwire == total, "every byte is sent"); CHECK(c->nwire <= total, "no byte is sent twice"); CHECK(c->closed == 1, "the connection is closed once");
  CHECK(ncleanup == with_cleanup, "cleanup runs exactly once"); if (with_cleanup) { CHECK(cleanup_code == rcode, "cleanup gets the response's status"); CHECK(cleanup_out == body, "cleanup gets the response"); CHECK(!cleanup_early, "cleanup waits for the last byte"); } free(want); free(wire); sym_reach(failed ? "failed" : "complete"); nconns = 0; send_rc = 0; CHECK(sym_live() == live, "nothing leaks"); free(app); }
static void mk(size_t n) { blen = n; body = malloc(n ? n : 1); memset(body, 'B', n); }
static const int CODES[] = {200, 301, 302, 400, 403, 404, 500};
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { // short sends decided one after the other
    code = CODES[sym_pick(0, 6, "code")]; static const size_t N[] = {1, 5, 3990, 4100, 8100}; mk(N[sym_pick(0, 4, "n")]); for (size_t i = 0; i < blen; i += 400) sym_bytes(body + i, 1, "body"); mode = 0;
#ifdef THOROUGH
    shorts = 5;
#else
    shorts = 3;
#endif
    go((int)sym_pick(0, 1, "cleanup"), ""); free(body); break; }
  case 1: { // constant steps, failure after every number of sends
    static const size_t S[] = {1, 2, 7, 100, 1000, 4095, 4096, 5000}; step = S[sym_pick(0, 7, "step")]; static const size_t N[] = {1, 50, 3000, 9000}; mk(N[sym_pick(0, 3, "n")]); sym_bytes(body, 1, "first"); sym_bytes(body + blen - 1, 1, "last"); mode = 1; will_fail = (int)sym_pick(0, 2, "fail"); shorts = will_fail ? (int)sym_pick(0, 6, "after") : -1; go(1, sym_pick(0, 1, "range") ? "Range: bytes=0-3000\r\n" : ""); free(body); sym_reach("steps"); break; }
  case 2: { // every size whose response ends around a multiple of the send size
    size_t d = sym_pick(0, 8, "d"); size_t m = sym_pick(1, 3, "pages"); mode = 0; shorts = (int)sym_pick(0, 1, "short"); size_t hl = 97; /* header sizes differ: any body size near the page works */ mk(4096 * m - hl - 40 + d * 10); sym_bytes(body + blen - 1, 1, "last"); go(1, ""); free(body); sym_reach("pages"); break; }
  case 3: { // any number of accepted bytes, two rounds
    mk(3); sym_bytes(body, 3, "body"); mode = 2; code = 200; static m38_route rt; mkroute(&rt, "GET", "^/p$", 0, handler, cleanup); m38_app *app = mkapp(&rt, 1, 0); uint64_t live = sym_live(); m38_handled_request *h = req1(app, "GET /p HTTP/1.1\r\n\r\n", 19); total = h->response_len; want = malloc(total); memcpy(want, h->response_bytes, total); struct conn *c = &conns[0]; wire = malloc(total); c->wire = wire; c->cap = total; send_rc = rc; h = m38_send_response(h); if (h) h = m38_send_response(h); if (h) { send_rc = 0; h = m38_send_response(h); CHECK(!h && c->nwire == total, "the rest is sent"); } CHECK(c->nwire <= total && sym_eq(wire, want, c->nwire), "the bytes on the wire are the response's bytes in order"); CHECK(failed || c->nwire == total, "every byte is sent"); CHECK(c->closed == 1 && ncleanup == 1 && cleanup_code == 200, "released once"); free(want); free(wire); free(body); CHECK(sym_live() == live - 1, "nothing leaks"); sym_reach("any split"); break; }
  case 4: { // exact multiples: the response length is 4096*m exactly, one less, one more
    mode = 0; shorts = 0; size_t m = sym_pick(1, 2, "pages"); int d = (int)sym_pick(0, 2, "d") - 1; mk(4096 * m - 200); static m38_route rt; mkroute(&rt, "GET", "^/p$", 0, handler, 0); m38_app *app = mkapp(&rt, 1, 0); m38_handled_request *h = req1(app, "GET /p HTTP/1.1\r\n\r\n", 19); size_t over = h->response_len - blen; finish(h); free(app); nconns = 0; free(body); mk(4096 * m + (size_t)d - over); sym_bytes(body + blen - 1, 1, "last"); go(1, ""); CHECK(total == 4096 * m + (size_t)d, "harness: size"); free(body); sym_reach("exact"); break; }
  case 5: { // two responses are sent in turns
    mk(5000); code = 200; static m38_route rt; mkroute(&rt, "GET", "^/p$", 0, handler, 0); m38_app *app = mkapp(&rt, 1, 0); uint64_t live = sym_live(); sym_bytes(body + 4999, 1, "last"); m38_handled_request *a = req1(app, "GET /p HTTP/1.1\r\n\r\n", 19), *b = req1(app, "GET /p HTTP/1.1\r\n\r\n", 19); size_t n = a->response_len; want = malloc(n); memcpy(want, a->response_bytes, n); unsigned char *w0 = malloc(n), *w1 = malloc(n); conns[0].wire = w0; conns[1].wire = w1; conns[0].cap = conns[1].cap = n; total = n; shorts = 3; mode = 0; send_rc = 0; int k = 0;
    while (a || b) { CHECK(++k < 100, "ends"); if (a && (!b || sym_pick(0, 1, "turn"))) a = m38_send_response(a); else b = m38_send_response(b); } CHECK(sym_eq(w0, want, n) && sym_eq(w1, want, n) && conns[0].nwire == n && conns[1].nwire == n, "both responses are sent whole"); CHECK(conns[0].closed == 1 && conns[1].closed == 1, "each connection is closed once"); free(want); free(w0); free(w1); free(body); CHECK(sym_live() == live - 1, "nothing leaks"); sym_reach("in turns"); break; }
  case 6: { // nothing but the header block to send: the cleanup is due all the same
    code = CODES[sym_pick(0, 6, "code")]; if (code == 404) sym_stop(); mk(0); if (sym_pick(0, 1, "null")) { free(body); body = 0; } mode = (int)sym_pick(0, 1, "mode"); if (mode) { step = (size_t)sym_pick(1, 100, "step"); will_fail = (int)sym_pick(0, 2, "fail"); shorts = will_fail ? (int)sym_pick(0, 3, "after") : -1; } else shorts = 2; go(1, sym_pick(0, 1, "range") ? "Range: bytes=0-3\r\n" : ""); free(body); sym_reach("empty"); break; }
  }
}
