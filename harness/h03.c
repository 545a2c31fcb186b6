// H03: request bodies as the handler sees them.
#include "http.h"
#include "parse.h"
static int called; static unsigned char got[4300]; static size_t got_len; static int got_null, got_term, got_valid;
static int handler(const m38_http_request *r, m38_http_response *s) { called++; got_null = r->full_body == 0; got_len = r->body_len; if (r->full_body) { got_valid = sym_valid(r->full_body, r->body_len + 1); CHECK(got_valid, "the body and its terminator are inside one block"); got_term = r->full_body[r->body_len] == 0; memcpy(got, r->full_body, r->body_len); } s->out = (unsigned char *)"ok"; s->outsize = 2; return 200; }
static unsigned char body[4300], second[4300]; static char req[6000];
static size_t head(const char *cl) { size_t n = put(req, "POST /p HTTP/1.1\r\nHost: h\r\n"); if (cl) { n += put(req + n, "Content-Length:"); n += put(req + n, cl); n += put(req + n, "\r\n"); } n += put(req + n, "\r\n"); return n; }
static void run(const char *cl, long c, size_t r, int has2, size_t s2, long end) {
  static m38_route rt; mkroute(&rt, "POST", "^/p$", 0, handler, 0); m38_app *app = mkapp(&rt, 1, 0); called = 0; uint64_t live = sym_live();
  size_t n = head(cl); memcpy(req + n, body, r); int i = conn_add(); conn_seg(i, req, n + r); if (has2) conn_seg(i, second, s2); conns[i].end = end; conns[i].block = 0;
  m38_handled_request *h = m38_generate_response(CONN0 + i, app);
  if (r > 0 && c <= 0) { CHECK(h == 0 && !called, "body bytes without a positive Content-Length make the request be refused"); sym_reach("refused"); }
  else if (r == 0 && c > 0 && !(has2 && s2) && end < 0) { CHECK(h == 0 && !called, "a body that cannot be read makes the request be refused"); sym_reach("unreadable"); }
  else { CHECK(h != 0 && called == 1, "the handler is called once"); CHECK(!got_null && got_valid && got_term, "there is a body, terminated"); const unsigned char *src = r ? body : second; size_t have = r ? r : (c > 0 ? s2 : 0), want = have < (size_t)c || r == 0 && c <= 0 ? have : (size_t)c; if (r == 0 && c <= 0) want = 0;
    CHECK(got_len == want, "the body length is what was received, cut to Content-Length"); CHECK(want == 0 || sym_eq(got, src, want), "the body is byte for byte what was received"); sym_reach(r ? "with the header" : c > 0 ? "second read" : "no body"); }
  finish(h); if (h) { CHECK(conns[i].closed == 1, "closed once"); CHECK(sym_live() == live, "nothing leaks"); } free(app); nconns = 0;
}
#ifdef THOROUGH
#define NB 8
#else
#define NB 5
#endif
void main_sym(void) {
  char t[32]; size_t n;
  switch (sym_arg()) {
  case 0: { // body together with the header block
    size_t r = sym_pick(0, NB, "r"), c = sym_pick(0, NB + 2, "cl"); sym_bytes(body, r, "body"); n = put(t, " "); n += putn(t + n, c); t[n] = 0; if (r || !c) run(t, (long)c, r, 0, 0, 0); break; }
  case 1: { // body in the next read
    size_t s = sym_pick(0, NB, "s"), c = sym_pick(1, NB + 2, "cl"); sym_bytes(second, s, "body"); n = put(t, " "); n += putn(t + n, c); t[n] = 0; run(t, (long)c, 0, s > 0, s, (long)sym_pick(0, 1, "reset") ? -1 : 0); break; }
  case 2: { // odd Content-Length values
    static const struct { const char *t; long c; } C[] = {{0, 0}, {" ", 0}, {" abc", 0}, {" -1", -1}, {" -7", -7}, {"3", 3}, {"\t4", 4}, {"  5", 5}, {" 0004", 4}, {" 2x", 2}, {" 4294967297", 4294967297L}, {" 2147483648", 2147483648L}, {" 4294967296", 4294967296L}, {" 99999999999999999999", 9223372036854775807L}, {" 0", 0}, {" +3", 3}, {" -4294967295", -4294967295L}};
    int k = (int)sym_pick(0, 16, "cl"); size_t r = sym_pick(0, 6, "r"); sym_bytes(body, r, "body"); sym_bytes(second, 4, "second"); run(C[k].t, C[k].c, r, r == 0, 4, 0); sym_reach("odd lengths"); break; }
  case 3: { // sizes around the read size, in the first read or in the second
    static const size_t S[] = {1, 100, 900, 978, 979, 980, 981, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4096, 4200}; size_t s = S[sym_pick(0, 17, "size")]; int d = (int)sym_pick(0, 4, "cl"); size_t c = d == 0 ? s : d == 1 ? s - 1 : d == 2 ? s + 1 : d == 3 ? 1 : 5000; int two = (int)sym_pick(0, 1, "two");
    unsigned char *b = two ? second : body; memset(b, 'q', s); sym_bytes(b + s - 1, 1, "last"); if (s > 2) sym_bytes(b + s / 2, 1, "mid"); if (c == 0) break; n = put(t, " "); n += putn(t + n, c); t[n] = 0; if (two) run(t, (long)c, 0, 1, s, 0); else { run(t, (long)c, s, 0, 0, 0); } sym_reach("sizes"); break; }
  case 4: { // m38_parse_body itself
    size_t r = sym_pick(0, NB + 1, "r"), c = sym_pick(0, NB + 2, "cl"); m38_http_request *q = malloc(sizeof *q); memset(q, 0, sizeof *q); unsigned char *raw = malloc(7 + r + 1); memset(raw, 'h', 7); sym_bytes(raw + 7, r, "body"); raw[7 + r] = 0; q->header_len = 7; int rc = m38_parse_body(r, c, raw, q);
    if (c == 0 && r > 0) { CHECK(rc == -1 && q->full_body == 0, "refused"); } else { size_t w = r < c ? r : c; CHECK(rc == 0 && q->body_len == w && sym_valid(q->full_body, w + 1) && sym_eq(q->full_body, raw + 7, w) && q->full_body[w] == 0, "the body is the received bytes cut to Content-Length"); } free(q->full_body); free(q); free(raw); CHECK(sym_live() == 0, "nothing leaks"); sym_reach("direct"); break; }
  }
}
