// H14: static files. H17 (arg >= 10): rendered files. H16 (arg >= 20): 404 registration.
#include "http.h"
#include "greshunkel.h"
#include <strings.h>
static const char *path; static m38_http_response R_; static int rc_; static uint64_t base;
static void fresh(void) { memset(&R_, 0, sizeof R_); R_.extra_headers = 0; }
static void clean_env(void) { CHECK(env_open_fds == 0 && env_bad_close == 0, "no descriptor stays open or is closed twice"); CHECK(env_open_maps == 0 && env_bad_unmap == 0, "exactly the mapped region is unmapped"); CHECK(sym_live() == base, "bookkeeping is freed once"); }
static void serve_ok(const char *p, const unsigned char *d, size_t n, const char *mime) { path = p; rc_ = m38_mmap_file(p, &R_); CHECK(rc_ == 200, "a readable file is served with 200"); CHECK(R_.outsize == n, "its whole size"); CHECK(sym_valid(R_.out, n) && sym_eq(R_.out, d, n), "exactly its bytes"); size_t ml = strlen(mime); CHECK(memchr(R_.mimetype, 0, sizeof R_.mimetype) != 0 && strlen(R_.mimetype) == ml && memcmp(R_.mimetype, mime, ml) == 0, "its MIME type"); CHECK(env_open_fds == 0, "the descriptor is closed"); m38_mmap_cleanup(rc_, &R_); clean_env(); }
static unsigned char *mk(size_t n) { unsigned char *d = malloc(n); memset(d, 'F', n); return d; }
static const struct { const char *e, *t; } MT[] = {{"css", "text/css"}, {"jpg", "image/jpeg"}, {"txt", "text/plain"}, {"html", "text/html"}, {"svg", "image/svg+xml"}, {"ico", "image/x-icon"}, {"webm", "video/webm"}, {"gif", "image/gif"}, {"json", "application/json"}, {"js", "text/javascript"}};
static const size_t SZ[] = {1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536, 100000};
static int h_file(const m38_http_request *r, m38_http_response *s) { (void)r; rc_ = m38_mmap_file(path, s); return rc_; }
static m38_route rt; static long fail_after(struct conn *, size_t);
static m38_handled_request *ask(m38_app *app, const char *extra) { char q[200]; size_t k = put(q, "GET /p HTTP/1.1\r\n"); k += put(q + k, extra); k += put(q + k, "\r\n"); m38_handled_request *h = req1(app, q, k); CHECK(h != 0, "answered"); return h; }
static int tail_is(m38_handled_request *h, const void *b, size_t n) { return h->response_len >= n + 4 && sym_eq(h->response_bytes + h->response_len - n, b, n) && sym_eq(h->response_bytes + h->response_len - n - 4, "\r\n\r\n", 4); }
static int line_in(m38_handled_request *h, const char *l) { size_t k = strlen(l); for (size_t i = 0; i + k + 4 <= h->response_len && !(h->response_bytes[i] == '\r' && h->response_bytes[i + 2] == '\r'); i++) if (h->response_bytes[i] == '\n' && i + 1 + k <= h->response_len && memcmp(h->response_bytes + i + 1, l, k) == 0) return 1; return 0; }
// ---- H17
static greshunkel_ctext *ctx; static size_t want_n; static char *want;
static greshunkel_ctext *mkctx(void) { greshunkel_ctext *c = gshkl_init_context(); gshkl_add_string(c, "name", "value"); gshkl_add_int(c, "n", 42); greshunkel_var l = gshkl_add_array(c, "items"); gshkl_add_string_to_loop(&l, "one"); gshkl_add_string_to_loop(&l, "two"); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "x", "inner"); gshkl_add_sub_context(c, "sub", s); return c; }
static void expect_render(const unsigned char *d, size_t n) { greshunkel_ctext *c = mkctx(); char *t = malloc(n + 1); memcpy(t, d, n); t[n] = 0; want = gshkl_render(c, t, n, &want_n); free(t); gshkl_free_context(c); }
static int h_render(const m38_http_request *r, m38_http_response *s) { (void)r; ctx = mkctx(); rc_ = m38_render_file(ctx, path, s); return rc_; }
static void render_ok(const char *p, const unsigned char *d, size_t n) { expect_render(d, n); base = sym_live(); ctx = mkctx(); fresh(); int rc = m38_render_file(ctx, p, &R_); CHECK(rc == 200, "a template file is served with 200"); CHECK(R_.outsize == want_n && sym_valid(R_.out, want_n) && sym_eq(R_.out, want, want_n), "the text is what rendering the file's bytes gives"); CHECK(env_open_fds == 0 && env_open_maps == 0, "no descriptor or mapping stays behind"); m38_heap_cleanup(rc, &R_); clean_env(); free(want); }
// ---- H16
static int who; static int hx(const m38_http_response *s) { (void)s; return 0; }
static int ha(const m38_http_request *r, m38_http_response *s) { (void)r; who = 1; s->out = (unsigned char *)"page A"; s->outsize = 6; return 404; } static int hb(const m38_http_request *r, m38_http_response *s) { (void)r; who = 2; s->out = (unsigned char *)"page B"; s->outsize = 6; return 404; } static int hc(const m38_http_request *r, m38_http_response *s) { (void)r; who = 3; s->out = (unsigned char *)"page C"; s->outsize = 6; return 404; }
static int cw; static void ca(const int c, m38_http_response *s) { (void)c; (void)s; cw += 1; } static void cb(const int c, m38_http_response *s) { (void)c; (void)s; cw += 10; } static void cc(const int c, m38_http_response *s) { (void)c; (void)s; cw += 100; }
static int (*const HH[])(const m38_http_request *, m38_http_response *) = {0, ha, hb, hc}; static void (*const CC[])(const int, m38_http_response *) = {0, ca, cb, cc}; static const int CV[] = {0, 1, 10, 100};
void main_sym(void) { fresh(); env_nvfs = 0; (void)hx;
  switch (sym_arg()) {
  case 0: { // any size, any bytes
    size_t n = SZ[sym_pick(0, 11, "n")]; unsigned char *d = mk(n); sym_bytes(d, 1, "first"); sym_bytes(d + n / 2, 1, "middle"); sym_bytes(d + n - 1, 1, "last"); env_add_file("/srv/a.txt", d, n); base = sym_live(); serve_ok("/srv/a.txt", d, n, "text/plain"); free(d); sym_reach("sizes"); break; }
  case 1: { // extensions
    char p[40]; size_t k = put(p, "/s"); static const char *const MID[] = {"/f", "/f.x", ".d/f", "f", "/ff.html", "/.h"}; k += put(p + k, MID[sym_pick(0, 5, "mid")]); size_t e = sym_pick(0, 6, "ext"); const char *mime = 0; char *ext = p + k + 1;
    if (e < 6) { p[k++] = '.'; sym_bytes(p + k, e, "ext"); for (size_t i = 0; i < e; i++) sym_assume((p[k + i] != 0) & (p[k + i] != '.') & (p[k + i] != '/')); k += e; mime = "application/octet-stream"; for (int i = 0; i < 10; i++) if (strlen(MT[i].e) == e && strncasecmp(MT[i].e, ext, e) == 0) mime = MT[i].t; } else { p[k] = 0; const char *sl = strrchr(p, '/'); const char *dot = strrchr(sl, '.'); mime = "text/html"; if (dot) { mime = "application/octet-stream"; for (int i = 0; i < 10; i++) if (strcmp(MT[i].e, dot + 1) == 0) mime = MT[i].t; } }
    p[k] = 0; unsigned char d[3] = "abc"; env_add_file(p, d, 3); base = sym_live(); serve_ok(p, d, 3, mime); sym_reach("extensions"); break; }
  case 2: { // each known extension, long and relative names, types set by the handler
    char p[300]; size_t k = 0; size_t w = sym_pick(0, 4, "dir"); static const char *const D[] = {"", "./", "/a.b/c.d/", "a/", "../x.css/"}; k = put(p, D[w]); size_t l = sym_pick(0, 4, "len"); static const size_t L[] = {1, 5, 31, 64, 200}; memset(p + k, 'n', L[l]); k += L[l]; int e = (int)sym_pick(0, 11, "ext"); const char *mime = e == 11 ? "text/html" : "application/octet-stream"; if (e < 11) { p[k++] = '.'; if (e < 10) { size_t m = put(p + k, MT[e].e), up = sym_pick(0, 3, "upper"); if (up == 1) for (size_t i = 0; i < m; i++) p[k + i] -= 32; else if (up == 2) p[k] -= 32; else if (up == 3) p[k + m - 1] -= 32; k += m; mime = MT[e].t; } else k += put(p + k, "averylongextensionthatnobodyknows"); } p[k] = 0; { size_t pre = sym_pick(0, 3, "preset"); static char ty[4]; if (pre == 1) { strcpy(R_.mimetype, "x/preset"); mime = "x/preset"; } if (pre >= 2) { sym_bytes(ty, pre - 1, "type"); for (size_t i = 0; i + 1 < pre; i++) sym_assume((ty[i] > 32) & (ty[i] != 127)); ty[pre - 1] = 0; strcpy(R_.mimetype, ty); mime = ty; } }
    unsigned char d[3] = "abc"; sym_bytes(d, 3, "data"); env_add_file(p, d, 3); base = sym_live(); serve_ok(p, d, 3, mime); sym_reach("names"); break; }
  case 3: { // files that cannot be served
    unsigned char d[5] = "abcd"; struct env_vfile *f = env_add_file("/srv/a.txt", d, 5); int how = (int)sym_pick(0, 2, "how"); if (how == 0) f->exists = 0; else if (how == 1) f->openable = 0; else f->mappable = 0; base = sym_live(); rc_ = m38_mmap_file("/srv/a.txt", &R_); CHECK(rc_ == 404, "404"); CHECK(R_.outsize > 0 && R_.out && sym_valid(R_.out, R_.outsize) && sym_init(R_.out, R_.outsize), "with an error page"); CHECK(env_open_fds == 0 && env_bad_close == 0, "no descriptor is left open"); m38_mmap_cleanup(rc_, &R_); clean_env(); CHECK(R_.out[0] == '<', "the page is still there: cleanup released nothing"); sym_reach("unservable"); break; }
  case 4: { // through a request, with and without a range
    size_t n = SZ[sym_pick(0, 9, "n")]; unsigned char *d = mk(n); sym_bytes(d + n - 1, 1, "last"); sym_bytes(d, 1, "first"); struct env_vfile *f = env_add_file("/srv/a.json", d, n); path = "/srv/a.json"; int how = (int)sym_pick(0, 3, "how"); if (how == 1) f->exists = 0; if (how == 2) f->openable = 0; if (how == 3) f->mappable = 0; int range = (int)sym_pick(0, 2, "range"); mkroute(&rt, "GET", "^/p$", 0, h_file, m38_mmap_cleanup); m38_app *app = mkapp(&rt, 1, 0); base = sym_live();
    m38_handled_request *h = ask(app, range == 0 ? "" : range == 1 ? "Range: bytes=0-1\r\n" : "Range: bytes=1-\r\n"); if (how) { CHECK(h->response_code == 404, "404"); CHECK(h->response_len > 60, "with an error page"); sym_reach("request 404"); } else if (!range) { CHECK(h->response_code == 200 && tail_is(h, d, n) && line_in(h, "Content-Type: application/json\r\n"), "the response is the file"); sym_reach("request"); } else { CHECK(h->response_code == 206, "206"); size_t s = range == 2 && n > 1 ? 1 : 0, e = range == 1 && n > 1 ? 1 : n - 1; CHECK(tail_is(h, d + s, e - s + 1), "the response is the slice"); sym_reach("request range"); }
    if (sym_pick(0, 1, "fails")) { send_rc = 0; conns[0].open = 1; conns[0].wire = 0; send_rc = fail_after; } finish(h); CHECK(conns[0].closed == 1, "closed"); clean_env(); free(app); free(d); break; }
  case 5: { // the same file twice, interleaved
    unsigned char *d = mk(5000); sym_bytes(d + 4999, 1, "last"); env_add_file("/srv/a.txt", d, 5000); base = sym_live(); m38_http_response a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); int x = m38_mmap_file("/srv/a.txt", &a), y = m38_mmap_file("/srv/a.txt", &b); CHECK(x == 200 && y == 200, "200"); CHECK(sym_eq(a.out, d, 5000) && sym_eq(b.out, d, 5000), "both have the bytes"); if (sym_pick(0, 1, "order")) { m38_mmap_cleanup(x, &a); CHECK(sym_eq(b.out, d, 5000), "the other mapping stays"); m38_mmap_cleanup(y, &b); } else { m38_mmap_cleanup(y, &b); CHECK(sym_eq(a.out, d, 5000), "the other mapping stays"); m38_mmap_cleanup(x, &a); } clean_env(); free(d); sym_reach("twice"); break; }
  case 6: { // a file that gets descriptor 0, 1, 2, 3 or 1023: of a process that has closed its standard streams, or of one with many files open
    static const int FD[] = {0, 1, 2, 3, 1023, 65536}; env_fd0 = FD[sym_pick(0, 5, "fd")]; env_conn_fd = 70000; size_t n = SZ[sym_pick(0, 4, "n")]; unsigned char *d = mk(n); sym_bytes(d, 1, "first"); sym_bytes(d + n - 1, 1, "last"); env_add_file("/srv/a.txt", d, n); base = sym_live(); serve_ok("/srv/a.txt", d, n, "text/plain"); free(d); sym_reach("descriptors"); break; }
  // ---- H17
  case 10: { // arbitrary short files
    static const char *const T[] = {"xXx @name xXx", "a xXx @sub.x xXx b\n", "\nxXx LOOP i items xXx\nxXx @i xXx,\nxXx BBL xXx\n", "plain", "", "\nxXx UNLESS @none xXx\nyes\nxXx ENDLESS xXx\n", "xXx @n xXx\nxXx @name xXx"}; unsigned char d[200]; size_t k = sym_pick(0, 2, "pre"); sym_bytes(d, k, "before"); size_t m = k + put((char *)d + k, T[sym_pick(0, 6, "t")]); size_t q = sym_pick(0, 2, "post"); sym_bytes(d + m, q, "after"); for (size_t i = 0; i < k; i++) sym_assume((d[i] != 0) & (d[i] != 'x') & (d[i] != 'X') & (d[i] != '\r')); for (size_t i = 0; i < q; i++) sym_assume((d[m + i] != 0) & (d[m + i] != 'x') & (d[m + i] != 'X') & (d[m + i] != '\r')); m += q; if (!m) sym_stop(); env_add_file("t.html", d, m); render_ok("t.html", d, m); sym_reach("short templates"); break; }
  case 11: { // sizes around page multiples, markup at the end
    static const size_t N[] = {1, 60, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288}; size_t n = N[sym_pick(0, 9, "n")]; static const char *const E[] = {"", "\n", "xXx @name xXx", "xXx @name xXx\n", "\nxXx LOOP i items xXx\nxXx @i xXx,\nxXx BBL xXx", "\nxXx UNLESS @none xXx\nyes\nxXx ENDLESS xXx\n", "xXx @nam"}; const char *e = E[sym_pick(0, 5, "end")]; size_t el = strlen(e); if (el > n) sym_stop(); unsigned char *d = malloc(n); for (size_t i = 0; i < n; i++) d[i] = i % 100 == 99 ? '\n' : 't'; memcpy(d + n - el, e, el); sym_bytes(d, n > el, "first"); if (n > el) sym_assume((d[0] != 0) & (d[0] != 'x') & (d[0] != 'X') & (d[0] != '\r')); env_add_file("dir/t.html", d, n); render_ok("dir/t.html", d, n); free(d); sym_reach("page sizes"); break; }
  case 12: { // unservable: 404, the context is consumed
    unsigned char d[5] = "abcd"; struct env_vfile *f = env_add_file("t.html", d, 5); int how = (int)sym_pick(0, 2, "how"); if (how == 0) f->exists = 0; else if (how == 1) f->openable = 0; else f->mappable = 0; base = sym_live(); ctx = mkctx(); int rc = m38_render_file(ctx, "t.html", &R_); CHECK(rc == 404, "404"); CHECK(R_.outsize > 0 && sym_valid(R_.out, R_.outsize), "with an error page"); m38_heap_cleanup(rc, &R_); clean_env(); sym_reach("unservable template"); break; }
  case 13: { // through a request
    size_t n = sym_pick(0, 1, "page") ? 4096 : 40; unsigned char *d = malloc(n); memset(d, 't', n); memcpy(d + n - 13, "xXx @name xXx", 13); struct env_vfile *f = env_add_file("t.html", d, n); path = "t.html"; f->exists = (int)sym_pick(0, 1, "exists"); expect_render(d, n); mkroute(&rt, "GET", "^/p$", 0, h_render, m38_heap_cleanup); m38_app *app = mkapp(&rt, 1, 0); base = sym_live(); m38_handled_request *h = ask(app, ""); if (f->exists) { CHECK(h->response_code == 200 && tail_is(h, want, want_n), "the response is the rendering"); CHECK(line_in(h, "Content-Type: text/html\r\n"), "as text/html"); } else CHECK(h->response_code == 404, "404"); finish(h); clean_env(); free(app); free(d); free(want); sym_reach("rendered request"); break; }
  // ---- H16
  case 20: { int start = (int)sym_pick(0, 3, "start"); static m38_route own; m38_route *r0 = 0; int hi = 0, ci = 0, n = (int)sym_pick(0, 4, "n"); if (start) { hi = start & 1 ? 3 : 0; ci = start & 2 ? 3 : 0; mkroute(&own, "GET", "^.*$", 0, HH[hi], CC[ci]); r0 = &own; } static m38_route rts[1]; base = sym_live(); m38_app *app = mkapp(rts, 0, r0);
    for (int i = 0; i < n; i++) { int w = (int)sym_pick(1, 4, "call"); if (w <= 2) { hi = w; CHECK(m38_set_404_handler(app, HH[w]) == 0, "registering a handler reports success"); } else { ci = w - 2; CHECK(m38_set_404_cleanup(app, CC[ci]) == 0, "registering a cleanup reports success"); }
      CHECK(app->r_404_route && app->r_404_route->handler == HH[hi] && app->r_404_route->cleanup == CC[ci], "the 404 route has the latest handler and cleanup"); }
    uint64_t live = sym_live(); m38_handled_request *h = req1(app, "GET /q HTTP/1.1\r\n\r\n", 19); CHECK(h && h->response_code == 404, "404"); if (hi) { static const char *const PG[] = {"", "page A", "page B", "page C"}; CHECK(who == hi && tail_is(h, PG[hi], 6), "unmatched requests use the registered handler"); } else CHECK(who == 0, "no handler"); finish(h); CHECK(!hi || cw == CV[ci], "and the registered cleanup, once"); CHECK(sym_live() == live, "nothing leaks"); if (app->r_404_route != r0) free(app->r_404_route); free(app); CHECK(sym_live() == base, "registering again does not leak"); sym_reach(n ? "registered" : "none registered"); break; }
  case 21: { // two applications side by side: what is registered on one is not the other's
    static m38_route own; static m38_route rts[1]; int hi[2] = {0, 0}, ci[2] = {0, 0}, n = (int)sym_pick(0, 3, "n"); base = sym_live(); m38_route *r0 = 0; if (sym_pick(0, 1, "own")) { mkroute(&own, "GET", "^.*$", 0, hc, cc); r0 = &own; hi[0] = ci[0] = 3; } m38_app *apps[2] = {mkapp(rts, 0, r0), mkapp(rts, 0, 0)};
    for (int i = 0; i < n; i++) { int w = (int)sym_pick(1, 4, "call"), a = (int)sym_pick(0, 1, "app"); if (w <= 2) { hi[a] = w; CHECK(m38_set_404_handler(apps[a], HH[w]) == 0, "registering a handler reports success"); } else { ci[a] = w - 2; CHECK(m38_set_404_cleanup(apps[a], CC[ci[a]]) == 0, "registering a cleanup reports success"); } }
    for (int x = 0; x < 2; x++) if (hi[x] || ci[x]) CHECK(apps[x]->r_404_route && apps[x]->r_404_route->handler == HH[hi[x]] && apps[x]->r_404_route->cleanup == CC[ci[x]], "the 404 route has the latest handler and cleanup");
    uint64_t live = sym_live(); int first = (int)sym_pick(0, 1, "first"); for (int t = 0; t < 3; t++) { int x = (first + t) % 2; who = 0; cw = 0; m38_handled_request *h = req1(apps[x], "GET /q HTTP/1.1\r\n\r\n", 19); CHECK(h && h->response_code == 404, "404"); if (hi[x]) { static const char *const PG[] = {"", "page A", "page B", "page C"}; CHECK(who == hi[x] && tail_is(h, PG[hi[x]], 6), "unmatched requests use the registered handler of their application"); } else CHECK(who == 0, "no handler of another application"); finish(h); CHECK(cw == CV[ci[x]] || (!hi[x] && cw == 0), "and its registered cleanup, once"); CHECK(sym_live() == live, "nothing leaks"); }
    for (int x = 0; x < 2; x++) { if (apps[x]->r_404_route != (x ? 0 : r0)) free(apps[x]->r_404_route); free(apps[x]); } CHECK(sym_live() == base, "registering again does not leak"); sym_reach("two applications"); break; }
  case 22: { // requests between the registrations
    int hi = 0, ci = 0, n = (int)sym_pick(1, 4, "n"); static m38_route rts[1]; base = sym_live(); m38_app *app = mkapp(rts, 0, 0);
    for (int i = 0; i < n; i++) { int w = (int)sym_pick(1, 4, "call"); if (w <= 2) { hi = w; CHECK(m38_set_404_handler(app, HH[w]) == 0, "registering a handler reports success"); } else { ci = w - 2; CHECK(m38_set_404_cleanup(app, CC[ci]) == 0, "registering a cleanup reports success"); } who = cw = 0; m38_handled_request *h = req1(app, "GET /q HTTP/1.1\r\n\r\n", 19); CHECK(h && h->response_code == 404 && who == hi, "unmatched requests use the registered handler"); finish(h); CHECK(!hi || cw == CV[ci], "and the registered cleanup, once"); }
    free(app->r_404_route); free(app); CHECK(sym_live() == base, "registering again does not leak"); sym_reach("between"); break; }
  }
}
static long fail_after(struct conn *c, size_t n) { return c->sends > 1 ? -1 : (long)(n > 300 ? 300 : n); }
