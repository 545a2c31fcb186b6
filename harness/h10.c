// H10: routing and the 404 fallback.
#include "http.h"
static int ran[16], nran, ncleanup, last_cleanup, cleanup_code; static regmatch_t seen[4]; static int verdict; static const unsigned char *content; static size_t clen;
static char saw_verb[VERB_SIZE]; static char saw_path[512];
static int hit(int i, const m38_http_request *r, m38_http_response *s) { ran[i]++; nran++; memcpy(seen, r->matches, sizeof seen); memcpy(saw_verb, r->verb, sizeof saw_verb); memcpy(saw_path, r->resource, sizeof saw_path); s->out = (unsigned char *)content; s->outsize = clen; return verdict; }
#define H(i) static int h##i(const m38_http_request *r, m38_http_response *s) { return hit(i, r, s); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11)
static int (*const HS[])(const m38_http_request *, m38_http_response *) = {h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11};
static int nf_ran, nf_code, nf_null; static const unsigned char nf_page[] = "custom page";
static int nf(const m38_http_request *r, m38_http_response *s) { (void)r; nf_ran++; if (nf_null) { s->out = 0; s->outsize = 0; } else { s->out = (unsigned char *)nf_page; s->outsize = sizeof nf_page - 1; } return nf_code; }
static void cu(int w, int code, m38_http_response *s) { (void)s; ncleanup++; last_cleanup = w; cleanup_code = code; }
static void c0(const int code, m38_http_response *s) { cu(0, code, s); } static void cnf(const int code, m38_http_response *s) { cu(99, code, s); }
static const char *P; static size_t PL; static long G[8];
/* predicates of the pool, with the sub-match offsets in G */
static int lower(char c) { return (c >= 'a') & (c <= 'z'); } static int dig(char c) { return (c >= '0') & (c <= '9'); }
static int all(size_t a, size_t b, int (*f)(char)) { int r = 1; for (size_t i = a; i < b; i++) r &= f(P[i]); return r; }
static int m_root(void) { return PL == 1 && P[0] == '/'; }
static int m_a(void) { return PL == 2 && P[0] == '/' && P[1] == 'a'; }
static int m_low(void) { G[0] = 1; G[1] = (long)PL; return PL >= 2 && P[0] == '/' && all(1, PL, lower); }
static int m_num(void) { size_t i = 1; if (PL < 3 || P[0] != '/') return 0; while (i < PL && dig(P[i])) i++; if (i == 1 || i == PL || P[i] != '/') return 0; G[0] = 1; G[1] = (long)i; G[2] = (long)i + 1; G[3] = (long)PL; return 1; }
static int m_any_a(void) { for (size_t i = 0; i < PL; i++) if (P[i] == 'a') return 1; return 0; }
static int m_all(void) { return 1; }
static int m_end(void) { return PL >= 2 && P[PL - 2] == '.' && P[PL - 1] == 'j'; }
static int m_dot(void) { size_t d = PL; while (d > 0 && P[d - 1] != '.') d--; if (d == 0 || PL < 2 || P[0] != '/' || d - 1 < 1) return 0; G[0] = 1; G[1] = (long)d - 1; G[2] = (long)d; G[3] = (long)PL; return 1; }
static const struct { const char *re; size_t em; int (*m)(void); } POOL[] = {{"^/$", 0, m_root}, {"^/a$", 0, m_a}, {"^/([a-z]+)$", 1, m_low}, {"^/([0-9]+)/(.*)$", 2, m_num}, {"a", 0, m_any_a}, {"^/(.*)\\.(.*)$", 2, m_dot}, {"^.*$", 0, m_all}, {"\\.j$", 0, m_end}};
static m38_route rts[16]; static size_t em[16]; static m38_handled_request *h; static m38_app *app; static uint64_t live;
static void ask(const char *verb, size_t vl, const char *path, size_t pl, int n, m38_route *r404) {
  char *b = malloc(vl + pl + 40); size_t k = 0; memcpy(b, verb, vl); k = vl; b[k++] = ' '; memcpy(b + k, path, pl); k += pl; k += put(b + k, " HTTP/1.1\r\nHost: h\r\n\r\n"); app = mkapp(rts, n, r404); live = sym_live() - 1; h = req1(app, b, k); free(b); CHECK(h != 0, "the request is answered"); }
static void done(void) { finish(h); CHECK(sym_live() == live, "nothing leaks"); free(app); nconns = 0; }
static int is_body(const char *s, size_t l) { return h->response_len >= l && sym_eq(h->response_bytes + h->response_len - l, s, l) && h->response_len > l + 4 && sym_eq(h->response_bytes + h->response_len - l - 4, "\r\n\r\n", 4); }
static void expect(int w) { for (int i = 0; i < 12; i++) CHECK(ran[i] == (i == w), "the handler of the first matching route runs, once, and no other"); }
static void matches_ok(size_t e) { if (!e) return; CHECK(seen[0].rm_so >= 0, "sub-matches are filled in"); for (size_t i = 0; i < e; i++) CHECK(seen[i + 1].rm_so == G[2 * i] && seen[i + 1].rm_eo == G[2 * i + 1], "sub-matches are the offsets of the groups in the path"); sym_reach("sub-matches"); }
static const unsigned char OKB[] = "fine";
void main_sym(void) { verdict = 200; content = OKB; clen = 4; nf_code = 404; nf_null = 0;
  switch (sym_arg()) {
  case 0: { // every table of up to 2 (3) routes, every path of 1..4 bytes
    char p[8]; P = p; PL = sym_pick(1, 4, "plen"); sym_bytes(p, PL, "path"); for (size_t i = 0; i < PL; i++) sym_assume(((p[i] > ' ') & (p[i] != 127)) | (p[i] == '\n'));
#ifdef THOROUGH
    int n = (int)sym_pick(0, 3, "n");
#else
    int n = (int)sym_pick(0, 2, "n");
#endif
    int c[3]; for (int i = 0; i < n; i++) { c[i] = (int)sym_pick(0, 7, "route"); mkroute(&rts[i], sym_pick(0, 1, "post") ? "POST" : "GET", POOL[c[i]].re, POOL[c[i]].em, HS[i], 0); }
    int want = -1; for (int i = 0; i < n && want < 0; i++) if (rts[i].verb[0] == 'G' && POOL[c[i]].m()) want = i; ask("GET", 3, p, PL, n, 0); expect(want); if (want >= 0) { POOL[c[want]].m(); matches_ok(POOL[c[want]].em); CHECK(h->response_code == 200 && is_body("fine", 4), "the response is that handler's"); CHECK(sym_eq(saw_path, p, PL) && saw_path[PL] == 0, "the handler sees the path"); sym_reach("routed"); } else { CHECK(h->response_code == 404, "an unmatched request is answered with 404"); CHECK(h->response_len > 40, "with the built-in page"); sym_reach("unmatched"); } done(); break; }
  case 1: { // methods
    static const char *const V[] = {"GET", "GETX", "GE", "POST", "get", "G", "PROPPATCHANDMOR", "PROPPATCHANDMO"}; char v[24]; size_t vl; int kind = (int)sym_pick(0, 1, "kind");
    if (kind == 0) { vl = sym_pick(1, 4, "vlen"); sym_bytes(v, vl, "method"); for (size_t i = 0; i < vl; i++) sym_assume((v[i] > ' ') & (v[i] != 127)); } else { static const char *const L[] = {"PROPPATCHANDMO", "PROPPATCHANDMOR", "PROPPATCHANDMORE", "PROPPATCHANDMOREX", "DELETE", "OPTIONS", "PROPPATCHANDMOX"}; const char *l = L[sym_pick(0, 6, "long")]; vl = strlen(l); memcpy(v, l, vl); }
    v[vl] = 0; size_t cut = vl > 15 ? 15 : vl; int n = (int)sym_pick(1, 3, "n"); int want = -1; for (int i = 0; i < n; i++) { const char *rv = V[sym_pick(0, 7, "verb")]; mkroute(&rts[i], rv, "^/", 0, HS[i], 0); if (want < 0 && strlen(rv) == cut && memcmp(rv, v, cut) == 0) want = i; }
    ask(v, vl, "/p", 2, n, 0); expect(want); if (want >= 0) sym_reach("method"); else { CHECK(h->response_code == 404, "an unmatched request is answered with 404"); sym_reach("other method"); } done(); break; }
  case 2: { // 404 fallback
    static m38_route r404; int app404 = (int)sym_pick(0, 3, "app404"); memset(&r404, 0, sizeof r404); if (app404) { mkroute(&r404, "GET", "^.*$", 0, app404 & 1 ? nf : 0, app404 & 2 ? cnf : 0); } int how = (int)sym_pick(0, 4, "how"); nf_code = sym_pick(0, 1, "code") ? 200 : 404; nf_null = (int)sym_pick(0, 1, "nullpage"); if (nf_null && (nf_code == 404 || !(app404 & 1))) { if (nf_code == 200) sym_stop(); }
    mkroute(&rts[0], "GET", "^/p$", 0, h0, c0); static const unsigned char some[] = "some"; verdict = 404; int expected_custom = 1;
    if (how == 1) { content = 0; clen = 0; } else if (how == 2) { content = some; clen = 0; } else if (how == 3) { content = 0; clen = 4; } else if (how == 4) { content = some; clen = 4; expected_custom = 0; }
    ask("GET", 3, how == 0 ? "/q" : "/p", 2, 1, app404 ? &r404 : 0); CHECK(ran[0] == (how != 0), "the chosen handler runs once");
    if (!expected_custom) { CHECK(nf_ran == 0 && h->response_code == 404 && is_body("some", 4), "a 404 with content is the handler's own"); finish(h); CHECK(ncleanup == 1 && last_cleanup == 0 && cleanup_code == 404, "and is cleaned up by its route"); sym_reach("own 404"); }
    else if (app404 & 1) { CHECK(nf_ran == 1, "the application's 404 handler answers"); CHECK(h->response_code == nf_code, "with its status"); CHECK(nf_null || is_body("custom page", sizeof nf_page - 1), "and its content"); finish(h); CHECK((app404 & 2) ? ncleanup == 1 && last_cleanup == 99 && cleanup_code == nf_code : ncleanup == 0, "and is cleaned up by its cleanup"); sym_reach("custom 404"); }
    else { CHECK(nf_ran == 0 && h->response_code == 404, "the built-in page answers with 404"); CHECK(h->response_len > 0 && h->response_bytes[h->response_len - 1] == '>' && !is_body("", 0), "the built-in page has content"); finish(h); sym_reach("built-in 404"); }
    CHECK(conns[nconns - 1].closed == 1, "closed once"); CHECK(sym_live() == live, "nothing leaks"); free(app); nconns = 0; break; }
  case 3: { // long tables
    int n = (int)sym_pick(0, 12, "n"); int dup = (int)sym_pick(0, 12, "dup"); for (int i = 0; i < n; i++) { char m[20] = "^/r"; size_t k = 3 + putn(m + 3, (uint64_t)(i >= dup && dup < n ? i - i % 3 : i)); m[k++] = '$'; m[k] = 0; mkroute(&rts[i], i % 4 == 3 ? "PUT" : "GET", m, 0, HS[i], 0); }
    int q = (int)sym_pick(0, 12, "q"); char path[20] = "/r"; size_t pl = 2 + putn(path + 2, (uint64_t)q); int want = -1; for (int i = 0; i < n && want < 0; i++) if (i % 4 != 3 && (i >= dup && dup < n ? i - i % 3 : i) == q) want = i; ask("GET", 3, path, pl, n, 0); expect(want); done(); sym_reach("long table"); break; }
  case 4: { // long paths
    static const size_t L[] = {2, 31, 127, 255, 256, 300, 510, 511}; size_t l = L[sym_pick(0, 7, "l")]; char *p = malloc(l + 1); memset(p, 'x', l); p[0] = '/'; p[l] = 0; size_t d = sym_pick(0, 3, "dot"); size_t at = d == 0 ? 1 : d == 1 ? l / 2 : d == 2 ? l - 1 : l; if (at < l && at) p[at] = '.'; sym_bytes(p + l - 1, 1, "last"); sym_assume(p[l - 1] > ' ' && p[l - 1] != 127); if (l > 300) { sym_bytes(p + 5, 1, "early"); sym_assume(p[5] > ' ' && p[5] != 127); } P = p; PL = l; int a = (int)sym_pick(2, 7, "route"); if (a == 4) sym_stop();
    mkroute(&rts[0], "GET", POOL[a].re, POOL[a].em, h0, 0); mkroute(&rts[1], "GET", "^/(x*)", 1, h1, 0); int want = POOL[a].m() ? 0 : 1; ask("GET", 3, p, l, 2, 0); expect(want); if (want == 0) { POOL[a].m(); matches_ok(POOL[a].em); } CHECK(sym_eq(saw_path, p, l) && saw_path[l] == 0, "the handler sees the path"); done(); free(p); sym_reach("long path"); break; }
  case 5: { // three groups (the most a route may ask for)
    char p[16] = "/a-b-"; PL = 5 + sym_pick(0, 2, "more"); sym_bytes(p + 1, 1, "g1"); sym_bytes(p + 3, 1, "g2"); sym_bytes(p + 5, PL - 5, "g3"); for (size_t i = 0; i < PL; i++) sym_assume(p[i] > ' ' && p[i] != 127); P = p; int ok = lower(p[1]) & dig(p[3]); mkroute(&rts[0], "GET", "^/([a-z])-([0-9])-(.*)$", 3, h0, 0); ask("GET", 3, p, PL, 1, 0); expect(ok ? 0 : -1); if (ok) { G[0] = 1; G[1] = 2; G[2] = 3; G[3] = 4; G[4] = 5; G[5] = (long)PL; matches_ok(3); CHECK(seen[0].rm_so == 0 && seen[0].rm_eo == (long)PL, "the whole match"); } done(); sym_reach("three groups"); break; }
  case 6: { // two applications, each with its own routes, methods, sub-matches and 404 page, asked in any order
    static m38_route ra[3], rb[2], na; mkroute(&ra[0], "GET", "^/a$", 0, h0, 0); mkroute(&ra[1], "GET", "^/([a-z])$", 1, h1, 0); mkroute(&ra[2], "POST", "^/", 0, h2, 0); mkroute(&rb[0], "POST", "^/a$", 0, h3, 0); mkroute(&rb[1], "GET", "^/(.*)$", 1, h4, 0); mkroute(&na, "GET", "^.*$", 0, nf, 0); m38_app *ap[2] = {mkapp(ra, 3, &na), mkapp(rb, 2, 0)}; char c = 0; sym_bytes(&c, 1, "path"); sym_assume((c > ' ') & (c != 127)); int n = (int)sym_pick(2, 3, "n");
    for (int i = 0; i < n; i++) { int x = (int)sym_pick(0, 1, "app"), m = (int)sym_pick(0, 1, "method"); memset(ran, 0, sizeof ran); nf_ran = 0; char q[40]; size_t k = put(q, m ? "POST /" : "GET /"); q[k++] = c; k += put(q + k, " HTTP/1.1\r\n\r\n"); live = sym_live(); h = req1(ap[x], q, k); CHECK(h != 0, "the request is answered"); int w = x == 0 ? (m ? 2 : c == 'a' ? 0 : (c >= 'a' && c <= 'z') ? 1 : -1) : (m ? (c == 'a' ? 3 : -1) : 4); expect(w); CHECK(nf_ran == (w < 0 && x == 0), "the 404 handler is the application's own"); finish(h); CHECK(sym_live() == live, "nothing leaks"); }
    free(ap[0]); free(ap[1]); sym_reach("two applications"); break; }
  }
}
