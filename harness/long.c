// Histories of requests: hundreds of requests of all kinds one after another in one process; routes and files change on the way
// (arg 0 H10, 1 H12, 2 H08 and H15, 3 H03 and H22, 4 H09, 5 H19, 6 H11, 7 H18).
#define NTHR 12
#define NCONN 1210
#define QCAP 16
#define NMSG 200
#define NQD 40
#include "http.h"
#include "logging.h"
#include "parse.h"
#include "utils.h"
static int mode; static unsigned char s[4];
#define CK(m, c, msg) do { if (mode == (m)) CHECK(c, msg); } while (0)
static int ran_a, ran_b, ran_f, ncl, clst; static char path[64], num[16]; static int cur; static unsigned char bodyw[64]; static size_t bodyl; static char fileb[600]; static struct env_vfile *file;
static char tagv[8];
static int is(const char *r, const char *w) { size_t n = strlen(w); return r != 0 && sym_valid(r, n + 1) && sym_eq(r, w, n) && r[n] == 0; }
static void seen(const m38_http_request *r) { CK(3, is((const char *)r->resource, path), "the path is the one that was sent"); CK(3, r->body_len == bodyl && (!bodyl || sym_eq(r->full_body, bodyw, bodyl)), "the body is the one that was sent");
  char *v = m38_get_header_value_request(r, "X-Tag"); CK(3, cur % 8 == 6 ? is(v, tagv) : v == 0, "the header that was sent"); free(v); v = m38_get_header_value_request(r, "Cookie"); CK(3, (v != 0) == (cur % 8 == 6), "a header that was not sent is absent"); if (v) { char *c = m38_get_cookie_value(v, strlen(v), "sid"); CK(3, is(c, num), "the cookie that was sent"); free(c); free(v); }
  size_t z; if (cur % 8 == 1) { CK(3, r->form_elements != 0, "the fields of the form are there"); const unsigned char *f = r->form_elements ? sparse_dict_get(r->form_elements, "a", 1, &z) : 0; CK(3, f && z == 1 && f[0] == s[cur & 3], "the field that was submitted"); f = r->form_elements ? sparse_dict_get(r->form_elements, "n", 1, &z) : 0; CK(3, f && z == strlen(num) && memcmp(f, num, z) == 0, "the field that was submitted"); } else CK(3, r->form_elements == 0, "no field is there"); }
static int ha(const m38_http_request *r, m38_http_response *o) { ran_a++; seen(r); o->out = malloc(bodyl + 20); size_t k = put((char *)o->out, "a:"); k += put((char *)o->out + k, num); memcpy(o->out + k, bodyw, bodyl); o->outsize = k + bodyl; m38_insert_custom_header(o, "X-N", 3, num, strlen(num)); if (cur % 8 == 6) m38_insert_custom_header(o, "X-Tag", 5, tagv, strlen(tagv)); return 200; }
static int hb(const m38_http_request *r, m38_http_response *o) { ran_b++; seen(r); o->out = malloc(20); memcpy(o->out, "handler b", 9); o->outsize = 9; return 200; }
static int hf(const m38_http_request *r, m38_http_response *o) { ran_f++; seen(r); return m38_mmap_file("/srv/f.txt", o); }
static void ca(const int st, m38_http_response *o) { ncl++; clst = st; m38_heap_cleanup(st, o); } static void cf(const int st, m38_http_response *o) { ncl++; clst = st; m38_mmap_cleanup(st, o); }
static m38_route rts[4]; static char outb[20000]; static size_t nout;
void env_out(int fd, const char *p, size_t n) { (void)fd; if (mode != 5) return; CHECK(nout + n <= sizeof outb, "the log of a request is bounded"); memcpy(outb + nout, p, n); nout += n; }
static size_t count(const char *e) { size_t k = strlen(e), c = 0; for (size_t i = 0; i + k <= nout; i++) c += memcmp(outb + i, e, k) == 0; return c; }
static size_t head_end(const char *b, size_t n) { for (size_t i = 4; i <= n; i++) if (b[i - 4] == '\r' && b[i - 3] == '\n' && b[i - 2] == '\r' && b[i - 1] == '\n') return i; return 0; }
static int has(const char *b, size_t hl, const char *l) { size_t k = strlen(l), c = 0; for (size_t i = 2; i + k <= hl; i++) c += b[i - 1] == '\n' && memcmp(b + i, l, k) == 0; return (int)c; }
static long pieces(struct conn *c, size_t n) { int i = (int)(c - conns); if (i % 9 == 4) return (long)(n > 40 ? 40 : n); if (i % 11 == 7) return -1; return (long)n; }
void main_sym(void) { mode = (int)sym_arg(); sym_bytes(s, 4, "byte"); for (int i = 0; i < 4; i++) sym_assume((s[i] >= 'a') & (s[i] <= 'w')); int first = (int)sym_pick(0, 3, "first"); sym_reuse(first & 1); /* half of the histories: blocks are used again, as allocators do */ static const int N[] = {100, 300, 1200}; int n = N[sym_pick(0, 2, "n")];
  memset(fileb, 'F', sizeof fileb); file = env_add_file("/srv/f.txt", fileb, 500);
  mkroute(&rts[0], "GET", "^/s", 0, ha, ca); mkroute(&rts[1], "POST", "^/(s)", 1, ha, ca); mkroute(&rts[2], "GET", "^/f$", 0, hf, cf); mkroute(&rts[3], "GET", "^/[st]", 0, hb, ca); m38_app *app = mkapp(rts, 4, 0); if (mode == 6) send_rc = pieces; uint64_t live = sym_live(); static char q[400]; int swapped = 0;
  for (cur = first; cur < n + first; cur++) { int i = cur, kind = i % 8; if (i % 100 == 60) { swapped = !swapped; mkroute(&rts[0], "GET", swapped ? "^/x" : "^/s", 0, ha, ca); } size_t k = 0, h; num[putn(num, (uint64_t)i)] = 0; ran_a = ran_b = ran_f = ncl = 0; bodyl = 0; nout = 0; file->size = (size_t)(100 + i % 300); fileb[1] = (char)s[i & 3];
    int post = kind == 1 || kind == 2; k = put(path, kind == 3 ? "/none" : kind == 4 ? "/f" : "/s"); if (kind != 4) k += put(path + k, num); path[k] = 0; tagv[0] = (char)s[i & 3]; tagv[1] = (char)('0' + i % 10); tagv[2] = 0;
    if (kind == 1) { bodyl = put((char *)bodyw, "a="); bodyw[bodyl++] = s[i & 3]; bodyl += put((char *)bodyw + bodyl, "&n="); bodyl += put((char *)bodyw + bodyl, num); } else if (kind == 2) { bodyl = (size_t)(1 + i % 40); memset(bodyw, 'b', bodyl); bodyw[bodyl / 2] = s[i & 3]; bodyw[0] = 0; }
    k = put(q, post ? "POST " : kind == 7 ? "PUT " : "GET "); k += put(q + k, path); k += put(q + k, " HTTP/1.1\r\n"); if (kind == 1) k += put(q + k, "Content-Type: application/x-www-form-urlencoded\r\n"); if (post) { k += put(q + k, "Content-Length: "); k += putn(q + k, bodyl); k += put(q + k, "\r\n"); } uint64_t a = (uint64_t)(i % 90), z = a + 1 + (uint64_t)(i % 7); if (kind == 4) { k += put(q + k, "Range: bytes="); k += putn(q + k, a); q[k++] = '-'; k += putn(q + k, z); k += put(q + k, "\r\n"); } if (kind == 6) { k += put(q + k, "X-Tag: "); k += put(q + k, tagv); k += put(q + k, "\r\nCookie: sid="); k += put(q + k, num); k += put(q + k, "; t=1\r\n"); } if (kind != 5) k += put(q + k, "\r\n"); h = k; memcpy(q + k, bodyw, bodyl); k += bodyl;
    int c = conn_add(); conn_seg(c, q, k); if (mode == 7) { conns[c].block = kind == 5 ? 0 : 2; if (bodyl && i % 16 < 8) { conns[c].seg[0].n = h; conn_seg(c, q + h, bodyl); } }
    m38_handled_request *r = m38_generate_response(CONN0 + c, app); int is_b = kind != 3 && kind != 4 && !post && kind != 7 && swapped, is_a = (kind == 0 || kind == 6 || post) && !is_b, want = kind == 3 || kind == 7 ? 404 : kind == 4 ? 206 : 200;
    if (kind == 5) { CK(1, r == 0, "refused"); CK(7, r == 0, "refused"); CK(5, count("\"GET ") + count("NOUSERAGENT") == 0, "a refused request gets no line"); }
    else { CHECK(mode == 1 || r != 0, "a request is answered"); if (!r) continue; CK(0, ran_a == is_a && ran_b == is_b && ran_f == (kind == 4), "the handler of the first matching route runs, once, and no other"); CK(0, r->response_code == want, "no match gets the 404 page"); CK(7, ran_a == is_a && (!is_a || bodyl == 0 || r->response_len > bodyl), "it is answered");
      const char *b = r->response_bytes; size_t hl = head_end(b, r->response_len < 600 ? r->response_len : 600), bl = r->response_len - hl; char t[64]; size_t tk = put(t, "Content-Length: "); tk += putn(t + tk, bl); tk += put(t + tk, "\r\n"); t[tk] = 0;
      CK(2, hl > 0 && has(b, hl, t) == 1, "Content-Length is the number of body bytes"); CK(2, memcmp(b, want == 200 ? "HTTP/1.1 200 " : want == 206 ? "HTTP/1.1 206 " : "HTTP/1.1 404 ", 13) == 0, "the status"); if (is_a) { size_t nl = strlen(num); CK(2, bl == 2 + nl + bodyl && memcmp(b + hl, "a:", 2) == 0 && memcmp(b + hl + 2, num, nl) == 0 && sym_eq(b + hl + 2 + nl, bodyw, bodyl), "exactly the handler's bytes"); tk = put(t, "X-N: "); tk += put(t + tk, num); tk += put(t + tk, "\r\n"); t[tk] = 0; CK(2, has(b, hl, t) == 1, "the header this handler added"); CK(2, has(b, hl, "X-Tag: ") == (kind == 6), "and no other"); } else CK(2, has(b, hl, "X-N: ") == 0 && has(b, hl, "X-Tag: ") == 0, "no header of an earlier response"); if (is_b) CK(2, bl == 9 && memcmp(b + hl, "handler b", 9) == 0, "exactly the handler's bytes");
      if (kind == 4) { uint64_t e = z < file->size - 1 ? z : file->size - 1; CK(4, bl == e - a + 1 && sym_eq(b + hl, fileb + a, bl), "exactly the bytes asked for"); tk = put(t, "Content-Range: bytes "); tk += putn(t + tk, a); t[tk++] = '-'; tk += putn(t + tk, e); t[tk++] = '/'; tk += putn(t + tk, file->size); tk += put(t + tk, "\r\n"); t[tk] = 0; CK(4, has(b, hl, t) == 1, "Content-Range is the range"); } else CK(4, has(b, hl, "Content-Range") == 0, "no range unless it was asked for");
      static char keep[2000]; size_t kl = r->response_len; if (mode == 6) { memcpy(keep, b, kl < 2000 ? kl : 0); conns[c].wire = malloc(2000); conns[c].cap = 2000; }
      finish(r); CK(6, conns[c].closed == 1 && ncl == (is_a || is_b || kind == 4), "cleaned up once and closed once"); CK(6, !ncl || clst == want || clst == 200, "with the status"); if (mode == 6) { CK(6, (conns[c].failed || conns[c].nwire == kl) && conns[c].nwire <= kl && sym_eq(conns[c].wire, keep, conns[c].nwire), "every byte is sent once and in order"); free(conns[c].wire); }
      if (mode == 5) { size_t size = bl; if (kind == 4) size = file->size; tk = put(outb + 18000, "NOIP \""); char *e = outb + 18000; tk += put(e + tk, post ? "POST " : kind == 7 ? "PUT " : "GET "); tk += put(e + tk, path); tk += put(e + tk, want == 200 ? "\" 200 " : want == 206 ? "\" 206 " : "\" 404 "); tk += putn(e + tk, size); tk += put(e + tk, " \"NOUSERAGENT\""); e[tk] = 0; CHECK(nout < 17000 && count(e) == 1 && count("NOUSERAGENT") == 1, "one line with what was asked and answered"); } }
    CK(1, kind == 5 || conns[c].closed == 1, "its connection has been closed exactly once"); CK(1, sym_live() == live, "every block allocated for a request is freed"); CK(1, env_open_fds == 0 && env_open_maps == 0 && env_bad_unmap == 0 && bad_close == 0, "nothing stays open"); }
  free(app); sym_reach("history"); }
