// H22: what a request carries reaches its handler, and nothing else does.
#include "http.h"
#include "parse.h"
#include "utils.h"
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static long dec(const unsigned char *s, size_t n, unsigned char *out) { size_t o = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '+') out[o++] = ' '; else if (s[i] == '%') { if (i + 2 >= n) return -1; int h = hexv(s[i + 1]), l = hexv(s[i + 2]); if (h < 0 || l < 0) return -1; out[o++] = (unsigned char)(h * 16 + l); i += 2; } else out[o++] = s[i]; } return (long)o; }
/* what the handler has to see */
static const char *w_verb, *w_path; static size_t w_pathl; static const char *w_head; static size_t w_headl; static const unsigned char *w_body; static size_t w_bodyl;
static struct { const char *name; const char *v; size_t l; } w_hdr[6]; static int w_nhdr; static struct { const char *name; const char *v; size_t l; } w_ck[4]; static int w_nck;
static struct { const char *k; size_t kl; const unsigned char *v; long l; } w_fld[4]; static int w_nfld, w_form; static int ran;
static void none(const m38_http_request *r, const char *k) { for (int i = 0; i < w_nfld; i++) if (w_fld[i].l >= 0 && w_fld[i].kl == strlen(k) && memcmp(w_fld[i].k, k, w_fld[i].kl) == 0) return; size_t z; CHECK(!r->form_elements || sparse_dict_get(r->form_elements, k, strlen(k), &z) == 0, "no field that was not submitted is found"); }
static int h(const m38_http_request *r, m38_http_response *s) {
  ran++; CHECK(strcmp(r->verb, w_verb) == 0, "the handler sees the method"); CHECK(sym_eq(r->resource, w_path, w_pathl) && r->resource[w_pathl] == 0, "the handler sees the path");
  CHECK(r->header_len == w_headl && sym_valid(r->full_header, w_headl) && sym_eq(r->full_header, w_head, w_headl), "the handler sees the header block");
  CHECK(r->body_len == w_bodyl && (w_bodyl == 0 || (sym_valid(r->full_body, w_bodyl + 1) && sym_eq(r->full_body, w_body, w_bodyl) && r->full_body[w_bodyl] == 0)), "the handler sees the body");
  for (int i = 0; i < w_nhdr; i++) { char *v = m38_get_header_value_request(r, w_hdr[i].name); if (!w_hdr[i].v) CHECK(v == 0, "a header that was not sent is absent"); else { CHECK(v != 0 && sym_valid(v, w_hdr[i].l + 1) && sym_eq(v, w_hdr[i].v, w_hdr[i].l) && v[w_hdr[i].l] == 0, "the handler finds the value of a header"); sym_reach("header"); } free(v); }
  if (w_nck) { char *c = m38_get_header_value_request(r, "Cookie"); CHECK(c != 0, "the handler finds the cookies"); for (int i = 0; i < w_nck; i++) { char *v = m38_get_cookie_value(c, strlen(c), w_ck[i].name); if (!w_ck[i].v) CHECK(v == 0, "a cookie that was not sent is absent"); else { CHECK(v != 0 && sym_eq(v, w_ck[i].v, w_ck[i].l) && v[w_ck[i].l] == 0, "the handler finds the value of a cookie"); sym_reach("cookie"); } free(v); } free(c); }
  if (w_form) { CHECK(r->form_elements != 0, "the fields of a form are there"); for (int i = 0; i < w_nfld; i++) if (w_fld[i].l >= 0) { int again = 0; for (int j = i + 1; j < w_nfld; j++) again |= w_fld[j].l >= 0 && w_fld[j].kl == w_fld[i].kl && memcmp(w_fld[j].k, w_fld[i].k, w_fld[i].kl) == 0; if (again) continue; size_t z = 9999; const unsigned char *v = sparse_dict_get(r->form_elements, w_fld[i].k, w_fld[i].kl, &z); CHECK(v != 0 && z == (size_t)w_fld[i].l && (z == 0 || (sym_valid(v, z) && sym_eq(v, w_fld[i].v, z))), "a field has the value that was submitted"); sym_reach("field"); } }
  none(r, "a"); none(r, "b"); none(r, "q"); none(r, ""); return m38_return_raw_buffer("ok", 2, s); }
static m38_route rt; static m38_app *app; static uint64_t live; static char buf[16000], second[16000]; static size_t bl;
static void want(void) { w_nhdr = w_nck = w_nfld = w_form = 0; w_bodyl = 0; w_headl = 0; bl = 0; ran = 0; }
static void hdr(const char *n, const char *v, size_t l) { w_hdr[w_nhdr].name = n; w_hdr[w_nhdr].v = v; w_hdr[w_nhdr++].l = l; }
static void line(const char *n, const char *v, size_t l) { bl += put(buf + bl, n); bl += put(buf + bl, ": "); memcpy(buf + bl, v, l); bl += l; bl += put(buf + bl, "\r\n"); }
static void start(const char *verb, const char *path, size_t pl) { w_verb = verb; w_path = path; w_pathl = pl; bl += put(buf + bl, verb); buf[bl++] = ' '; memcpy(buf + bl, path, pl); bl += pl; bl += put(buf + bl, " HTTP/1.1\r\n"); }
static void send_it(const unsigned char *body, size_t n, int later) { bl += put(buf + bl, "\r\n"); static char head[16000]; memcpy(head, buf, bl); w_head = head; w_headl = bl; w_body = body; w_bodyl = n; int i = conn_add(); if (!later) { memcpy(buf + bl, body, n); conn_seg(i, buf, bl + n); } else { memcpy(second, body, n); conn_seg(i, buf, bl); conn_seg(i, second, n); } m38_handled_request *r = m38_generate_response(CONN0 + i, app); CHECK(r != 0 && ran == 1, "the request is handled"); finish(r); CHECK(sym_live() == live, "nothing leaks"); }
static void clen(size_t n) { char d[24]; size_t k = putn(d, n); line("Content-Length", d, k); }
static void graph(char *p, size_t n) { for (size_t i = 0; i < n; i++) sym_assume((p[i] > ' ') & (p[i] != 127)); }
static void text(char *p, size_t n) { for (size_t i = 0; i < n; i++) sym_assume(((unsigned char)p[i] >= ' ') & (p[i] != 127)); }
static void fld(const char *k, const unsigned char *v, long l) { w_fld[w_nfld].k = k; w_fld[w_nfld].kl = strlen(k); w_fld[w_nfld].v = v; w_fld[w_nfld++].l = l; }
#define FORM "application/x-www-form-urlencoded"
void main_sym(void) {
  mkroute(&rt, sym_arg() == 0 ? "GET" : "POST", "^/", 0, h, 0); app = mkapp(&rt, 1, 0); live = sym_live(); want();
  switch (sym_arg()) {
  case 0: { // a GET: path, header and cookie values of arbitrary bytes; headers in any order
    char p[8] = "/p", v[4], c[4]; size_t pl = 2 + sym_pick(0, 2, "plen"), vl = sym_pick(0, 2, "vlen"), cl = sym_pick(0, 2, "clen"); sym_bytes(p + 2, pl - 2, "path"); graph(p + 2, pl - 2); sym_bytes(v, vl, "value"); text(v, vl); if (vl) sym_assume(v[0] != ' '); sym_bytes(c, cl, "cookie"); text(c, cl); for (size_t i = 0; i < cl; i++) sym_assume(c[i] != ';');
    char ck[32]; size_t k = put(ck, "sid="); memcpy(ck + k, c, cl); k += cl; k += put(ck + k, "; t=x"); int o = (int)sym_pick(0, 2, "order"); start("GET", p, pl); if (o == 0) line("X-V", v, vl); line("Host", "h", 1); if (o == 1) line("X-V", v, vl); line("Cookie", ck, k); if (o == 2) line("X-V", v, vl);
    hdr("X-V", v, vl); hdr("Host", "h", 1); hdr("X", 0, 0); hdr("Content-Type", 0, 0); w_ck[0].name = "sid"; w_ck[0].v = c; w_ck[0].l = cl; w_ck[1].name = "t"; w_ck[1].v = "x"; w_ck[1].l = 1; w_ck[2].name = "id"; w_ck[2].v = 0; w_nck = 3; send_it((const unsigned char *)"", 0, 0); sym_reach("get"); break; }
  case 1: { // bodies of every kind of Content-Type, with the header block or after it
    static const struct { const char *t; int form; } CT[] = {{0, 0}, {FORM, 1}, {FORM "; charset=UTF-8", 1}, {FORM ";charset=ascii", 1}, {"text/plain", 0}, {"application/json", 0}, {"application/x-www-form", 0}, {"multipart/form-data; boundary=" FORM, 0}, {"", 0}, {"text/plain; was=" FORM, 0}};
    int ct = (int)sym_pick(0, 9, "type"), later = (int)sym_pick(0, 1, "later"), at = (int)sym_pick(0, 2, "at"); static unsigned char b[16], v[16], v2[4]; size_t vl = sym_pick(0, 3, "vlen"); size_t n = 0; b[n++] = 'a'; b[n++] = '='; sym_bytes(b + n, vl, "value"); for (size_t i = 0; i < vl; i++) sym_assume((b[n + i] != 0) & (b[n + i] != '&')); long l = dec(b + n, vl, v); for (long i = 0; i < l; i++) sym_assume(v[i] != 0); n += vl; n += put((char *)b + n, "&b="); sym_bytes(b + n, 1, "second"); sym_assume((b[n] != 0) & (b[n] != '&') & (b[n] != '%')); v2[0] = b[n] == '+' ? ' ' : b[n]; n++;
    start("POST", "/f", 2); if (at == 0 && CT[ct].t) line("Content-Type", CT[ct].t, strlen(CT[ct].t)); clen(n); if (at == 1 && CT[ct].t) line("Content-Type", CT[ct].t, strlen(CT[ct].t)); line("X-Content-Type", ct == 1 ? "text/plain" : FORM, ct == 1 ? 10 : strlen(FORM)); if (at == 2 && CT[ct].t) line("Content-Type", CT[ct].t, strlen(CT[ct].t));
    w_form = CT[ct].form; if (w_form) { fld("a", v, l); fld("b", v2, 1); } hdr("Content-Type", CT[ct].t, CT[ct].t ? strlen(CT[ct].t) : 0); send_it(b, n, later); sym_reach(w_form ? "form" : "no form"); break; }
  case 2: { // one request after another: nothing of an earlier one is left
    int n = (int)sym_pick(2, 3, "n"); for (int i = 0; i < n; i++) { want(); int k = (int)sym_pick(0, 3, "kind"); unsigned char v[2]; if (k == 0) { static unsigned char b[8]; memcpy(b, "a=", 2); sym_bytes(b + 2, 1, "value"); sym_assume((b[2] > ' ') & (b[2] != '&') & (b[2] != '%') & (b[2] != '+')); v[0] = b[2]; start("POST", "/one", 4); line("Content-Type", FORM, strlen(FORM)); clen(3); w_form = 1; fld("a", v, 1); hdr("X-V", 0, 0); send_it(b, 3, i & 1); } else if (k == 1) { start("POST", "/two", 4); line("X-V", "long value", 10); hdr("X-V", "long value", 10); hdr("Content-Type", 0, 0); send_it((const unsigned char *)"", 0, 0); } else if (k == 2) { start("POST", "/t", 2); line("Content-Type", FORM, strlen(FORM)); clen(3); w_form = 1; fld("b", (const unsigned char *)"2", 1); send_it((const unsigned char *)"b=2", 3, !(i & 1)); } else { start("POST", "/", 1); line("Content-Type", FORM, strlen(FORM)); hdr("X-V", 0, 0); send_it((const unsigned char *)"", 0, 0); } nconns = 0; } sym_reach("one after another"); break; }
  case 3: { // sizes: paths, header blocks, bodies, fields
    static const size_t L[] = {1, 15, 16, 255, 256, 510, 511, 512, 1000, 2047, 2048, 4095, 4096, 4097, 7000}; size_t l = L[sym_pick(0, 14, "size")]; int where = (int)sym_pick(0, 3, "where"), later = (int)sym_pick(0, 1, "later"); static char v[8000]; static unsigned char b[9000]; memset(v, 'v', sizeof v); sym_bytes(v + l - 1, 1, "last"); graph(v + l - 1, 1); sym_assume((v[l - 1] != '&') & (v[l - 1] != '%') & (v[l - 1] != '+'));
    char p[520]; size_t pl = 2; memcpy(p, "/p", 2); if (where == 0) { if (l > 500) sym_stop(); memcpy(p + 1, v, l); pl = l + 1; } start("POST", p, pl); if (where == 1) { line("X-V", v, l); hdr("X-V", v, l); } size_t n = put((char *)b, "a=1"); if (where == 2) { memcpy(b + 2, v, l); n = 2 + l; } if (where == 3) { memcpy(b, v, l); b[0] = 'q'; n = l; } if (where != 3) line("Content-Type", FORM, strlen(FORM)); clen(n); if (where == 3) hdr("Content-Type", 0, 0); else { w_form = 1; fld("a", where == 2 ? (unsigned char *)v : (const unsigned char *)"1", where == 2 ? (long)l : 1); } send_it(b, n, later); sym_reach("sizes"); break; }
  case 4: { // many headers, cookies and fields, the first, one in the middle, the last or none of them asked for
    static const int N[] = {2, 31, 32, 33, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500}; int n = N[sym_pick(0, 14, "n")], what = (int)sym_pick(0, 2, "what"), later = (int)sym_pick(0, 1, "later"); int at[3] = {0, n / 2, n - 1}; static char nm[3][16]; static char v[4]; sym_bytes(v, 3, "values"); for (int i = 0; i < 3; i++) sym_assume((v[i] > ' ') & (v[i] != 127) & (v[i] != ';') & (v[i] != '&') & (v[i] != '%') & (v[i] != '+') & (v[i] != '='));
    start("POST", "/many", 5); static char x[16000]; size_t k = 0; for (int i = 0; i < n; i++) { int q = i == at[0] ? 0 : i == at[2] ? 2 : i == at[1] ? 1 : -1; char h[16] = "H-"; size_t hl = 2 + putn(h + 2, (uint64_t)i); if (what == 0) line(h, q >= 0 ? v + q : "x", 1); else { if (k) k += put(x + k, what == 1 ? "; " : "&"); memcpy(x + k, h, hl); k += hl; x[k++] = '='; x[k++] = q >= 0 ? v[q] : 'x'; } if (q >= 0) { memcpy(nm[q], h, hl + 1); if (what == 0) hdr(nm[q], v + q, 1); else if (what == 1) { w_ck[w_nck].name = nm[q]; w_ck[w_nck].v = v + q; w_ck[w_nck++].l = 1; } else fld(nm[q], (unsigned char *)v + q, 1); } }
    hdr("H-", 0, 0); hdr("H-501", 0, 0); if (what == 1) { line("Cookie", x, k); w_ck[w_nck].name = "H-501"; w_ck[w_nck].v = 0; w_nck++; } if (what == 2) { line("Content-Type", FORM, strlen(FORM)); clen(k); w_form = 1; send_it((const unsigned char *)x, k, later); } else { line("Content-Type", FORM, strlen(FORM)); clen(3); w_form = 1; fld("a", (const unsigned char *)"1", 1); send_it((const unsigned char *)"a=1", 3, later); } sym_reach("many parts"); break; }
  }
  free(app); nconns = 0;
}
