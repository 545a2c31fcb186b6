// Histories: the same function hundreds of times in one process, in the same buffers, with contents that change from call to call
// (H01, H02, H04-H07, H14, H16, H17, D01-D05, D07, T01-T08, L01). What a call gives depends on nothing but its arguments.
#define TSIZE 8000
#include "tmpl.h"
#include "parse.h"
#include "utils.h"
#include "vector.h"
#include "simple_sparsehash.h"
#include "grengine.h"
#include "server.h"
#include "logging.h"
#define COUNT 300
#define MANY 1200
static unsigned char s[4];
static size_t cat(char *b, const char *p) { size_t n = strlen(p); memcpy(b, p, n + 1); return n; }
static size_t dec(char *b, unsigned v) { char t[24]; int k = 0; do t[k++] = (char)('0' + v % 10); while (v /= 10); for (int i = 0; i < k; i++) b[i] = t[k - 1 - i]; b[k] = 0; return (size_t)k; }
static uint64_t fnv(const unsigned char *k, size_t n) { uint64_t h = 14695981039346656037ULL; for (size_t i = 0; i < n; i++) { h ^= k[i]; h *= 1099511628211ULL; } return h; }
static int is(const char *r, const char *w) { size_t n = strlen(w); return r != 0 && sym_valid(r, n + 1) && sym_eq(r, w, n) && r[n] == 0; }
static char B[4096], W[4096]; static int first; static char sc(int i) { return (char)s[i & 3]; }
static int fcount; static char *f_count(const char *a) { (void)a; fcount++; char *r = malloc(8); dec(r, (unsigned)fcount); return r; } static int fcl; static void f_free(char *r) { fcl++; free(r); }
static int n404, c404; static int ha(const m38_http_request *r, m38_http_response *o) { (void)r; (void)o; n404 = 1; return 404; } static int hb(const m38_http_request *r, m38_http_response *o) { (void)r; (void)o; n404 = 2; return 404; } static void ca(const int st, m38_http_response *o) { (void)st; (void)o; c404 = 1; } static void cb(const int st, m38_http_response *o) { (void)st; (void)o; c404 = 2; }
static char out[3][4000]; static size_t nout[3]; static int logging;
void env_out(int fd, const char *p, size_t n) { if (!logging) return; CHECK(nout[fd] + n <= sizeof out[0], "the line is bounded"); memcpy(out[fd] + nout[fd], p, n); nout[fd] += n; }
static void shows(const greshunkel_ctext *c, const char *tm, const char *want) { nt = ne = 0; t(tm); e(want); memcpy(B, T, nt); B[nt] = 0; size_t o = 0; char *r = gshkl_render(c, B, nt, &o); text_is(r, "the text is that of the template and the context as they are now"); free(r); }
void main_sym(void) { sym_bytes(s, 4, "byte"); for (int i = 0; i < 4; i++) sym_assume((s[i] >= 'a') & (s[i] <= 'w')); uint64_t base; first = (int)sym_pick(0, 3, "first"); sym_reuse(first & 1); /* half of the histories: blocks are used again, as allocators do */ greshunkel_ctext *C = 0;
  switch (sym_arg()) {
  case 0: for (int i = first; i < MANY + first; i++) { // H01
    memset(B, 0, sizeof B); size_t k = cat(B, i % 3 == 2 ? "POST /" : "GET /"); B[k++] = sc(i); k += dec(B + k, (unsigned)(i * 7919 % 1000)); size_t pe = k, ps = i % 3 == 2 ? 5 : 4; k += cat(B + k, " HTTP/1.1\r\nA: "); k += dec(B + k, (unsigned)i % 10); k += cat(B + k, "\r\n"); int ok = i % 5 != 4; k += cat(B + k, ok ? "\r\n" : "\r"); size_t h = k; k += cat(B + k, i % 2 ? "rest" : ""); m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r); int rc = m38_parse_request((unsigned char *)B, k, r); CHECK((rc == 0) == ok, "parsing succeeds exactly when there is a blank line"); if (ok) { CHECK(is((char *)r->verb, i % 3 == 2 ? "POST" : "GET") && sym_eq(r->resource, B + ps, pe - ps) && r->resource[pe - ps] == 0 && r->header_len == h && sym_eq(r->full_header, B, h), "method, path and header block are those of this request"); } free(r->full_header); free(r); } CHECK(sym_live() == 0, "nothing leaks"); break;
  case 1: for (int i = first; i < MANY + first; i++) { // H02
    memset(B, 0, sizeof B); size_t k = cat(B, "GET / HTTP/1.1\r\n"); int w = i % 3; k += cat(B + k, w == 0 ? "X-A: " : w == 1 ? "X-B: " : "X-A-"); char v[8]; v[0] = sc(i); dec(v + 1, (unsigned)(i % 7)); k += cat(B + k, v); k += cat(B + k, w == 2 ? ": " : ""); k += cat(B + k, "\r\n\r\n"); const char *ask[] = {"X-A", "X-B", "X-A"}; for (int j = 0; j < 3; j++) { char *r = m38_get_header_value_raw(B, k, ask[j]); int there = w != 2 && (w == 0) == (j != 1); if (there) CHECK(is(r, v), "the value is the one in this request"); else CHECK(r == 0, "a header that is not there is absent"); free(r); } if (w == 2) { static char nm[16]; size_t q = cat(nm, "X-A-"); cat(nm + q, v); char *r = m38_get_header_value_raw(B, k, nm); CHECK(is(r, ""), "the value is the one in this request"); free(r); } CHECK(m38_get_header_value_raw(B, k, "X") == 0, "a header that is not there is absent"); } CHECK(sym_live() == 0, "nothing leaks"); break;
  case 2: for (int i = first; i < MANY + first; i++) { // H04
    m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r); size_t k = cat(B, i % 3 == 0 ? "a=" : i % 3 == 1 ? "b=" : "a=%4"); if (i % 3 == 2) B[k++] = (char)('1' + i % 8); else B[k++] = sc(i); k += cat(B + k, "&c="); k += dec(B + k, (unsigned)i); r->full_body = malloc(k + 1); memcpy(r->full_body, B, k); r->full_body[k] = 0; r->body_len = k; CHECK(m38_parse_form_encoded_body(r) == 0 && r->form_elements, "a form is always parsed"); size_t z = 0; const unsigned char *v = sparse_dict_get(r->form_elements, "a", 1, &z); if (i % 3 == 1) CHECK(v == 0, "a name that was not submitted is not found"); else CHECK(v && z == 1 && v[0] == (i % 3 == 0 ? (unsigned char)sc(i) : (unsigned char)('A' + i % 8)), "a field has the value that was submitted"); v = sparse_dict_get(r->form_elements, "b", 1, &z); CHECK((v != 0) == (i % 3 == 1), "a name that was not submitted is not found"); v = sparse_dict_get(r->form_elements, "c", 1, &z); char d[12]; size_t dl = dec(d, (unsigned)i); CHECK(v && z == dl && memcmp(v, d, dl) == 0, "a field has the value that was submitted"); sparse_dict_free(r->form_elements); free(r->full_body); free(r); } CHECK(sym_live() == 0, "nothing leaks"); break;
  case 3: for (int i = first; i < MANY + first; i++) { // H05
    size_t k = 0, w = 0; B[k++] = W[w++] = sc(i); int m = i % 4; k += cat(B + k, m == 0 ? "%4" : m == 1 ? "+z" : m == 2 ? "%z" : "%5"); if (m == 1) { W[w++] = ' '; W[w++] = 'z'; } B[k++] = (char)('1' + i % 8); if (m == 0 || m == 3) W[w++] = (char)((m ? 'P' : '@') + 1 + i % 8); if (m == 1) W[w++] = (char)('1' + i % 8); B[k] = W[w] = 0; static char got[64]; int r = m38_url_decode(B, got); if (m == 2) CHECK(r == -1, "a malformed escape is rejected with -1"); else CHECK(r == (int)w + 1 && sym_eq(got, W, w + 1), "decoded"); } break;
  case 4: for (int i = first; i < MANY + first; i++) { // H06
    size_t k = 0; k += cat(B, i % 3 == 0 ? "sid=" : i % 3 == 1 ? "uid=" : "sid2"); char v[8] = {sc(i), (char)('0' + i % 10), 0}; k += cat(B + k, i % 3 == 2 ? "=" : ""); k += cat(B + k, v); k += cat(B + k, "; t="); k += dec(B + k, (unsigned)i); CHECK(m38_get_cookie_value(B, k, "si") == 0, "a cookie that is not there is absent"); char *r = m38_get_cookie_value(B, k, "sid"); if (i % 3 == 0) CHECK(is(r, v), "the value of this header's cookie"); else CHECK(r == 0, "a cookie that is not there is absent"); free(r); r = m38_get_cookie_value(B, k, "sid2"); if (i % 3 == 2) CHECK(is(r, v), "the value of this header's cookie"); else CHECK(r == 0, "a cookie that is not there is absent"); free(r); r = m38_get_cookie_value(B, k, "uid"); if (i % 3 == 1) CHECK(is(r, v), "the value of this header's cookie"); else CHECK(r == 0, "a cookie that is not there is absent"); free(r); dec(W, (unsigned)i); r = m38_get_cookie_value(B, k, "t"); CHECK(is(r, W), "the value of this header's cookie"); free(r); } CHECK(sym_live() == 0, "nothing leaks"); break;
  case 5: for (int i = first; i < MANY + first; i++) { // H07
    size_t a = (size_t)(i * 37 % 900), b = a + (size_t)(i % 5) + 1; int m = i % 4; size_t k = cat(B, m == 3 ? "bytez=" : "bytes="); k += dec(B + k, (unsigned)a); k += cat(B + k, "-"); if (m != 1) k += dec(B + k, (unsigned)b); (void)k; m38_range_header r = m38_parse_range_header(B); CHECK(r.offset == (m == 3 ? 0 : a) && r.limit == (m == 3 || m == 1 ? 0 : b), "the interval of this header"); } break;
  case 6: for (int i = first; i < MANY + first; i++) { // D04
    size_t n = (size_t)(i / 4 % 41); for (size_t j = 0; j < n; j++) B[j] = (char)(j + 1 == n ? i * 31 : j == 0 ? i / 2 : i / 16 + (int)j); static char h[HASH_STR_SIZE]; CHECK(hash_string_fnv1a((unsigned char *)B, n, h) == 1, "returns 1"); uint64_t v = fnv((unsigned char *)B, n); int k = 0; for (int j = 60; j >= 0; j -= 4) { int d = (int)(v >> j & 15); if (k || d || j == 0) W[k++] = (char)(d < 10 ? '0' + d : 'A' + d - 10); } W[k] = 0; const char *q = h; while (*q == '0' && q[1]) q++; CHECK(is(q, W), "the hash of these bytes"); } break;
  case 7: for (int i = first; i < MANY + first; i++) { // D05
    static char nd[4]; memset(B, 'z', 40); B[40] = 0; int p = i * 13 % 37; B[p] = 'q'; B[p + 1] = sc(i); nd[0] = 'q'; nd[1] = sc(i); nd[2] = 0; size_t n = (size_t)(i % 2 ? 40 : 20); char *r = strnstr(B, nd, n); CHECK(r == ((size_t)p + 2 <= n ? B + p : 0), "the first position within these bytes"); CHECK((endswith(B, nd) != 0) == (p == 38), "the suffix test of this string"); memcpy(B + 38, nd, 2); CHECK(endswith(B, nd) != 0, "the suffix test of this string"); nd[1] = 'y'; CHECK(strnstr(B, nd, n) == 0 && endswith(B, nd) == 0, "and of this suffix"); } break;
  case 8: { struct env_vfile *f = env_add_file("./some.file", "", 0), *g = env_add_file("./other.file", "", 0); for (int i = first; i < COUNT + first; i++) { // D07
    f->size = (size_t)i * 11 + s[0]; f->mtime = i * 1000 + s[1]; f->exists = i % 7 != 6; g->size = (size_t)i; g->mtime = i; g->exists = i % 5 != 0; CHECK(get_file_size("./some.file") == (f->exists ? f->size : 0) && get_file_creation_date("./some.file") == (f->exists ? f->mtime : 0), "the size and date the file has now"); CHECK(get_file_size("./other.file") == (g->exists ? g->size : 0) && get_file_creation_date("./other.file") == (g->exists ? g->mtime : 0), "and those of another file"); } CHECK(env_open_fds == 0 && sym_live() == 0, "nothing stays open"); break; }
  case 9: { // H14: files whose content, size and presence change between two requests
    struct env_vfile *f = env_add_file("/srv/a.txt", B, 1), *g = env_add_file("/srv/b.css", W, 1); memset(B, 'b', 4000); memset(W, 'w', 4000); for (int i = first; i < COUNT + first; i++) { f->size = (size_t)(1 + i * 17 % 700); f->mtime = i / 4; f->exists = i % 6 != 5; g->size = (size_t)(1 + i % 300); B[0] = sc(i); W[0] = (char)('0' + i % 10); for (int j = 0; j < 2; j++) { struct env_vfile *x = j ? g : f; m38_http_response R; memset(&R, 0, sizeof R); int rc = m38_mmap_file(x->path, &R); CHECK(rc == (x->exists ? 200 : 404), "a file that is there is served, a missing one is not"); if (x->exists) { CHECK(R.outsize == x->size && sym_valid(R.out, x->size) && sym_eq(R.out, x->data, x->size), "exactly the bytes the file has now"); m38_mmap_cleanup(rc, &R); } else CHECK(R.outsize > 0, "an error page"); } CHECK(env_open_fds == 0 && env_open_maps == 0 && env_bad_unmap == 0, "nothing stays open"); } CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 10: { // H17
    static char f1[600]; struct env_vfile *f = env_add_file("t.html", f1, 1); for (int i = first; i < COUNT + first; i++) { f->exists = i % 6 != 5; memset(f1, 0, sizeof f1); size_t k = cat(f1, i % 2 ? "a xXx @v xXx." : "other xXx @v xXx:"); f1[k++] = sc(i); f->size = k; C = gshkl_init_context(); gshkl_add_int(C, "v", i); m38_http_response R; memset(&R, 0, sizeof R); int rc = m38_render_file(C, "t.html", &R); CHECK(rc == (f->exists ? 200 : 404), "a file that is there is served, a missing one is not"); if (f->exists) { k = cat(W, i % 2 ? "a " : "other "); k += dec(W + k, (unsigned)i); W[k++] = i % 2 ? '.' : ':'; W[k++] = sc(i); CHECK(R.outsize == k && sym_valid(R.out, k) && sym_eq(R.out, W, k), "the text is what rendering the file's bytes gives"); m38_heap_cleanup(rc, &R); } CHECK(env_open_fds == 0 && env_open_maps == 0, "nothing stays open"); } CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 11: { // T06: the included file is another one at every rendering
    static char f1[600]; struct env_vfile *f = env_add_file("t.txt", f1, 1); C = gshkl_init_context(); gshkl_add_int(C, "v", 7); for (int i = first; i < COUNT + first; i++) { memset(f1, 0, sizeof f1); size_t k = cat(f1, i % 2 ? "a xXx @v xXx." : "bc"); f1[k++] = sc(i); f->size = k; k = cat(W, i % 2 ? "a 7." : "bc"); W[k++] = sc(i); k += cat(W + k, "end"); shows(C, "xXx SCREAM t.txt xXx\nend", W); } CHECK(env_open_fds == 0 && env_open_streams == 0 && env_open_maps == 0, "nothing stays open"); gshkl_free_context(C); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 12: { // T01: another template of the same size in the same buffer, other values of the same names
    for (int i = first; i < COUNT + first; i++) { C = gshkl_init_context(); char v[3] = {sc(i), (char)('0' + i % 10), 0}, u[3] = {(char)('0' + i % 8), 'u', 0}; gshkl_add_string(C, "v", v); gshkl_add_string(C, "u", u); size_t k = cat(W, i % 2 ? "<" : "["); k += cat(W + k, i % 3 ? v : u); k += cat(W + k, ">"); shows(C, i % 2 ? i % 3 ? "<xXx @v xXx>" : "<xXx @u xXx>" : i % 3 ? "[xXx @v xXx>" : "[xXx @u xXx>", W); gshkl_free_context(C); } CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 13: { // T05: a filter that gives another result every time
    C = gshkl_init_context(); gshkl_add_filter(C, "f", f_count, f_free); int k = 0; for (int i = first; i < COUNT + first; i++) { size_t n = 0; n += dec(W + n, (unsigned)++k); n += cat(W + n, ","); n += dec(W + n, (unsigned)++k); shows(C, i % 2 ? "XxX f arg XxX,XxX f arg XxX" : "XxX f XxX,XxX f XxX", W); CHECK(fcount == k && fcl == k, "one call and one clean-up per occurrence"); } gshkl_free_context(C); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 14: { // T02, T03, T04: a context that grows between renderings
    C = gshkl_init_context(); greshunkel_var l = gshkl_add_array(C, "l"); size_t wn = 0; static char items[3000]; for (int i = 0; i < 120; i++) { char nm[8] = "n"; dec(nm + 1, (unsigned)i); char v[3] = {sc(i), (char)('0' + i % 10), 0}; size_t k = cat(T, "xXx UNLESS @"); k += cat(T + k, nm); k += cat(T + k, " xXxunsetxXx ENDLESS xXx"); char tm[80]; memcpy(tm, T, k + 1); if (i % 4 == first) shows(C, tm, "unset"); gshkl_add_string(C, nm, v); if (i % 4 == first) { shows(C, tm, ""); k = cat(tm, "xXx @"); k += cat(tm + k, nm); k += cat(tm + k, " xXx"); shows(C, tm, v); } gshkl_add_string_to_loop(&l, v); wn += cat(items + wn, v); if (i % 4 == first) shows(C, "xXx LOOP i l xXxxXx @i xXxxXx BBL xXx", items); } gshkl_free_context(C); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 15: { // T07, T08: the same rendering again and again
    C = gshkl_init_context(); char v[2] = {sc(0), 0}; gshkl_add_string(C, "v", v); greshunkel_var l = gshkl_add_array(C, "l"); gshkl_add_int_to_loop(&l, 1); gshkl_add_int_to_loop(&l, 2); gshkl_add_filter(C, "f", f_count, f_free); env_add_file("t.txt", "inc", 3); static const char TM[] = "xXx @v xXx\nxXx LOOP i l xXx(xXx @i xXx)xXx BBL xXx\nxXx UNLESS @none xXxnonexXx ENDLESS xXx\nXxX f XxX\nxXx SCREAM t.txt xXx\nend\n"; base = 0; for (int i = 0; i < COUNT; i++) { fcount = 6; size_t o = 0; memcpy(B, TM, sizeof TM); char *r = gshkl_render(C, B, sizeof TM - 1, &o); size_t k = cat(W, v); k += cat(W + k, "\n(1)(2)none\n7\nincend\n"); CHECK(is(r, W), "rendering again gives the same text"); CHECK(o == k - 1, "and the same size"); free(r); if (i == 0) base = sym_live(); CHECK(sym_live() == base, "rendering leaves nothing behind"); } gshkl_free_context(C); CHECK(sym_live() == 0, "nothing leaks"); break; }
  case 16: { // L01
    logging = 1; for (int i = first; i < COUNT + first; i++) { nout[1] = nout[2] = 0; size_t n = (size_t)(i % 11 == 10 ? 900 : i % 30), w = n > 799 ? 799 : n; memset(B, 'm', n); if (n) B[0] = sc(i); B[n] = 0; int er = i % 4 == 3; if (i % 2) m38_log_msg(er ? LOG_ERR : LOG_INFO, "%s", B); else m38_log_msg(er ? LOG_ERR : LOG_WARN, "%s", B); int fd = er ? 2 : 1; size_t k = nout[fd]; CHECK(nout[3 - fd] == 0 && k > w + 4 && out[fd][k - 1] == '\n' && sym_eq(out[fd] + k - 1 - w, B, w) && out[fd][k - 2 - w] == ' ', "one line with the message, cut to 799 bytes, on the stream of its level"); CHECK(memcmp(out[fd], "Nov 14 22:13:20 ", 16) == 0, "with a timestamp"); for (size_t j = 0; j + 1 < k; j++) if (!(j >= k - 1 - w)) CHECK(out[fd][j] != '\n', "one line"); } break; }
  case 17: { // H16: many registrations
    m38_app app; memset(&app, 0, sizeof app); int h = 0, c = 0; for (int i = first; i < COUNT + first; i++) { int w = i * 7 % 5; if (w == 0) { CHECK(m38_set_404_handler(&app, ha) == 0, "reports success"); h = 1; } else if (w == 1) { CHECK(m38_set_404_handler(&app, hb) == 0, "reports success"); h = 2; } else if (w == 2) { CHECK(m38_set_404_cleanup(&app, ca) == 0, "reports success"); c = 1; } else if (w == 3) { CHECK(m38_set_404_cleanup(&app, cb) == 0, "reports success"); c = 2; } CHECK(!h || (app.r_404_route && app.r_404_route->handler == (h == 1 ? ha : hb)), "the most recently registered handler"); CHECK(!c || (app.r_404_route && app.r_404_route->cleanup == (c == 1 ? ca : cb)), "the most recently registered cleanup"); } free(app.r_404_route); break; }
  case 18: { // D01, many vectors side by side
    vector *v[3]; for (int i = 0; i < 3; i++) v[i] = vector_new(4, (size_t)i); for (unsigned i = 0; i < COUNT; i++) { unsigned j = (i + (unsigned)first) % 3, x = i * 77 + s[j]; CHECK(vector_append(v[j], &x, 4) == 1, "append succeeds"); const unsigned *p = vector_get(v[j], v[j]->count - 1); CHECK(p && sym_eq(p, &x, 4), "the item is the one appended"); if (i % 50 == 49) { vector_free(v[j]); v[j] = vector_new(4, 1); CHECK(vector_get(v[j], 0) == 0, "an empty vector"); } } for (int i = 0; i < 3; i++) vector_free(v[i]); CHECK(sym_live() == 0, "everything is released"); break; }
  case 19: { // D02, D03: tables side by side, keys and values in the same buffers
    struct sparse_dict *d[2]; struct sparse_array *a[2]; static unsigned last[2][40]; static char has[2][40]; for (int i = 0; i < 2; i++) { d[i] = sparse_dict_init(); a[i] = sparse_array_init(4, 100); } for (unsigned i = 0; i < COUNT; i++) { unsigned j = (i + (unsigned)first) / 3 % 2, key = i * 13 % 40, x = i * 1000 + s[j]; size_t k = cat(B, "key"); k += dec(B + k, key); memcpy(W, &x, 4); CHECK(sparse_dict_set(d[j], B, k, W, 4) == 1 && sparse_array_set(a[j], key, W, 4) == 1, "set succeeds"); last[j][key] = x; has[j][key] = 1; for (int q = 0; q < 2; q++) { size_t z = 0; const void *p = sparse_dict_get(d[q], B, k, &z); CHECK(has[q][key] ? p && z == 4 && sym_eq(p, &last[q][key], 4) : p == 0, "the value last stored in this dictionary"); z = 0; p = sparse_array_get(a[q], key, &z); CHECK(has[q][key] ? p && z == 4 && sym_eq(p, &last[q][key], 4) : p == 0, "the value last stored in this array"); } if (i % 70 == 69) { sparse_dict_free(d[j]); d[j] = sparse_dict_init(); sparse_array_free(a[j]); a[j] = sparse_array_init(4, 100); memset(has[j], 0, 40); } } for (int i = 0; i < 2; i++) { sparse_dict_free(d[i]); sparse_array_free(a[i]); } CHECK(sym_live() == 0, "everything is released"); break; }
  }
  sym_reach("history");
}
