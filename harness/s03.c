// S03: what different threads do at the same time does not interfere: every access the code makes to memory another thread
// writes (or the other way round) is ordered by a queue, a thread start or join, or a lock. Decided by sym_races().
#include "http.h"
#include "parse.h"
#include "utils.h"
#include "vector.h"
#include "greshunkel.h"
#include "logging.h"
static const char PAGE[] = "xXx LOOP i items xXx\n<li>xXx @i xXx, xXx @who xXx</li>\nxXx BBL xXx\nxXx UNLESS none xXx\nno none\nxXx ENDLESS xXx\nXxX up xXx @who xXx XxX\nXxX now XxX\nxXx SCREAM /srv/part xXx\nxXx @sub.x xXx\n", PART[] = "part of xXx @who xXx\n";
static char *f_up(const char *a) { if (!a) a = "none"; size_t n = strlen(a); char *r = malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = a[i] >= 'a' && a[i] <= 'z' ? (char)(a[i] - 32) : a[i]; return r; }
static void f_free(char *r) { free(r); }
static greshunkel_ctext *ctx(const char *who) { greshunkel_ctext *c = gshkl_init_context(); gshkl_add_string(c, "who", who); gshkl_add_int(c, "num", 7); greshunkel_var l = gshkl_add_array(c, "items"); gshkl_add_string_to_loop(&l, "one"); gshkl_add_int_to_loop(&l, 2); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "x", "y"); gshkl_add_sub_context(c, "sub", s); gshkl_add_filter(c, "up", f_up, f_free); gshkl_add_filter(c, "now", f_up, f_free); return c; }
static int h_raw(const m38_http_request *r, m38_http_response *s) { (void)r; m38_insert_custom_header(s, "X-A", 3, "b", 1); return m38_return_raw_buffer("static", 6, s); }
static int h_file(const m38_http_request *r, m38_http_response *s) { (void)r; return m38_mmap_file("/srv/file.css", s); }
static int h_page(const m38_http_request *r, m38_http_response *s) { (void)r; return m38_render_file(ctx("you"), "/srv/page.html", s); }
static int h_none(const m38_http_request *r, m38_http_response *s) { (void)r; return m38_mmap_file("/srv/none", s); }
static int h_ask(const m38_http_request *r, m38_http_response *s) { char *a = m38_get_header_value_request(r, "Cookie"); if (a) { char *v = m38_get_cookie_value(a, strlen(a), "sid"); free(v); } free(a); size_t z = 0; const void *q = r->form_elements ? sparse_dict_get(r->form_elements, "a", 1, &z) : 0; s->out = malloc(z + 2); s->out[0] = 'a'; s->out[1] = '='; if (q) memcpy(s->out + 2, q, z); s->outsize = z + 2; return 200; }
static const char *const RQ[] = {"GET /raw HTTP/1.1\r\nRange: bytes=1-3\r\n\r\n", "GET /file HTTP/1.1\r\n\r\n", "GET /page HTTP/1.1\r\nUser-Agent: me\r\n\r\n", "GET /none HTTP/1.1\r\n\r\n", "POST /ask HTTP/1.1\r\nCookie: sid=1; t=2\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n\r\na=%41&b=2", "GET /nowhere HTTP/1.1\r\n\r\n", "refused", "GET /file HTTP/1.1\r\nRange: bytes=2-\r\nX-Real-IP: 1.2.3.4\r\n\r\n", ""};
#define NRQ 8
static m38_route rts[6]; static int rude;
static long slow(struct conn *c, size_t n) { (void)c; return (long)(n > 100 ? 100 : n); }
static void cleanup404(const int c, m38_http_response *s) { (void)c; (void)s; }
static m38_app *setup(int workers) { env_nvfs = 0; env_add_file("/srv/file.css", "body { color: red }\n", 20); env_add_file("/srv/page.html", PAGE, sizeof PAGE - 1); env_add_file("/srv/part", PART, sizeof PART - 1);
  mkroute(&rts[0], "GET", "^/raw", 0, h_raw, 0); mkroute(&rts[1], "GET", "^/file", 0, h_file, m38_mmap_cleanup); mkroute(&rts[2], "GET", "^/(page)", 1, h_page, m38_heap_cleanup); mkroute(&rts[3], "GET", "^/none", 0, h_none, m38_mmap_cleanup); mkroute(&rts[4], "POST", "^/ask", 0, h_ask, m38_heap_cleanup);
  m38_app *a = mkapp(rts, 5, 0); a->num_threads = workers; if (sym_pick(0, 1, "custom")) { m38_set_404_handler(a, h_raw); m38_set_404_cleanup(a, cleanup404); } return a; }
static m38_app *go(int workers) { script_conns = nconns; send_rc = sym_pick(0, 1, "slow") ? slow : 0; m38_app *a = setup(workers); fair = 1; sym_races(); CHECK(e2e(a) == 0, "the server ran"); int used = 0; for (int i = 0; i < nthr; i++) if (!thr[i].accepts && thr[i].got[0]) used++; if (used >= 2) sym_reach("two workers"); if (used >= 3) sym_reach("three workers"); for (int i = 0; i < nconns; i++) CHECK(conns[i].closed == 1, "every connection is closed once"); return a; }
// ---------------------------------------------------------------- renderings and containers
static int what[3];
static void *work(void *arg) { int k = what[(size_t)arg]; char who[3] = "me";
  static const char *const TP[] = {"xXx @who xXx and xXx @num xXx\n", "xXx LOOP i items xXx\n- xXx @i xXx\nxXx BBL xXx\n", "xXx UNLESS NOT who xXx\nis xXx @who xXx\nxXx ENDLESS xXx\nxXx UNLESS who xXx\nnot\nxXx ENDLESS xXx\n", "XxX up xXx @who xXx XxX text XxX now XxX\n", "xXx SCREAM /srv/part xXx\n", "xXx @sub.x xXx\nplain", PAGE};
  if (k < 7) { greshunkel_ctext *c = ctx(who); size_t n = 0; char *r = gshkl_render(c, TP[k], strlen(TP[k]), &n); CHECK(r != 0, "rendering succeeds"); free(r); gshkl_free_context(c); }
  else if (k == 7) { vector *v = vector_new(8, 1); for (size_t i = 0; i < 5; i++) vector_append(v, &i, 8); vector_reverse(v); (void)vector_get(v, 2); vector_free(v); }
  else if (k == 8) { struct sparse_dict *d = sparse_dict_init(); for (int i = 0; i < 40; i++) { char b[4] = {'k', (char)('0' + i / 10), (char)('0' + i % 10), who[0]}; sparse_dict_set(d, b, 4, who, 2); } size_t z; (void)sparse_dict_get(d, "k07", 3, &z); sparse_dict_free(d); }
  else { char *p = m38_get_cookie_value("a=b; c=d", 8, "c"); free(p); m38_range_header x = m38_parse_range_header("bytes=1-2"); (void)x; char u[8]; (void)m38_url_decode(who, u); CHECK(get_file_size("/srv/part") == sizeof PART - 1, "the size of the file"); (void)get_file_creation_date("/srv/part"); m38_log_msg(LOG_WARN, "value %s", who); m38_log_msg(LOG_ERR, "value %s", who); }
  return 0; }
static int mid; static char *f_mid(const char *a) { if (mid >= 0 && mid-- == 0) sym_run(work, (void *)0, 2); return f_up(a); }
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { // two workers, a connection each, every pair of requests
    for (int i = 0; i < 2; i++) { int q = (int)sym_pick(0, NRQ - 1, "request"); conn_add(); conn_seg(i, RQ[q], strlen(RQ[q])); } m38_app *a = go(2); free(a); sym_reach("pairs"); break; }
  case 1: { // three workers, three or four connections
    static const int Q[][4] = {{2, 2, 2, 2}, {4, 4, 4, 4}, {1, 7, 1, 3}, {0, 5, 6, 2}, {6, 6, 5, 5}, {4, 2, 0, 1}}; int s = (int)sym_pick(0, 5, "set"); int n = (int)sym_pick(3, 4, "n"); for (int i = 0; i < n; i++) { int q = Q[s][i]; conn_add(); conn_seg(i, RQ[q], strlen(RQ[q])); } m38_app *a = go(3); free(a); sym_reach("more workers"); break; }
  case 2: { // bytes that steer the request are arbitrary in both connections
    static char b[2][120]; for (int i = 0; i < 2; i++) { static const char *const PRE[] = {"GET /fi", "GET /page HTTP/1.1\r\nRange: byte", "POST /ask HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\na="}, *const POST[] = {" HTTP/1.1\r\n\r\n", "=1-2\r\n\r\n", ""}; int w = (int)sym_pick(0, 2, "where"); size_t k = put(b[i], PRE[w]); sym_bytes(b[i] + k, w == 0 ? 2 : 1, "bytes"); k += w == 0 ? 2 : 1; k += put(b[i] + k, POST[w]); conn_add(); conn_seg(i, b[i], k); } m38_app *a = go(2); free(a); sym_reach("arbitrary"); break; }
  case 3: { // the library used by two threads directly: renderings, containers, parsers, logging
    env_add_file("/srv/part", PART, sizeof PART - 1); what[0] = (int)sym_pick(0, 9, "first"); what[1] = (int)sym_pick(0, 9, "second"); sym_races(); sym_run(work, (void *)0, 1); sym_run(work, (void *)1, 2); sym_reach("direct"); break; }
  case 4: { // the same thing in both threads, several times
    env_add_file("/srv/part", PART, sizeof PART - 1); int k = (int)sym_pick(0, 9, "what"); what[0] = what[1] = k; what[2] = (int)sym_pick(0, 9, "then"); sym_races(); sym_run(work, (void *)0, 1); sym_run(work, (void *)1, 2); sym_run(work, (void *)2, 1); sym_reach("again"); break; }
  case 5: { // a request's response is the one it gets when it is served alone, whatever the other worker does in between
    int p = (int)sym_pick(0, 1, "probe"), q[2]; for (int i = 0; i < 2; i++) q[i] = (int)sym_pick(0, NRQ - 1, "request"); m38_app *a = setup(2); static unsigned char want[700], got[700]; conn_add(); conn_seg(0, RQ[q[p]], strlen(RQ[q[p]])); conns[0].wire = want; conns[0].cap = sizeof want; m38_handled_request *h = m38_generate_response(CONN0, a); if (h) finish(h); size_t n = conns[0].nwire; nconns = 0;
    for (int i = 0; i < 2; i++) { conn_add(); conn_seg(i, RQ[q[i]], strlen(RQ[q[i]])); } conns[p].wire = got; conns[p].cap = sizeof got; script_conns = 2; send_rc = sym_pick(0, 1, "slow") ? slow : 0; switch_at[0] = (int)sym_pick(0, 24, "switch"); CHECK(e2e(a) == 0, "the server ran"); CHECK(conns[p].closed == 1, "the connection is closed once"); CHECK(conns[p].nwire == n && n <= sizeof want && sym_eq(got, want, n), "the response is the one the request gets alone"); free(a); sym_reach("alone"); if (n) sym_reach("answered alone"); break; }
  case 6: { // a rendering is the one it would be alone: the other thread's renderings take place before, between and during it
    env_add_file("/srv/part", PART, sizeof PART - 1); static const char T[] = "xXx LOOP i items xXx\n<xXx @i xXx xXx @who xXx XxX mid xXx @i xXx XxX>\nxXx BBL xXx\nxXx UNLESS NOT who xXx\nXxX mid xXx @who xXx XxX\nxXx ENDLESS xXx\nxXx SCREAM /srv/part xXx\nxXx @sub.x xXx\n"; greshunkel_ctext *c = ctx("me"); gshkl_add_filter(c, "mid", f_mid, f_free); size_t n = 0, m = 0; mid = -1; char *x = gshkl_render(c, T, sizeof T - 1, &n); CHECK(x != 0, "rendering succeeds"); what[0] = (int)sym_pick(0, 9, "other"); mid = (int)sym_pick(0, 3, "when"); char *y = gshkl_render(c, T, sizeof T - 1, &m); CHECK(y && m == n && strlen(y) == strlen(x) && memcmp(x, y, strlen(x)) == 0, "the rendering is the one it would be alone"); free(x); free(y); gshkl_free_context(c); sym_reach(mid < 0 ? "during" : "after"); break; }
  }
  (void)rude; (void)main_fd;
}
