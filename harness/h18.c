// H18: how much is read and waited for. H19 (arg >= 10): the access log. H20 (arg >= 20): cleanup helpers.
#include "http.h"
#include "logging.h"
#include "parse.h"
static int called; static size_t got_len; static char got_path[32]; static unsigned char body_at[4]; static size_t at[4]; static int got_null;
static int handler(const m38_http_request *r, m38_http_response *s) { called++; got_len = r->body_len; got_null = r->full_body == 0; for (int i = 0; i < 4; i++) if (at[i] < got_len) body_at[i] = r->full_body[at[i]]; return m38_return_raw_buffer("ok", 2, s); }
#ifndef MIB
#define MIB 2097152u
#endif
static unsigned char big[3500000]; static m38_route rts[2];
static m38_app *app1(void) { mkroute(&rts[0], "GET", "^/", 0, handler, 0); mkroute(&rts[1], "POST", "^/", 0, handler, 0); return mkapp(rts, 2, 0); }
/* a request of exactly total bytes in b: method, padded header, Content-Length of cl body bytes (none if there is no body) */
static size_t make(unsigned char *b, size_t total, size_t cl) { char t[64]; size_t k = put(t, cl ? "POST /" : "GET /"); k += put(t + k, " HTTP/1.1\r\n"); if (cl) { k += put(t + k, "Content-Length: "); k += putn(t + k, cl); k += put(t + k, "\r\n"); } size_t pad = total - cl - k - 2; memcpy(b, t, k); if (pad) { if (pad < 5) return 0; memcpy(b + k, "A: ", 3); memset(b + k + 3, 'p', pad - 5); memcpy(b + k + pad - 2, "\r\n", 2); k += pad; } memcpy(b + k, "\r\n", 2); k += 2; for (size_t i = 0; i < cl; i++) b[k + i] = 'b'; return k; }
static const int OFS[] = {-2, -1, 0, 1, 2, 5};
static size_t used(struct conn *c) { size_t n = c->off; for (int i = 0; i < c->cur; i++) n += c->seg[i].n; return n; }
// ---- H19: what is logged, and how many of its lines carry exactly the message e
static char outb[40000]; static size_t nout; static const char TS[] = "Nov 14 22:13:20 "; static int status; static size_t osize;
void env_out(int fd, const char *s, size_t n) { (void)fd; CHECK(nout + n <= sizeof outb, "the log of a request is bounded"); memcpy(outb + nout, s, n); nout += n; }
static char prt(char c) { return (char)sym_ite(((unsigned char)c < 32) | (c == 127), '?', (unsigned char)c); }
static size_t entries; /* lines that look like an entry for a request */
static size_t lines(const char *e, size_t n) { size_t found = 0; entries = 0; for (size_t i = 0; i < nout;) { CHECK(nout - i > sizeof TS - 1 && memcmp(outb + i, TS, sizeof TS - 1) == 0, "every line of the log starts with its time stamp"); size_t j = i + sizeof TS - 1; while (j < nout && outb[j] != ']') { CHECK(outb[j] != '\n', "and the marker of its level"); j++; } j += 2; size_t k = j; while (k < nout && outb[k] != '\n') { CHECK(((unsigned char)outb[k] >= 32) & (outb[k] != 127), "nothing a client sends puts a control character into the log"); k++; } CHECK(k < nout, "every line ends"); for (size_t m = j; m + 7 < k; m++) if (memcmp(outb + m, "\"GET /", 6) == 0 || memcmp(outb + m, "\"POST /", 7) == 0) { entries++; break; } if (k - j == n && sym_eq(outb + j, e, n)) found++; i = k + 1; } return found; }
static int sized(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = big; s->outsize = osize; return status; }
// ---- H20: a body that belongs to the response when the answer is a success (always, with the unchecked helper)
static int kind20, fails20; static int owned(const m38_http_request *r, m38_http_response *s) { (void)r; if (kind20 == 2 && status < 400) { int c = m38_mmap_file("./f.txt", s); CHECK(c == 200, "mapped"); return status; } if (kind20 == 1 || status < 400) { s->out = malloc(5000); memset(s->out, 'o', 5000); s->outsize = 5000; return status; } m38_return_raw_buffer("constant", 8, s); return status; }
static long dead(struct conn *c, size_t n) { if (fails20 && c->sends > 1 - (status >= 400)) return -1; return (long)n; }
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { // whole requests of every size around the multiples of a read, the client waits for its answer with the connection open
    static const size_t M[] = {256, 512, 1024, 2048, 3072, 4096, 8192, 16384}; size_t total = M[sym_pick(0, 7, "size")] + (size_t)OFS[sym_pick(0, 5, "ofs")]; int bk = (int)sym_pick(0, 5, "body"); size_t cl = bk == 0 ? 0 : bk == 1 ? 1 : bk == 2 ? 100 : bk == 3 ? total - 120 : bk == 4 ? total / 2 : (total > 1200 ? total - 1024 : 77); size_t h = make(big, total, cl); if (!h) sym_stop(); if (cl) { at[0] = 0; at[1] = cl - 1; at[2] = cl / 2; at[3] = cl > 1024 ? 1023 : 0; for (int i = 0; i < 4; i++) { char nm[3] = {'b', (char)('0' + i), 0}; sym_bytes(big + h + at[i], 1, nm); } }
    unsigned char w[4]; for (int i = 0; i < 4; i++) w[i] = cl ? big[h + at[i]] : 0; m38_app *a = app1(); int i = conn_add(); conn_seg(i, big, total); conns[i].block = 2; m38_handled_request *q = m38_generate_response(CONN0 + i, a); CHECK(q != 0 && called == 1, "a whole request is answered"); CHECK(got_len == cl, "with all its body"); for (int k = 0; k < 4 && cl; k++) CHECK(body_at[k] == w[k], "byte for byte"); CHECK(used(&conns[i]) == total, "and was taken in whole"); finish(q); free(a); sym_reach("whole"); break; }
  case 1: { // the body comes by itself, after the header block
    static const size_t M[] = {1, 100, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10240}; size_t cl = M[sym_pick(0, 9, "cl")]; size_t extra = sym_pick(0, 2, "extra"); size_t hn = make(big, 200 + cl, cl); m38_app *a = app1(); int i = conn_add(); at[0] = 0; at[1] = cl - 1; at[2] = cl / 2; at[3] = cl > 1024 ? 1024 : 0; for (int k = 0; k < 4; k++) { char nm[3] = {'b', (char)('0' + k), 0}; sym_bytes(big + hn + at[k], 1, nm); } conn_seg(i, big, hn); conn_seg(i, big + hn, cl + (extra == 1 ? 3 : extra == 2 ? 2000 : 0)); conns[i].block = 2; m38_handled_request *q = m38_generate_response(CONN0 + i, a); CHECK(q != 0 && called == 1 && got_len == cl, "a whole request is answered"); for (int k = 0; k < 4; k++) CHECK(body_at[k] == big[hn + at[k]], "with its body"); finish(q); free(a); sym_reach("body later"); break; }
  case 2: { // requests cut short, and requests with more behind them: refused or answered, but never waited for beyond a full read
    static const size_t M[] = {1, 100, 1023, 1025, 2047, 2049, 3000}; size_t total = M[sym_pick(0, 6, "got")]; size_t hn = make(big, 4200, 4000); (void)hn; if (sym_pick(0, 1, "head")) hn = make(big, 4200, 0); char nm[4]; sym_bytes(nm, 4, "any"); big[0] = (unsigned char)nm[0]; big[7] = (unsigned char)nm[1]; big[total - 1] = (unsigned char)nm[2]; big[total / 2] = (unsigned char)nm[3]; m38_app *a = app1(); int i = conn_add(); conn_seg(i, big, total); conns[i].end = 0; m38_handled_request *q = m38_generate_response(CONN0 + i, a); CHECK(conns[i].recvs <= (int)(total / 64 + 4), "reading ends"); finish(q); free(a); sym_reach(q ? "cut, answered" : "cut, refused"); break; }
  case 3: { // a client that never stops
    int how = (int)sym_pick(0, 4, "how"); static char hd[200]; size_t k; unsigned char any[3]; sym_bytes(any, 3, "any"); if (how == 0) k = put(hd, "GET / HTTP/1.1\r\nA: "); else if (how == 1) k = put(hd, "POST / HTTP/1.1\r\nContent-Length: 3000000\r\n\r\n"); else if (how == 2) k = put(hd, "POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\n"); else if (how == 3) k = 0; else k = put(hd, "POST / HTTP/1.1\r\nContent-Length: 2500000\r\n\r\n"); memset(big, 'x', sizeof big); memcpy(big, hd, k); big[k + 1] = any[0]; big[k + 2000] = any[1]; big[MIB - 1] = any[2]; if (how == 0 || how == 3) for (int i = 0; i < 3; i++) sym_assume((any[i] != '\r') & (any[i] != '\n') & (any[i] != ' '));
    m38_app *a = app1(); int i = conn_add(); if (how == 4) { conn_seg(i, big, k); conn_seg(i, big + k, sizeof big - k); } else conn_seg(i, big, sizeof big); m38_handled_request *q = m38_generate_response(CONN0 + i, a); size_t lim = MIB + 4096; CHECK(used(&conns[i]) <= lim + (how == 4 ? k : 0), "no more than 2 MiB and one read is taken in"); if (q) { CHECK(called == 1 && got_len <= lim, "nor handed on"); } else CHECK(called == 0, "refused"); finish(q); free(a); sym_reach("endless"); break; }
  case 4: { // large requests below the limit are taken in whole
    size_t total = sym_pick(0, 1, "size") ? 1100800 : MIB - 1; size_t cl = total - 300; memset(big, 'y', total); size_t h = make(big, total, cl); at[0] = 0; at[1] = cl - 1; at[2] = 1048576; at[3] = 1047 * 1024 - h; for (int i = 0; i < 4; i++) { char nm[3] = {'b', (char)('0' + i), 0}; sym_bytes(big + h + at[i], 1, nm); } m38_app *a = app1(); int i = conn_add(); conn_seg(i, big, total); conns[i].block = 2; m38_handled_request *q = m38_generate_response(CONN0 + i, a); CHECK(q != 0 && called == 1 && got_len == cl, "a large request is taken in whole"); for (int k = 0; k < 4; k++) CHECK(body_at[k] == big[h + at[k]], "byte for byte"); finish(q); free(a); sym_reach("large"); break; }
  case 5: { // the blank line stands across the end of a read, and the request ends with a later one
    size_t m = sym_pick(1, 3, "reads") * 1024, total = m + 1024 * sym_pick(1, 2, "more"), hn = m - 5 + sym_pick(0, 11, "end"), cl = total - hn; size_t h = make(big, total, cl); CHECK(h == hn, "built"); at[0] = 0; at[1] = cl - 1; at[2] = cl / 2; at[3] = 7; for (int i = 0; i < 4; i++) { char nm[3] = {'b', (char)('0' + i), 0}; sym_bytes(big + h + at[i], 1, nm); }
    m38_app *a = app1(); int i = conn_add(); conn_seg(i, big, total); conns[i].block = 2; m38_handled_request *q = m38_generate_response(CONN0 + i, a); CHECK(q != 0 && called == 1 && got_len == cl, "a whole request is answered"); for (int k = 0; k < 4; k++) CHECK(body_at[k] == big[h + at[k]], "byte for byte"); finish(q); free(a); sym_reach("across"); break; }
  case 6: { // what looks like a Content-Length but is none: in the body, in another header's name or value, in the path; the client waits for its answer
    static const char *const HD[] = {"GET /x HTTP/1.1\r\n", "GET /x HTTP/1.1\r\nX-Content-Length: 9999\r\n", "GET /x HTTP/1.1\r\nA: Content-Length: 9999\r\n", "GET /Content-Length:9999 HTTP/1.1\r\n", "GET /x HTTP/1.1\r\nContent-Length-2: 9999\r\n", "GET /x HTTP/1.1\r\nContent-Length: -9999\r\n", "GET /x HTTP/1.1\r\nContent-Length: many\r\n", "POST /x HTTP/1.1\r\nContent-Length: 100\r\nX-Content-Length: 9999\r\n", "POST /x HTTP/1.1\r\nContent-Length: 100\r\nContent-Length: 9999\r\n", "GET /x HTTP/1.1\r\n"}; int w = (int)sym_pick(0, 9, "what"), body = (int)sym_pick(0, 2, "body"); size_t total = 1024 * sym_pick(1, 3, "reads"), bl = w == 7 || w == 8 ? 100 : 0; if (body == 2) { if (bl || w == 9) sym_stop(); bl = 60; } if (body == 1) { if (!bl) sym_stop(); } if (w == 9) bl = 0;
    char any[2]; sym_bytes(any, 2, "any"); for (int i = 0; i < 2; i++) sym_assume((any[i] > ' ') & (any[i] < 127)); size_t k = put((char *)big, HD[w]); size_t pad = total - bl - k - 2; memcpy(big + k, "P: ", 3); memset(big + k + 3, 'p', pad - 5); big[k + 3] = (unsigned char)any[0]; memcpy(big + k + pad - 2, "\r\n\r\n", 4); k += pad + 2; size_t h = k; memset(big + k, 'b', bl); if (bl && body) { put((char *)big + k + 2, "\r\nContent-Length: 9999\r\n\r\n"); big[k + bl - 1] = (unsigned char)any[1]; } k += bl; CHECK(k == total, "built");
    m38_app *a = app1(); int i = conn_add(); conn_seg(i, big, total); conns[i].block = 2; m38_handled_request *q = m38_generate_response(CONN0 + i, a); if (bl && bl != 100) CHECK(q == 0 && called == 0, "a body nobody announced is refused"); else { CHECK(q != 0 && called == 1 && got_len == bl, "a whole request is answered"); } CHECK(used(&conns[i]) == total, "and was taken in whole"); (void)h; finish(q); free(a); sym_reach(q ? "lookalikes" : "lookalikes refused"); break; }
  // ---- H19
  case 10: { // every part of the line: present or not, arbitrary bytes in it
    char ip[3], ua[4], pa[3]; int hip = (int)sym_pick(0, 1, "ip"), hua = (int)sym_pick(0, 1, "agent"), how = (int)sym_pick(0, 4, "how"); sym_bytes(ip, 2, "ipb"); sym_bytes(ua, 3, "uab"); sym_bytes(pa, 2, "pab"); for (int i = 0; i < 2; i++) sym_assume((ip[i] != 0) & (ip[i] != '\r') & (pa[i] != 0) & (pa[i] != ' ') & (pa[i] != '\r')); for (int i = 0; i < 3; i++) sym_assume((ua[i] != 0) & (ua[i] != '\r'));
    for (int i = 0; i < 2; i++) sym_assume((ip[i] != ' ') & (ua[i] != ' ')); char rq[300]; size_t k = put(rq, how == 4 ? "POST /" : "GET /"); memcpy(rq + k, pa, 2); k += 2; k += put(rq + k, how == 3 ? "/none HTTP/1.1\r\n" : " HTTP/1.1\r\n"); if (hip) { k += put(rq + k, "X-Real-IP: 1"); memcpy(rq + k, ip, 2); k += 2; k += put(rq + k, "\r\n"); } if (hua) { k += put(rq + k, "User-Agent: m"); memcpy(rq + k, ua, 3); k += 3; k += put(rq + k, "z\r\n"); } if (how == 1) k += put(rq + k, "Range: bytes=1-3\r\n"); k += put(rq + k, "\r\n"); status = how == 2 ? 302 : 200; osize = 7;
    mkroute(&rts[0], "GET", "^/..$", 0, sized, 0); mkroute(&rts[1], "POST", "^/..$", 0, sized, 0); m38_app *a = mkapp(rts, how == 3 ? 0 : 2, 0); m38_handled_request *q = req1(a, rq, k); CHECK(q != 0, "answered");
    char e[300]; size_t n = 0; if (hip) { n += put(e, "1"); for (int i = 0; i < 2; i++) e[n++] = prt(ip[i]); } else n += put(e, "NOIP"); n += put(e + n, how == 4 ? " \"POST /" : " \"GET /"); for (int i = 0; i < 2; i++) e[n++] = prt(pa[i]); if (how == 3) n += put(e + n, "/none"); n += put(e + n, "\" "); n += putn(e + n, how == 1 ? 206 : how == 2 ? 302 : how == 3 ? 404 : 200); e[n++] = ' '; n += putn(e + n, how == 3 ? strlen("<h1>\"Welcome to Die|</h1>") : 7); n += put(e + n, " \""); if (hua) { e[n++] = 'm'; for (int i = 0; i < 3; i++) e[n++] = prt(ua[i]); e[n++] = 'z'; } else n += put(e + n, "NOUSERAGENT"); n += put(e + n, "\"");
    finish(q); CHECK(lines(e, n) == 1, "one line with all its parts"); CHECK(entries == 1, "and no other line for the request"); free(a); sym_reach("parts"); break; }
  case 11: { // long values: the line is cut to 799 bytes; sizes
    static const size_t L[] = {0, 1, 10, 500, 700, 760, 770, 780, 790, 799, 800, 900, 950}; size_t ul = L[sym_pick(0, 12, "agent")], il = L[sym_pick(0, 3, "ip")]; static const size_t Z[] = {0, 1, 9, 10, 4096, 100000}; osize = Z[sym_pick(0, 5, "size")]; status = 200; static char rq[2000], e[2000]; size_t k = put(rq, "GET / HTTP/1.1\r\nUser-Agent: "); if (ul + il > 950) sym_stop(); memset(rq + k, 'u', ul); char b[2]; sym_bytes(b, 2, "b"); for (int i = 0; i < 2; i++) sym_assume((b[i] != 0) & (b[i] != '\r') & (b[i] != ' ') & (b[i] != '\t')); if (ul) { rq[k] = b[0]; rq[k + ul - 1] = b[1]; } k += ul; k += put(rq + k, "\r\nX-Real-IP: "); memset(rq + k, 'i', il); k += il; k += put(rq + k, "\r\n\r\n"); mkroute(&rts[0], "GET", "^/$", 0, sized, 0); m38_app *a = mkapp(rts, 1, 0); m38_handled_request *q = req1(a, rq, k); CHECK(q != 0, "answered");
    size_t n = il; memset(e, 'i', il); n += put(e + n, " \"GET /\" 200 "); n += putn(e + n, osize); n += put(e + n, " \""); memset(e + n, 'u', ul); if (ul) { e[n] = prt(b[0]); e[n + ul - 1] = prt(b[1]); } n += ul; e[n++] = '"'; finish(q); CHECK(lines(e, n > 799 ? 799 : n) == 1, "one line, cut to 799 bytes"); CHECK(entries == (il < 780), "and no other line for the request"); free(a); sym_reach("long lines"); break; }
  case 12: { // several requests, answered and refused
    int n = 3; size_t want[4] = {0}; status = 200; osize = 3; mkroute(&rts[0], "GET", "^/[0-9]$", 0, sized, 0); m38_app *a = mkapp(rts, 1, 0); static const char *const RQ[] = {"GET /0 HTTP/1.1\r\n\r\n", "GET /1 HTTP/1.1\r\n\r\nbody", "GET /2 HTTP/1.1\r\n", "nonsense\r\n\r\n", "GET /3 HTTP/1.1\r\nContent-Length: 2\r\n\r\nok"}; static const char *const E[] = {"NOIP \"GET /0\" 200 3 \"NOUSERAGENT\"", "NOIP \"GET /1\" 200 3 \"NOUSERAGENT\"", "NOIP \"GET /2\" 200 3 \"NOUSERAGENT\"", "NOIP \"GET /3\" 200 3 \"NOUSERAGENT\""}; for (int i = 0; i < n; i++) { int r = (int)sym_pick(0, 4, "request"); m38_handled_request *q = req1(a, RQ[r], strlen(RQ[r])); CHECK((q != 0) == (r == 0 || r == 4), "answered or refused"); if (r == 0) want[0]++; if (r == 4) want[3]++; finish(q); } for (int i = 0; i < 4; i++) CHECK(lines(E[i], strlen(E[i])) == want[i], "one line for every answered request, none for a refused one"); CHECK(entries == want[0] + want[3], "and no other line for a request"); free(a); sym_reach("several"); break; }
  case 13: { // whatever a client sends, wherever: every line of the log starts with a time stamp and holds no control characters
    static const char *const RQ[] = {"GET /?? HTTP/1.1\r\n\r\n", "??T / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nRange: bytes=??\r\n\r\n", "GET / HTTP/1.1\r\nRange: ??\r\n\r\n", "GET / HTTP/1.1\r\nRange: bytes=99999999999999999999??-\r\n\r\n", "GET / HTTP/1.1\r\nContent-Length: ??\r\n\r\n", "GET / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\na=??b", "GET / HTTP/1.1\r\n??: x\r\nCookie: a=??\r\n\r\n", "GET / HTTP/1.1\r\nUser-Agent:??x\r\n\r\n", "GET / HTTP/1.1\r\nX-Real-IP: ??x\r\n\r\n", "??", "GET / HTTP/1.1??\r\n", "GET / HTTP/1.1\r\nContent-Type: ??x\r\n\r\n", "GET / HTTP/1.1\r\nHost: h??\r\nAccept: ??\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\na??bc", "POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=??\r\nContent-Length: 4\r\n\r\n??cd", "GET /none HTTP/1.1\r\nReferer: ??\r\nTransfer-Encoding: ??\r\n\r\n"}; int r = (int)sym_pick(0, 16, "place"); char rq[200]; size_t k = put(rq, RQ[r]); char b[4]; sym_bytes(b, 4, "b"); if (r == 2) for (int i = 0; i < 2; i++) if ((b[i] >= '0') & (b[i] <= '9')) b[i] = (char)sym_conc((unsigned char)b[i]); int j = 0; for (size_t i = 0; i < k; i++) if (rq[i] == '?') rq[i] = b[j++]; status = 200; osize = 5; mkroute(&rts[0], "GET", "^/", 0, sized, 0); m38_app *a = mkapp(rts, 1, 0); m38_handled_request *q = req1(a, rq, k); finish(q); lines("", 0); free(a); sym_reach(q ? "anything, answered" : "anything, refused"); break; }
  // ---- H20
  case 20: { // the helpers by themselves, every status there is
    int st = (int)sym_num(0, 0xffffffffu, "status"); int who = (int)sym_pick(0, 2, "helper"); m38_http_response r; memset(&r, 0, sizeof r); sym_bytes(r.mimetype, 2, "type"); uint64_t b = sym_live(); int ok = (st >= 200) & (st < 400);
    if (who < 2) { r.out = malloc(16); r.outsize = 16; unsigned char *keep = r.out; if (who == 0) m38_heap_cleanup(st, &r); else m38_heap_cleanup_no_check(st, &r); if (who == 1 || ok) CHECK(sym_live() == b, "the body of a successful response is released"); else { CHECK(sym_live() == b + 1 && sym_valid(keep, 16), "the body of an unsuccessful response is left alone"); free(keep); } sym_reach("heap"); }
    else { static const unsigned char d[5000]; size_t n = sym_pick(0, 1, "large") ? 5000 : 7; env_add_file("./f.txt", d, n); CHECK(m38_mmap_file("./f.txt", &r) == 200 && env_open_maps == 1, "mapped"); uint64_t l = sym_live(); sym_bytes(r.mimetype, 2, "typeafter"); m38_mmap_cleanup(st, &r); if (ok) CHECK(sym_live() == b && env_open_maps == 0, "the mapping of a successful response is released"); else { CHECK(env_open_maps == 1 && sym_live() == l, "what an unsuccessful response holds is left alone"); CHECK(sym_valid(r.extra_data, 8), "what an unsuccessful response holds is left alone"); free(r.extra_data); } CHECK(env_bad_unmap == 0, "and nothing else is unmapped"); sym_reach("mapping"); }
    break; }
  case 21: { // as the cleanup of a route: constant bodies of unsuccessful answers, heap and file bodies of successful ones
    static const int C[] = {200, 206, 301, 302, 400, 403, 404, 500}; status = C[sym_pick(0, 7, "status")]; kind20 = (int)sym_pick(0, 2, "helper"); fails20 = (int)sym_pick(0, 1, "fails"); static const unsigned char d[5000]; env_add_file("./f.txt", d, 5000); mkroute(&rts[0], "GET", "^/", 0, owned, kind20 == 0 ? m38_heap_cleanup : kind20 == 1 ? m38_heap_cleanup_no_check : m38_mmap_cleanup); m38_app *a = mkapp(rts, 1, 0); uint64_t b = sym_live(); char rq[80]; size_t k = put(rq, "GET / HTTP/1.1\r\n"); int range = (int)sym_pick(0, 1, "range"); if (status == 206 && !range) sym_stop(); if (status == 206) status = 200; if (range) k += put(rq + k, "Range: bytes=0-1\r\n"); k += put(rq + k, "\r\n"); send_rc = dead; m38_handled_request *q = req1(a, rq, k); CHECK(q != 0, "answered"); finish(q); CHECK(sym_live() == b && env_open_maps == 0 && env_open_fds == 0 && env_bad_unmap == 0, "everything the response owns is released, once"); free(a); sym_reach("routes"); break; }
  }
}
