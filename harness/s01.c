// S01: connections through the whole server. S02 (arg >= 10): start-up. S04 (arg >= 20): order and turns. S05 (arg >= 30): passing faults.
#include "http.h"
#include "logging.h"
#include "parse.h"
static unsigned char big[9000]; static int served[NCONN];
static int h_small(const m38_http_request *r, m38_http_response *s) { (void)r; return m38_return_raw_buffer("small", 5, s); }
static int h_big(const m38_http_request *r, m38_http_response *s) { (void)r; s->out = malloc(9000); memset(s->out, 'L', 9000); s->outsize = 9000; return 200; }
/* echoes what it was asked: the path, a header and the body, and yields in between */
static int h_echo(const m38_http_request *r, m38_http_response *s) { sched(); char *v = m38_get_header_value_request(r, "X-Tag"); sched(); size_t pl = strlen(r->resource), vl = v ? strlen(v) : 0; s->out = malloc(pl + vl + r->body_len + 1); memcpy(s->out, r->resource, pl); if (vl) memcpy(s->out + pl, v, vl); sched(); if (r->body_len) memcpy(s->out + pl + vl, r->full_body, r->body_len); s->outsize = pl + vl + r->body_len; free(v); m38_insert_custom_header(s, "X-Path", 6, r->resource, pl); sched(); return 200; }
static void cl_echo(const int c, m38_http_response *s) { sched(); m38_heap_cleanup(c, s); }
static m38_route rts[2]; static char *W[NCONN];
static m38_app *setup(int workers) { mkroute(&rts[0], "GET", "^/s", 0, h_small, 0); mkroute(&rts[1], "GET", "^/b", 0, h_big, m38_heap_cleanup); m38_app *a = mkapp(rts, 2, 0); a->num_threads = workers; return a; }
static const char *const RQ[] = {"GET /s HTTP/1.1\r\n\r\n", "GET /b HTTP/1.1\r\n\r\n", "bad", "GET /none HTTP/1.1\r\n\r\n", ""}; static int kind[NCONN];
static void add(int q) { int i = conn_add(); kind[i] = q; if (RQ[q][0]) conn_seg(i, RQ[q], strlen(RQ[q])); W[i] = malloc(10000); conns[i].wire = (unsigned char *)W[i]; conns[i].cap = 10000; }
static int complete(int i) { struct conn *c = &conns[i]; size_t n = c->nwire, hl, p = 0, cl = 0; const char *w = W[i]; if (n < 20 || memcmp(w, "HTTP/1.1 ", 9)) return 0; for (hl = 4; hl <= n; hl++) if (memcmp(w + hl - 4, "\r\n\r\n", 4) == 0) break; if (hl > n) return 0; while (p + 16 < hl && memcmp(w + p, "Content-Length: ", 16)) p++; if (p + 16 >= hl) return 0; for (p += 16; w[p] != '\r'; p++) cl = cl * 10 + (size_t)(w[p] - '0'); return cl == n - hl; }
static int faulty;      /* a queue operation failed */
static void verdict(void) { for (int i = 0; i < nconns; i++) { struct conn *c = &conns[i]; if (i >= accepted) { CHECK(!c->closed && !c->sends, "a connection nobody accepted"); continue; }
    CHECK(c->closed <= 1, "no connection is closed twice"); CHECK(c->closed == 1, "every connection is answered or closed, none is lost"); CHECK(c->recvs <= 3, "a connection is handed to one worker");
    int bad = kind[i] == 2 || kind[i] == 4; if (bad) CHECK(c->sends == 0, "a refused request gets no response"); else if (!faulty && !c->failed) CHECK(c->sends > 0, "every request is answered"); if (c->sends && !c->failed && !faulty) CHECK(complete(i), "through exactly one complete pass of sending"); if (c->sends && !complete(i)) CHECK(c->nwire < 9000 + 120, "and never more than once"); sym_reach(c->sends ? "answered" : "closed"); } for (int i = 0; i < nconns; i++) free(W[i]); }
static int fault_q, fault_n; static int fault_one(int q) { if (q == fault_q && fault_n-- == 0) { faulty = 1; return 1; } return 0; }
static int full_left; static int full_pick(int q) { (void)q; if (full_left <= 0) return 0; full_left--; return (int)sym_pick(0, 1, "full"); }
static long slow(struct conn *c, size_t n) { (void)c; return (long)(n > 3000 ? 3000 : n); }
static long dies(struct conn *c, size_t n) { if (c == &conns[0] && c->sends > 1) return -1; return (long)(n > 3000 ? 3000 : n); }
static long tiny(struct conn *c, size_t n) { (void)c; return (long)(n > 60 ? 60 : n); }
#ifdef THOROUGH
#define SW 90
#else
#define SW 60
#endif
// ---- S04
static int qat[NCONN], eat[NCONN];
static void turns(void) { for (int c = 0; c < nconns; c++) { qat[c] = eat[c] = nevs; for (int i = nevs - 1; i >= 0; i--) if (evs[i].conn == c) { if (evs[i].what == EV_QUEUE) qat[c] = i; if (evs[i].what == EV_END) eat[c] = i; } }
  for (int j = 0; j < nevs; j++) { if (evs[j].what != EV_SEND) continue; CHECK(evs[j].n <= 4096, "a piece has at most 4096 bytes"); int c = evs[j].conn, i = j - 1, full = 0; for (; i >= 0 && !(evs[i].what == EV_SEND && evs[i].conn == c); i--) full |= evs[i].what == EV_FULL; if (i < 0 || full) continue; sym_reach("more than one piece");
    for (int d = 0; d < nconns; d++) { if (d == c || qat[d] > i || eat[d] < j) continue; int had = 0; for (int k = i + 1; k < j; k++) had |= evs[k].what == EV_SEND && evs[k].conn == d; CHECK(had, "between two pieces of one response every other waiting response gets one"); sym_reach("turn"); } } }
static void order(void) { int last = -1, n = 0; for (int i = 0; i < nevs; i++) if (evs[i].what == EV_TAKE) { CHECK(evs[i].conn > last, "connections are taken up in the order they were accepted"); last = evs[i].conn; n++; } if (n > 1) sym_reach("order"); }
static void peers(void) { for (int i = 0; i < nconns; i++) sym_bytes(conns[i].addr, 4, "addr"); }
// ---- S05
static int acc_at, acc_times, acc_errno, accs; static int acc_fault(void) { int k = accs++; return k >= acc_at && k < acc_at + acc_times ? acc_errno : 0; }
static int acc_at2 = -1; static int acc_any(void) { int k = accs++; return k == acc_at ? acc_errno : k == acc_at2 ? EINTR : 0; }
static int intr_left, intr_skip; static int intr(int q) { (void)q; if (intr_skip-- > 0) return 0; if (intr_left <= 0) return 0; intr_left--; return 1; }
static int intr_pick(int q) { (void)q; if (intr_left <= 0) return 0; intr_left--; return (int)sym_pick(0, 1, "interrupted"); }
static const int PASSING[] = {EINTR, ECONNABORTED, EPROTO, EMFILE, ENFILE, ENOBUFS, ENOMEM};
static void all_served(void) { CHECK(accepted == nconns, "every connection that arrives is accepted"); for (int i = 0; i < nconns; i++) { CHECK(conns[i].closed == 1, "every connection is closed once"); int bad = kind[i] == 2 || kind[i] == 4; if (!bad && !conns[i].failed) CHECK(complete(i), "every connection that arrives later is answered"); } }
// ---- S02
static int idx_seen[NTHR][4], nidx[NTHR];
void m38_log_msg(log_level l, const char *f, ...) { (void)l; static const char w[] = "Worker %i"; sched(); if (cur_thread >= 0 && memcmp(f, w, sizeof w - 1) == 0) { va_list ap; va_start(ap, f); int v = va_arg(ap, int); va_end(ap); if (nidx[cur_thread] < 4) idx_seen[cur_thread][nidx[cur_thread]++] = v; } }
static void roles(int workers) { int acc = 0, work = 0, resp = 0; int qa = -1, qb[NQ] = {0}; for (int i = 0; i < nthr; i++) if (thr[i].accepts) { acc++; for (int q = 0; q < NQ; q++) if (thr[i].put[q]) qa = q; } for (int i = 0; i < nthr; i++) { if (thr[i].accepts) continue; int g = -1; for (int q = 0; q < NQ; q++) if (thr[i].got[q]) g = q; CHECK(g >= 0, "every thread does its part"); if (qa < 0) qb[g]++; if (g == qa) work++; else resp++; }
  if (qa < 0) { resp = work = 0; for (int q = 0; q < NQ; q++) { if (qb[q] == 1 && !resp) resp = 1; else work += qb[q]; } if (workers == 0) work = 0; }
  CHECK(acc == 1, "one acceptor"); CHECK(resp == 1, "one responder"); CHECK(work == workers, "exactly the configured number of workers"); CHECK(nthr == workers + 2, "and no other thread"); }
static void indices(int workers) { unsigned mask = 0; for (int i = 0; i < nthr; i++) { if (!nidx[i]) continue; for (int k = 1; k < nidx[i]; k++) CHECK(idx_seen[i][k] == idx_seen[i][0], "a worker keeps its index"); int v = idx_seen[i][0]; CHECK(v >= 0 && v < workers, "a worker's index is one of 0..n-1"); CHECK(!(mask & (1u << v)), "every worker has an index of its own"); mask |= 1u << v; sym_reach("index"); } }
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { // all kinds of connections, one to three workers, no faults
    int n = (int)sym_pick(0, 4, "n"); int w = (int)sym_pick(1, 3, "workers"); for (int i = 0; i < n; i++) add((int)sym_pick(0, 4, "kind")); script_conns = nconns; send_rc = sym_pick(0, 1, "slow") ? slow : 0; m38_app *a = setup(w); uint64_t b = sym_live() - 1 - (uint64_t)nconns; CHECK(e2e(a) == 0, "the server ran"); verdict(); free(a); CHECK(sym_live() == b, "nothing leaks"); sym_reach("no faults"); break; }
  case 1: { // one failing queue operation anywhere
    int n = (int)sym_pick(1, 4, "n"); int w = (int)sym_pick(1, 2, "workers"); int big1 = (int)sym_pick(0, 1, "big"); for (int i = 0; i < n; i++) add(i == 0 && big1 ? 1 : i == 2 ? 2 : 0); script_conns = nconns; send_rc = sym_pick(0, 1, "slow") ? slow : 0; fault_q = (int)sym_pick(0, 1, "queue"); fault_n = (int)sym_pick(0, 6, "which"); send_fault = fault_one; m38_app *a = setup(w); uint64_t b = sym_live() - 1 - (uint64_t)nconns; CHECK(e2e(a) == 0, "the server ran"); verdict(); free(a); CHECK(sym_live() == b, "nothing leaks"); if (faulty) sym_reach("queue fault"); break; }
  case 2: { // queues that are full at any moment
    int n = (int)sym_pick(1, 3, "n"); for (int i = 0; i < n; i++) add(i == 1 ? 0 : 1); script_conns = nconns; send_rc = slow; full_left = 6; full_now = full_pick; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); verdict(); free(a); sym_reach("full queues"); break; }
  case 3: { // more connections than the queues hold at once
    int n = (int)sym_pick(8, 10, "n"); for (int i = 0; i < n; i++) add(i % 3 == 2 ? 2 : i % 2); script_conns = nconns; send_rc = slow; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); verdict(); free(a); sym_reach("many"); break; }
  case 4: { // a send that fails
    int n = (int)sym_pick(1, 3, "n"); for (int i = 0; i < n; i++) add(i == 0 ? 1 : (int)sym_pick(0, 2, "kind")); script_conns = nconns; send_rc = dies; send_fault = fault_one; fault_q = (int)sym_pick(0, 1, "queue"); fault_n = (int)sym_pick(0, 4, "which"); m38_app *a = setup(1); CHECK(e2e(a) == 0, "the server ran"); verdict(); free(a); sym_reach("send fails"); break; }
  case 5: { // a worker that cannot open its queues takes no connection
    int n = (int)sym_pick(1, 3, "n"); for (int i = 0; i < n; i++) add((int)sym_pick(0, 2, "kind")); script_conns = nconns; fail_mq_open = 2 + (int)sym_pick(0, 5, "which"); int w = (int)sym_pick(1, 2, "workers"); m38_app *a = setup(w); CHECK(e2e(a) == 0, "the server ran"); for (int i = 0; i < nconns; i++) { struct conn *c = &conns[i]; CHECK(c->closed <= 1, "no connection is closed twice"); if (i < accepted && c->recvs && !c->closed) { int waits = 0; for (int q = 0; q < NQ; q++) waits += qs[q].n; CHECK(waits > 0, "a connection a worker took is answered, closed or still queued for sending"); } free(W[i]); } sym_reach("queue not opened"); break; }
  case 6: { // up to two switches between threads at any scheduling point; every client gets the answer to its own request
    int n = 3; static char q[3][160]; size_t ql[3]; char t[3]; sym_bytes(t, 3, "tags"); for (int i = 0; i < 3; i++) sym_assume((t[i] >= 'a') & (t[i] <= 'z')); static const char *const PATH[] = {"/e", "/elonger", "/e/x"};
    for (int i = 0; i < n; i++) { size_t k = put(q[i], i == 1 ? "POST " : "GET "); k += put(q[i] + k, PATH[i]); q[i][k++] = t[i]; k += put(q[i] + k, " HTTP/1.1\r\nX-Tag: tag"); q[i][k++] = t[i]; if (i == 2) k += put(q[i] + k, "andmore"); if (i == 1) { k += put(q[i] + k, "\r\nContent-Length: 5"); } k += put(q[i] + k, "\r\n\r\n"); size_t h = k; if (i == 1) { k += put(q[i] + k, "body"); q[i][k++] = t[i]; } ql[i] = k; add(0); conns[i].nseg = 0; conn_seg(i, q[i], i == 1 ? h : k); if (i == 1) conn_seg(i, q[i] + h, k - h); }
    mkroute(&rts[0], "GET", "^/e(.*)$", 1, h_echo, cl_echo); mkroute(&rts[1], "POST", "^/e", 0, h_echo, cl_echo); m38_app *a = mkapp(rts, 2, 0); int w = (int)sym_pick(2, 3, "workers"); a->num_threads = w; script_conns = n; if (sym_pick(0, 1, "slow")) send_rc = tiny; switch_at[0] = (int)sym_pick(0, SW, "first"); if (sym_pick(0, 1, "two")) switch_at[1] = switch_at[0] + (int)sym_pick(1, 12, "second"); uint64_t b = sym_live() - 1 - (uint64_t)n; CHECK(e2e(a) == 0, "the server ran");
    for (int i = 0; i < n; i++) { char e[64]; size_t k = put(e, PATH[i]); e[k++] = t[i]; k += put(e + k, "tag"); e[k++] = t[i]; if (i == 2) k += put(e + k, "andmore"); if (i == 1) { k += put(e + k, "body"); e[k++] = t[i]; } CHECK(conns[i].closed == 1, "every connection is closed once"); CHECK(conns[i].nwire > k + 4 && complete(i), "and answered once, completely"); CHECK(sym_eq(W[i] + conns[i].nwire - k, e, k) && memcmp(W[i] + conns[i].nwire - k - 4, "\r\n\r\n", 4) == 0, "with the answer to its own request"); free(W[i]); } free(a); CHECK(sym_live() == b, "nothing leaks"); sym_reach("switches"); break; }
  // ---- S04
  case 20: { // several responses of every kind, whole and short sends, one or two workers
    int n = (int)sym_pick(2, 4, "n"); int w = (int)sym_pick(1, 2, "workers"); static const int K[] = {0, 1, 3}; for (int i = 0; i < n; i++) add(K[sym_pick(0, 2, "kind")]); peers(); script_conns = nconns; int s = (int)sym_pick(0, 2, "slow"); send_rc = s == 1 ? slow : s == 2 ? tiny : 0; if (s == 2) for (int i = 0; i < n; i++) if (kind[i] == 1) sym_stop(); m38_app *a = setup(w); if (sym_pick(0, 1, "fair")) fair = 1; CHECK(e2e(a) == 0, "the server ran"); verdict(); turns(); order(); free(a); sym_reach("turns"); break; }
  case 21: { // a switch between the threads at any point
    int n = 3; for (int i = 0; i < n; i++) add(i == 1 ? 1 : (int)sym_pick(0, 1, "kind")); peers(); script_conns = n; send_rc = slow; m38_app *a = setup((int)sym_pick(1, 2, "workers")); switch_at[0] = (int)sym_pick(0, 50, "switch"); CHECK(e2e(a) == 0, "the server ran"); verdict(); turns(); free(a); sym_reach("switched"); break; }
  case 22: { // the queue is full at any of six moments
    int n = (int)sym_pick(2, 3, "n"); for (int i = 0; i < n; i++) add(1); script_conns = n; send_rc = slow; full_left = 6; full_now = full_pick; m38_app *a = setup(1); CHECK(e2e(a) == 0, "the server ran"); verdict(); turns(); order(); free(a); sym_reach("full now and then"); break; }
  case 23: { // many connections
    int n = (int)sym_pick(5, 9, "n"); for (int i = 0; i < n; i++) add(i % 3 == 1); peers(); script_conns = n; send_rc = slow; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); verdict(); turns(); order(); free(a); sym_reach("many in order"); break; }
  // ---- S05
  case 30: { // accept fails for a passing reason, once or several times, before any of the connections
    int n = (int)sym_pick(1, 3, "n"); for (int i = 0; i < n; i++) add((int)sym_pick(0, 2, "kind")); script_conns = n; acc_errno = PASSING[sym_pick(0, 6, "errno")]; acc_at = (int)sym_pick(0, (uint64_t)n - 1, "at"); acc_times = (int)sym_pick(1, 3, "times"); accept_fault = acc_fault; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("accept fails"); break; }
  case 31: { // two different reasons
    int n = 3; for (int i = 0; i < n; i++) add(i == 1); script_conns = n; acc_errno = PASSING[sym_pick(0, 6, "errno")]; acc_at = (int)sym_pick(0, 3, "at"); acc_at2 = (int)sym_pick(0, 4, "then"); accept_fault = acc_any; if (acc_at > n - 1 + (acc_at2 < acc_at) || acc_at2 == acc_at) sym_stop(); m38_app *a = setup(1); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("two reasons"); break; }
  case 32: { // waiting for a queue is interrupted: any wait, once to three times
    int n = (int)sym_pick(1, 3, "n"); for (int i = 0; i < n; i++) add((int)sym_pick(0, 2, "kind")); script_conns = n; send_rc = slow; intr_skip = (int)sym_pick(0, 9, "at"); intr_left = (int)sym_pick(1, 3, "times"); recv_fault = intr; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("interrupted"); break; }
  case 33: { // any combination of the first eight waits
    int n = 2; add(1); add((int)sym_pick(0, 2, "kind")); script_conns = n; send_rc = slow; intr_left = 8; recv_fault = intr_pick; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("interrupted anywhere"); break; }
  case 34: { // whatever the first clients do (go away before, while or after asking, ask nonsense), the others are served
    int n = (int)sym_pick(1, 3, "rude"); for (int i = 0; i < n; i++) { int r = (int)sym_pick(0, 4, "how"); add(r == 0 ? 4 : r == 1 ? 2 : r == 2 ? 1 : 0); if (r == 3) { conns[i].end = -1; conns[i].nseg = 0; kind[i] = 4; } if (r == 4) { conns[i].end = -1; conns[i].nseg = 0; conn_seg(i, "GET /s HT", 9); kind[i] = 4; } } int g = nconns; add(0); add(1); add(3); script_conns = nconns; send_rc = sym_pick(0, 1, "dies") ? dies : slow; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); all_served(); for (int i = g; i < nconns; i++) CHECK(complete(i), "the others are served"); verdict(); free(a); sym_reach("rude clients"); break; }
  // ---- S02
  case 10: { // every failing step
    int step = (int)sym_pick(0, 5, "step"); int w = (int)sym_pick(1, 4, "workers"); m38_app *a = setup(w); uint64_t b = sym_live(); run_at = (int)sym_pick(1, 3, "when"); int which = 0; if (step == 0) fail_socket = 1; else if (step == 1) fail_bind = 1; else if (step == 2) fail_listen = 1; else if (step == 3 || step == 4) fail_mq_open = step - 3; else { which = (int)sym_pick(0, (uint64_t)w + 1, "thread"); fail_thread = which; }
    if (step == 3 || step == 4) run_at = RUN_LATER; int rc = serve(a); CHECK(rc == -1, "a failing start-up step is reported"); CHECK(!listen_open && (step == 0 || listen_closed == 1), "the listening socket is closed"); CHECK(nthr <= w + 2, "no thread after the failure"); if (run_at == RUN_LATER) run_all(); free(a); (void)b; sym_reach("fails"); if (step == 5) sym_reach("thread fails"); break; }
  case 11: { // threads first run at creation, each at its join, or all at the first join, the last one first
    int w = (int)sym_pick(0, 5, "workers"); run_at = (int)sym_pick(1, 3, "when"); int n = (int)sym_pick(1, 3, "conns"); for (int i = 0; i < n; i++) add(0); script_conns = nconns; m38_app *a = setup(w); uint64_t b = sym_live(); int rc = serve(a); CHECK(rc == 0, "a working start-up is reported"); CHECK(listen_closed == 1 && !listen_open, "the listening socket is closed before returning"); run_all(); roles(w); indices(w); (void)b; for (int i = 0; i < n; i++) free(W[i]); free(a); sym_reach("starts"); break; }
  case 12: { // stale queues of an earlier run
    for (int s = 0; s < 2; s++) {} int w = 1; m38_app *a = setup(w); int stale = (int)sym_pick(1, 3, "stale"); /* first start creates the queues, then stale messages stay in them */ run_at = RUN_LATER; CHECK(serve(a) == 0, "first run"); char nm[2][40]; int k = 0; for (int q = 0; q < NQ; q++) if (qs[q].name[0]) { memcpy(nm[k++], qs[q].name, 40); if (stale & (1 << q)) { qs[q].exists = 1; qs[q].n = 1; memset(qs[q].m[0].b, 0x55, 16); qs[q].m[0].len = (size_t)qs[q].msgsize; } else { qs[q].exists = 0; qs[q].n = 0; } if (k == 2) break; } CHECK(k == 2, "two queues"); run_at = 0; run_all(); nthr = 0; nqd = 0; listen_open = listen_closed = 0; int c0 = q_creates; add(0); script_conns = nconns; int rc = e2e(a); CHECK(rc == 0, "second run"); CHECK(q_creates == c0 + 2, "stale queues are discarded before new ones are created"); CHECK(conns[0].closed == 1 && complete(0), "and none of their messages is used"); free(W[0]); free(a); sym_reach("stale"); break; }
  case 13: { // the port is used, the application is the caller's, all workers see it
    int w = (int)sym_pick(1, 3, "workers"); m38_app *a = setup(w); add(0); add(3); add(1); script_conns = 3; coop = 1; join_hook = sym_pick(0, 1, "order") ? run_rev : run_all; int rc = serve(a); CHECK(rc == 0, "runs"); run_all(); for (int i = 0; i < 3; i++) { CHECK(conns[i].closed == 1 && complete(i), "every worker serves the application's routes"); free(W[i]); } free(a); sym_reach("late workers"); break; }
  case 14: { // whatever descriptors the listening socket and the queues get: 0 in a process that has closed its standard streams
    static const int FD[] = {0, 1, 3, 1023, 4096, 70000}; int w = (int)sym_pick(1, 2, "workers"), f = (int)sym_pick(0, 5, "fd"), which = (int)sym_pick(0, 1, "which"); if (which) { qd0 = FD[f]; listen_fd = FD[f] ? 200000 : 30; } else listen_fd = FD[f]; if (!FD[f]) sym_reach("descriptor 0"); int fails = (int)sym_pick(0, 3, "fails"); if (fails == 1) fail_bind = 1; if (fails == 2) fail_listen = 1; if (fails == 3) fail_thread = (int)sym_pick(0, 2, "thread"); if (fails) { run_at = RUN_LATER; m38_app *a = setup(w); CHECK(serve(a) == -1, "a failing start-up step is reported"); CHECK(!listen_open && listen_closed == 1, "the listening socket is closed"); free(a); sym_reach("numbers"); break; }
    add(0); add(1); script_conns = 2; m38_app *a = setup(w); CHECK(e2e(a) == 0, "a working start-up is reported"); CHECK(listen_closed == 1 && !listen_open, "the listening socket is closed before returning"); for (int i = 0; i < 2; i++) { CHECK(conns[i].closed == 1 && complete(i), "requests are answered"); free(W[i]); } free(a); sym_reach("numbers"); break; }
  case 15: { // started, ended and started again, each time working or failing at some step
    int n = (int)sym_pick(3, 5, "starts"), bad = (int)sym_pick(0, 2, "bad"); for (int s = 0; s < n; s++) { int w = 1 + s % 2; nthr = 0; nqd = 0; listen_open = listen_closed = 0; nconns = accepted = 0; m38_app *a = setup(w); fail_bind = fail_socket = 0; if ((bad == 1 && s == 0) || (bad == 2 && s % 2 == 0)) { if (bad == 1) fail_bind = 1; else fail_socket = 1; CHECK(serve(a) == -1, "a failing start-up step is reported"); free(a); continue; } add(0); script_conns = 1; CHECK(e2e(a) == 0, "a working start-up is reported"); CHECK(conns[0].closed == 1 && complete(0), "requests are answered"); free(W[0]); free(a); } sym_reach("again and again"); break; }
  }
  (void)big; (void)served;
}
