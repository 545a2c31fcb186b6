// Long histories of the server (S01, S05: hundreds of connections, failing accepts, interrupted waits, descriptors of any size) and many workers (S02).
#define NTHR 310
#define NCONN 330
#define QCAP 330
#define NMSG 2000
#define NQD 700
#define main_sym s01_main
#include "s01.c"
#undef main_sym
static const int LONG[] = {100, 129, 257, 300};
static void addn(int q) { int i = conn_add(); kind[i] = q; if (RQ[q][0]) conn_seg(i, RQ[q], strlen(RQ[q])); size_t cap = q == 1 ? 9200 : 400; W[i] = malloc(cap); conns[i].wire = (unsigned char *)W[i]; conns[i].cap = cap; }
static void mixed(int n, int k) { for (int i = 0; i < n; i++) addn(k ? k - 1 : i % 32 == 5 ? 1 : i % 7 == 3 ? 2 : i % 11 == 4 ? 3 : i % 13 == 6 ? 4 : 0); }
static long some_die(struct conn *c, size_t n) { int i = (int)(c - conns); if (i % 7 == 5) return -1; if (i % 9 == 2) return 0; return (long)(n > 3000 ? 3000 : n); }
static int acc_every, acc_run; static int acc_many(void) { if (accs++ % (acc_run + 1) == acc_run) return 0; return acc_errno; }
static int intr_n; static int intr_many(int q) { (void)q; return intr_n++ % 2 == 0; }
/* the index of every worker, whatever their number */
static void indices_many(int workers) { static char seen[NTHR]; int w = 0; for (int i = 0; i < nthr; i++) { if (!nidx[i]) continue; w++; for (int k = 1; k < nidx[i]; k++) CHECK(idx_seen[i][k] == idx_seen[i][0], "a worker keeps its index"); int v = idx_seen[i][0]; CHECK(v >= 0 && v < workers, "a worker's index is one of 0..n-1"); CHECK(!seen[v], "every worker has an index of its own"); seen[v] = 1; } if (w == workers) sym_reach("all indices"); }
void main_sym(void) { roomy = 1;
  switch (sym_arg()) {
  case 0: { // S01: hundreds of connections: mixed, or all of one kind
    int k = (int)sym_pick(0, 5, "kind"); int n = LONG[sym_pick(0, 3, "n")]; if (k == 2) sym_stop(); mixed(n, k); script_conns = nconns; send_rc = slow; m38_app *a = setup((int)sym_pick(1, 2, "workers")); if (sym_pick(0, 1, "fair")) fair = 1; uint64_t b = sym_live() - 1 - (uint64_t)nconns; CHECK(e2e(a) == 0, "the server ran"); CHECK(accepted == nconns, "every connection is accepted"); verdict(); free(a); CHECK(sym_live() == b, "nothing leaks"); sym_reach("hundreds"); break; }
  case 1: { // S01, S05: many of the clients go away while they are answered
    mixed(300, 0); script_conns = nconns; send_rc = some_die; m38_app *a = setup((int)sym_pick(1, 2, "workers")); uint64_t b = sym_live() - 1 - (uint64_t)nconns; CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); CHECK(sym_live() == b, "nothing leaks"); sym_reach("many gone"); break; }
  case 2: { // S05: accept fails for a passing reason before every connection, up to 70 times in a row
    static const int N[] = {300, 100, 10}, K[] = {1, 3, 70}; int w = (int)sym_pick(0, 2, "which"); mixed(N[w], 0); script_conns = nconns; acc_run = K[w]; acc_errno = PASSING[sym_pick(0, 6, "errno")]; accept_fault = acc_many; m38_app *a = setup(1); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("hundreds of failing accepts"); break; }
  case 3: { // S05: every other wait is interrupted
    mixed(LONG[sym_pick(0, 3, "n")], 0); script_conns = nconns; send_rc = slow; recv_fault = intr_many; m38_app *a = setup((int)sym_pick(1, 2, "workers")); CHECK(e2e(a) == 0, "the server ran"); all_served(); verdict(); free(a); sym_reach("hundreds of interruptions"); break; }
  case 4: { // S01, S05: whatever descriptors the connections get
    static const int BASE[] = {0, 250, 1017, 4090, 32760, 65530, 999990}; conn0 = BASE[sym_pick(0, 6, "first_descriptor")]; mixed(conn0 ? 14 : 1, (int)sym_pick(0, 2, "kind")); script_conns = nconns; send_rc = slow; if (sym_pick(0, 1, "interrupted")) { acc_at = (int)sym_pick(0, 1, "acc"); acc_times = 1; acc_errno = EINTR; accept_fault = acc_fault; recv_fault = intr_many; } m38_app *a = setup((int)sym_pick(1, 2, "workers")); uint64_t b = sym_live() - 1 - (uint64_t)nconns; CHECK(e2e(a) == 0, "the server ran"); CHECK(accepted == nconns, "every connection is accepted"); all_served(); verdict(); free(a); CHECK(sym_live() == b, "nothing leaks"); sym_reach("any descriptor"); break; }
  case 10: { // S02: many workers
    static const int WK[] = {6, 16, 31, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300}; int w = WK[sym_pick(0, 12, "workers")]; run_at = (int)sym_pick(1, 3, "when"); int n = (int)sym_pick(0, 1, "each") ? w : 1; for (int i = 0; i < n; i++) addn(0); script_conns = nconns; m38_app *a = setup(w); int rc = serve(a); CHECK(rc == 0, "a working start-up is reported"); CHECK(listen_closed == 1 && !listen_open, "the listening socket is closed before returning"); run_all(); roles(w); indices_many(w); for (int i = 0; i < n; i++) free(W[i]); free(a); sym_reach("many workers"); break; }
  case 11: { // S02: a thread that cannot be started, late
    static const int WK[] = {33, 70, 129, 300}; int w = WK[sym_pick(0, 3, "workers")]; int which = w + 1 - (int)sym_pick(0, 3, "last"); fail_thread = which; run_at = (int)sym_pick(1, 3, "when"); m38_app *a = setup(w); int rc = serve(a); CHECK(rc == -1, "a failing start-up step is reported"); CHECK(!listen_open && listen_closed == 1, "the listening socket is closed"); CHECK(nthr <= w + 2, "no thread after the failure"); if (run_at == RUN_LATER) run_all(); free(a); sym_reach("late failure"); break; }
  }
  (void)acc_every; (void)s01_main; (void)indices;
}
