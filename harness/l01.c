// L01: log lines.
#include "sym.h"
#include "env.h"
#include "logging.h"
static char out[3][4000]; static size_t nout[3];
void env_out(int fd, const char *s, size_t n) { CHECK(fd == 1 || fd == 2, "standard output or standard error"); CHECK(sym_init(s, n), "uninitialised bytes are written"); CHECK(nout[fd] + n <= sizeof out[0], "the line is bounded"); memcpy(out[fd] + nout[fd], s, n); nout[fd] += n; }
static const log_level LV[] = {LOG_INFO, LOG_DEBUG, LOG_WARN, LOG_ERR, LOG_FUN, LOG_DB}; static const char MK[] = "-^!x~~"; static char mark[6][40]; static const char TS[] = "Nov 14 22:13:20 ";
/* one line with message m of n bytes (cut to 799) on the level's stream; returns where its marker is */
static void line(int l, const char *m, size_t n) { int fd = LV[l] == LOG_ERR ? 2 : 1; if (n > 799) n = 799; CHECK(nout[3 - fd] == 0, "errors go to standard error, everything else to standard output"); const char *o = out[fd]; size_t k = nout[fd], tl = sizeof TS - 1; CHECK(k >= tl + n + 4 && k < tl + n + 40, "timestamp, marker, message, line end and nothing else"); CHECK(memcmp(o, TS, tl) == 0, "the timestamp comes first"); CHECK(o[k - 1] == '\n', "the line ends"); CHECK(sym_eq(o + k - 1 - n, m, n), "the message, cut to 799 bytes"); size_t ml = k - 1 - n - tl; CHECK(o[k - 2 - n] == ' ' && ml > 1, "a blank in front of the message"); int has = 0; for (size_t i = 0; i < ml; i++) { CHECK(o[tl + i] != '\n' && o[tl + i] != 0, "one line"); has |= o[tl + i] == MK[l]; mark[l][i] = o[tl + i]; } mark[l][ml] = 0; CHECK(has, "the level's marker"); nout[1] = nout[2] = 0; }
/* another thread logs while this one does */
static int at = -1, point, other_ran, lo; static char mo[900]; static size_t no;
static void *other(void *a) { (void)a; m38_log_msg(LV[lo], "%s", mo); return 0; }
void env_point(void) { if (at < 0 || other_ran || sym_tid() != 0) return; if (point++ == at) { other_ran = 1; sym_run(other, 0, 1); } }
static size_t one(const char *o, size_t left, int l, const char *m, size_t n) { size_t tl = sizeof TS - 1, k = 0; while (k < left && o[k] != '\n') k++; if (k == left || k < tl + n + 3 || memcmp(o, TS, tl) != 0) return 0; int has = 0; for (size_t i = tl; i + n < k; i++) has |= o[i] == MK[l]; return has && o[k - n - 1] == ' ' && k < tl + n + 39 && sym_eq(o + k - n, m, n) ? k + 1 : 0; }
static const size_t S[] = {0, 1, 2, 50, 99, 100, 101, 700, 780, 796, 797, 798, 799, 800, 801, 802, 820, 900, 1000, 2000, 5000};
void main_sym(void) {
  int l = (int)sym_pick(0, 5, "level");
  switch (sym_arg()) {
  case 0: { // messages of every length
    size_t n = S[sym_pick(0, 20, "n")]; char *m = malloc(n + 1); memset(m, 'm', n); m[n] = 0; size_t pos[3] = {0, n / 2, n > 799 ? 798 : n - 1}; for (int i = 0; n && i < 3; i++) { char nm[3] = {'b', (char)('0' + i), 0}; if (i && pos[i] == pos[i - 1]) continue; sym_bytes(m + pos[i], 1, nm); sym_assume((m[pos[i]] != 0) & (m[pos[i]] != '\n')); } m38_log_msg(LV[l], "%s", m); line(l, m, n); free(m); sym_reach(n > 799 ? "cut" : "messages"); break; }
  case 1: { // formats
    int k = (int)sym_pick(0, 5, "k"); char b[4]; sym_bytes(b, 2, "b"); b[2] = 0; sym_assume((b[0] != 0) & (b[1] != 0) & (b[0] != '\n') & (b[1] != '\n')); char w[80]; size_t n;
    switch (k) { case 0: m38_log_msg(LV[l], "Worker %i: %s", 12, b); memcpy(w, "Worker 12: ", 11); memcpy(w + 11, b, 2); n = 13; break; case 1: m38_log_msg(LV[l], "no arguments"); n = 12; memcpy(w, "no arguments", n); break; case 2: m38_log_msg(LV[l], "100%% %s", b); memcpy(w, "100% ", 5); memcpy(w + 5, b, 2); n = 7; break; case 3: m38_log_msg(LV[l], "%s", "%s%n%i"); n = 6; memcpy(w, "%s%n%i", 6); break; case 4: m38_log_msg(LV[l], "%c%d", b[0], -2147483647 - 1); w[0] = b[0]; memcpy(w + 1, "-2147483648", 11); n = 12; break; default: m38_log_msg(LV[l], "%s%s%s", b, "", b); memcpy(w, b, 2); memcpy(w + 2, b, 2); n = 4; } line(l, w, n); sym_reach("formats"); break; }
  case 2: { // several lines in turn; every level its own marker
    for (int i = 0; i < 6; i++) { int j = (l + i) % 6; m38_log_msg(LV[j], "message"); line(j, "message", 7); } for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) CHECK(strcmp(mark[i], mark[j]) != 0, "every level has a marker of its own"); sym_reach("levels"); break; }
  case 3: { // long format strings, long parts
    size_t n = S[sym_pick(0, 20, "n")]; char *f = malloc(n + 4); memset(f, 'f', n); memcpy(f + n, "%s", 3); char *w = malloc(n + 4); memset(w, 'f', n); char b[4]; sym_bytes(b, 2, "b"); b[2] = 0; sym_assume((b[0] != 0) & (b[1] != 0) & (b[0] != '\n') & (b[1] != '\n')); memcpy(w + n, b, 2); m38_log_msg(LV[l], f, b); line(l, w, n + 2); free(f); free(w); sym_reach("long formats"); break; }
  case 4: { // two threads
    lo = (int)sym_pick(0, 5, "other"); static const size_t Z[] = {0, 2, 99, 100, 600, 799}; size_t n = Z[sym_pick(0, 5, "n")]; no = Z[sym_pick(0, 5, "m")]; static char m[900]; memset(m, 'a', n); memset(mo, 'B', no); if (n) { sym_bytes(m + n - 1, 1, "mine"); sym_assume((m[n - 1] >= 'a') & (m[n - 1] <= 'z')); } if (no) { sym_bytes(mo, 1, "theirs"); sym_assume((mo[0] >= 'A') & (mo[0] <= 'Z')); } at = (int)sym_pick(0, 8, "at"); m38_log_msg(LV[l], "%s", m); if (!other_ran) { sym_reach("fewer points"); sym_stop(); }
    int fa = LV[l] == LOG_ERR ? 2 : 1, fb = LV[lo] == LOG_ERR ? 2 : 1; if (fa != fb) { CHECK(one(out[fa], nout[fa], l, m, n) == nout[fa] && nout[fa], "one line on the stream of its level"); CHECK(one(out[fb], nout[fb], lo, mo, no) == nout[fb] && nout[fb], "one line on the stream of its level"); }
    else { size_t x = one(out[fa], nout[fa], l, m, n); int ab = x && one(out[fa] + x, nout[fa] - x, lo, mo, no) == nout[fa] - x; x = one(out[fa], nout[fa], lo, mo, no); int ba = x && one(out[fa] + x, nout[fa] - x, l, m, n) == nout[fa] - x; CHECK(ab | ba, "two threads that log at the same time write two whole lines"); } sym_reach("two threads"); break; }
  }
}
