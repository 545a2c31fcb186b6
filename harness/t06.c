// T06: includes.
#include "tmpl.h"
static greshunkel_ctext *C; static char va[8]; static char *up(const char *a) { static char o[8]; o[0] = '['; o[1] = a && a[0] ? a[0] : '-'; o[2] = ']'; o[3] = 0; return o; }
static void ctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "a", va); gshkl_add_filter(C, "up", up, 0); greshunkel_var l = gshkl_add_array(C, "items"); gshkl_add_int_to_loop(&l, 1); gshkl_add_string_to_loop(&l, "2"); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", "inner"); gshkl_add_sub_context(C, "sub", s); }
static void clean(void) { CHECK(env_open_streams == 0 && env_open_fds == 0 && env_bad_close == 0, "the included file is closed again"); CHECK(env_open_maps == 0, "no mapping stays"); }
struct inc { const char *t, *e; };
static const struct inc I[] = {{"", ""}, {"text", "text"}, {"text\n", "text"}, {"\n", ""}, {"a\nb\n", "a\nb"}, {"a\n\n", "a\n"}, {"xXx @a xXx", "V"}, {"<xXx @sub.m xXx>\n", "<inner>"}, {"xXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx", "(1)(2)"}, {"h\nxXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx\n", "h\n(1)(2)"}, {"xXx UNLESS @none xXxyesxXx ENDLESS xXx", "yes"}, {"xXx UNLESS NOT @a xXxset\nxXx ENDLESS xXx\nt", "set\nt"}, {"XxX up q XxX\n", "[q]"}, {"no end", "no end"}};
#define NI (int)(sizeof I / sizeof *I)
static const char *const BEFORE[] = {"", "head\n", "\n", "head\n\n  ", "  "}; static const char *const EBEFORE[] = {"", "head\n", "", "head\n", ""};
void main_sym(void) { reset();
  switch (sym_arg()) {
  case 0: { // contents x what is in front x what follows
    int k = (int)sym_pick(0, NI - 1, "file"), b = (int)sym_pick(0, 4, "before"), f = (int)sym_pick(0, 3, "behind"); strcpy(va, "V"); ctx(); env_add_file("inc.html", I[k].t, strlen(I[k].t)); if (b == 2) { /* an empty line is a line of its own */ } t(BEFORE[b]); e(b == 2 ? "\n" : b == 3 ? "head\n\n" : EBEFORE[b]); t("xXx SCREAM inc.html xXx"); e(I[k].e); if (f) t("\n"); if (f == 2) te("tail"); if (f == 3) { t("xXx @a xXx\n"); e("V\n"); } renders(C, "the line is replaced by the rendered file"); clean(); sym_reach("files"); break; }
  case 1: { // arbitrary file text and value
    char d[8]; size_t n = sym_pick(0, 4, "n"); text(d, n, "data"); text(va, 1, "va"); ctx(); int v = (int)sym_pick(0, 1, "v"); static char f[64]; size_t k = 0; memcpy(f, d, n); k = n; if (v) { memcpy(f + k, "xXx @a xXx.", 11); k += 11; } env_add_file("f.txt", f, k); te("<\n"); t("xXx SCREAM f.txt xXx\n"); en(d, n); if (v) { en(va, 1); e("."); } else if (n && (d[n - 1] == '\n' || d[n - 1] == '\r')) ne--; te(">"); renders(C, "the file's text as it is"); clean(); sym_reach("arbitrary"); break; }
  case 2: { // sizes up to and over the limit
    static const size_t S[] = {0, 1, 100, 255, 256, 511, 512, 1000, 1023, 1024, 2000, 2040, 2045, 2046, 2047, 2048, 2049, 2050, 3000, 4095, 4096, 4097, 10000}; size_t n = S[sym_pick(0, 22, "n")]; int k = (int)sym_pick(0, 2, "k"); char *d = malloc(n + 1); memset(d, 'i', n); char b[4]; size_t m = n > 2047 ? 2047 : n; if (m) { text(b, 1, "last"); sym_assume((b[0] != '\n') & (b[0] != '\r') & (b[0] != ' ')); d[m - 1] = b[0]; text(b, 1, "first"); if (m > 1) d[0] = b[0]; } if (k == 1) for (size_t i = 40; i + 40 < n; i += 41) d[i] = '\n'; strcpy(va, "v"); ctx(); env_add_file("big.txt", d, n); if (k == 2) te("line\n"); t("xXx SCREAM big.txt xXx\n"); en(d, m); if (k == 1 && m > 80 && m == 2047) { /* nothing ends exactly there */ } te("after"); renders(C, "up to 2047 bytes of the file"); clean(); free(d); sym_reach(n > 2047 ? "over the limit" : "sizes"); break; }
  case 3: { // several includes, nested includes, includes in loops and conditions
    int k = (int)sym_pick(0, 5, "k"); text(va, 1, "va"); ctx(); env_add_file("one.txt", "1:xXx @a xXx", 12); env_add_file("two.txt", "2\nxXx SCREAM one.txt xXx\nend\n", 29); te("s\n"); const char *v1 = "1:";
    if (k == 0) { t("xXx SCREAM one.txt xXx\nxXx SCREAM one.txt xXx\n"); e(v1); e(va); e(v1); e(va); te("t"); }
    else if (k == 1) { t("xXx SCREAM two.txt xXx\n"); e("2\n"); e(v1); e(va); e("end"); te("t"); }
    else if (k == 2) { t("xXx LOOP i items xXx\nxXx @i xXx\nxXx SCREAM one.txt xXx\nxXx BBL xXx"); for (int i = 1; i <= 2; i++) { char q[4] = {'\n', (char)('0' + i), '\n', 0}; e(q); e(v1); e(va); } }
    else if (k == 3) { t("xXx UNLESS @none xXx xXx SCREAM one.txt xXx\nxXx ENDLESS xXx"); e(v1); e(va); te("t"); }
    else if (k == 4) { t("xXx SCREAM one.txt xXx\nmid\nxXx SCREAM two.txt xXx"); e(v1); e(va); e("mid\n2\n"); e(v1); e(va); e("end"); }
    else { for (int i = 0; i < 12; i++) { t("xXx SCREAM one.txt xXx\n"); e(v1); e(va); } }
    renders(C, "each include on its own"); clean(); sym_reach("several"); break; }
  case 4: { // file names
    static const char *const P[] = {"a", "A_b", "dir/sub.html", "./x.y", "../up.txt", "/srv/t/page.html", "a.b.c", "_include.html"}; int k = (int)sym_pick(0, 8, "name"); static char lp[600]; const char *p = lp; if (k == 8) { static const size_t L[] = {31, 32, 100, 255, 256, 500}; size_t n = L[sym_pick(0, 5, "len")]; memset(lp, 'p', n); lp[n] = 0; } else p = P[k]; env_add_file(p, "content", 7); env_add_file("other", "wrong", 5); strcpy(va, "v"); ctx(); t("xXx SCREAM "); t(p); t(" xXx"); e("content"); renders(C, "the file of exactly that name"); clean(); sym_reach("file names"); break; }
  case 5: { // in the including context: loop variables are visible in the included file
    char v[2][4]; C = gshkl_init_context(); gshkl_add_string(C, "i", "outer"); greshunkel_var l = gshkl_add_array(C, "items"); for (int i = 0; i < 2; i++) { char nm[3] = {'v', (char)('0' + i), 0}; text(v[i], 1, nm); gshkl_add_string_to_loop(&l, v[i]); } env_add_file("in.txt", "<xXx @i xXx>", 12); t("xXx SCREAM in.txt xXx\nxXx LOOP i items xXx\nxXx SCREAM in.txt xXx\nxXx BBL xXx"); e("<outer>"); for (int i = 0; i < 2; i++) { e("\n<"); e(v[i]); e(">"); } renders(C, "rendered in the including context"); clean(); sym_reach("context"); break; }
  case 6: { // nested includes of every size, text around each of them
    static const size_t S[] = {0, 1, 5, 40, 300, 1900}; size_t a = S[sym_pick(0, 5, "outer")], b = S[sym_pick(0, 5, "behind")], n = S[sym_pick(0, 5, "inner")]; if (a + b > 1950) { C = gshkl_init_context(); break; } int deep = (int)sym_pick(0, 1, "deep"); static char o[2100], in[2100]; size_t k = 0; memset(o, 'o', a); k = a; if (a) o[k++] = '\n'; k += (size_t)(stpcpy(o + k, deep ? "xXx SCREAM mid.txt xXx\n" : "xXx SCREAM in.txt xXx\n") - (o + k)); memset(o + k, 'p', b); k += b; char c[2]; size_t at = k - 1; if (b) { text(c, 1, "c"); sym_assume((c[0] != '\n') & (c[0] != '\r') & (c[0] != ' ')); o[at] = c[0]; } memset(in, 'i', n); env_add_file("out.txt", o, k); env_add_file("in.txt", in, n); static const char MID[] = "m\nxXx SCREAM in.txt xXx\nn"; env_add_file("mid.txt", MID, sizeof MID - 1); strcpy(va, "v"); ctx(); te("<\n"); t("xXx SCREAM out.txt xXx\n"); en(o, a); if (a) e("\n"); if (deep) e("m\n"); en(in, n); if (deep) e("n"); en(o + at + 1 - b, b); te(">"); renders(C, "the inner file, then the rest of the outer one"); clean(); sym_reach("nested"); break; }
  }
  free_ctx(C);
}
