// T03: loops render their body once per item, in order.
#include "tmpl.h"
static greshunkel_ctext *C; static greshunkel_var L;
/* an item: string of arbitrary bytes, integer, or sub-context */
static char val[12][8]; static int isub[12];
static void item(int i, int kind) { char nm[4] = {'v', (char)('a' + i), 0}; isub[i] = 0; if (kind == 0) { text(val[i], 1, nm); gshkl_add_string_to_loop(&L, val[i]); } else if (kind == 1) { static const int V[] = {0, 7, -3, 12345, 65536}; gshkl_add_int_to_loop(&L, V[i % 5]); static const char *const S[] = {"0", "7", "-3", "12345", "65536"}; strcpy(val[i], S[i % 5]); } else if (kind == 2) { val[i][0] = 0; gshkl_add_string_to_loop(&L, ""); } else { text(val[i], 1, nm); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "other", "z"); gshkl_add_string(s, "m", val[i]); gshkl_add_sub_context_to_loop(&L, s); isub[i] = 1; } }
struct body { const char *pre, *mid, *post; const char *epre, *emid, *epost; };   /* pre VAR mid VAR post */
static const struct body B[] = {
  {"", 0, "", "", 0, ""},                                    /* just the variable */
  {"<li>", 0, "</li>", "<li>", 0, "</li>"},
  {"\n  <li>", 0, "</li>\n", "\n  <li>", 0, "</li>"},          /* the last newline of the body is not counted */
  {"\n\t<li>", 0, "</li>\n\t", "\n\t<li>", 0, "</li>\n\t"},
  {" ", "-", " ", " ", "-", " "},
  {"\n", "\n", "\n\n", "\n", "\n", "\n"},
  {"xXx @outer xXx:", 0, ";", "OUT:", 0, ";"},
  {"XxX up ", 0, " XxX", "[", 0, "]"},
  {"a xXx ", "xXx", " b", "a xXx ", "xXx", " b"},
  {"\nxXx UNLESS @none xXxyesxXx ENDLESS xXx", 0, "\nxXx UNLESS NOT @none xXxnoxXx ENDLESS xXx!", "yes", 0, "\n!"},
};
#define NB (int)(sizeof B / sizeof *B)
static char ub[8][64]; static int nub; static char *up(const char *a) { char *o = ub[nub++ % 8]; o[0] = '['; strcpy(o + 1, a); strcat(o, "]"); return o; }
static void var(int sub, const char *lv) { t("xXx @"); t(lv); if (sub) t(".m"); t(" xXx"); }
static void loop(const struct body *b, int n, int sub, const char *lv, const char *arr) { t("xXx LOOP "); t(lv); t(" "); t(arr); t(" xXx"); t(b->pre); var(sub, lv); if (b->mid) { t(b->mid); var(sub, lv); } t(b->post); t("xXx BBL xXx"); for (int i = 0; i < n; i++) { e(b->epre); e(val[i]); if (b->emid) { e(b->emid); e(val[i]); } e(b->epost); } }
static void nb(char c) { sym_assume((c != ' ') & (c != '\t') & (c != '\n') & (c != '\v') & (c != '\f') & (c != '\r')); }   /* filter arguments do not start with a blank */
static void ctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "outer", "OUT"); gshkl_add_filter(C, "up", up, 0); L = gshkl_add_array(C, "items"); }
static const char *const TAIL[] = {"", "\n", "tail", "\ntail", "\n\n", " ", "<ul>\n", "xXx @outer xXx", "\n  xXx @outer xXx\n"}; static const char *const ETAIL[] = {"", "\n", "tail", "\ntail", "\n\n", " ", "<ul>\n", "OUT", "\n  OUT\n"};
void main_sym(void) { reset(); ctx();
  switch (sym_arg()) {
  case 0: { // bodies x numbers of items x kinds of items x text behind
    int b = (int)sym_pick(0, NB - 1, "body"), n = (int)sym_pick(0, 3, "n"), kind = (int)sym_pick(0, 3, "kind"), tl = (int)sym_pick(0, 8, "tail"); if (kind == 2 && b == 7) sym_stop(); for (int i = 0; i < n; i++) item(i, kind); if (b == 7) for (int i = 0; i < n; i++) nb(val[i][0]); if (sym_pick(0, 1, "lead")) te("head\n"); loop(&B[b], n, kind == 3, "i", "items"); t(TAIL[tl]); e(ETAIL[tl]); renders(C, "the body once per item, in order"); sym_reach("bodies"); if (n == 0) sym_reach("empty"); break; }
  case 1: { // several loops behind each other, over the same or another array
    int n = (int)sym_pick(0, 2, "n"), k = (int)sym_pick(2, 3, "loops"); if (k == 3 && n == 2) sym_stop(); for (int i = 0; i < n; i++) item(i, 0); greshunkel_var l2 = gshkl_add_array(C, "more"); gshkl_add_string_to_loop(&l2, "p"); gshkl_add_int_to_loop(&l2, 5); for (int i = 0; i < k; i++) { int b = i == 1 ? (int)sym_pick(0, 5, "body") : 4 - 2 * i, sep = (int)sym_pick(0, 3, "sep"), other = (int)sym_pick(0, 1, "other"); if (!other) loop(&B[b], n, 0, "i", "items"); else { t("xXx LOOP j more xXx<xXx @j xXx>xXx BBL xXx"); e("<p><5>"); } static const char *const SEP[] = {"\n", "mid\n", "\n\n  ", ""}; static const char *const ESEP[] = {"", "mid\n", "", ""}; static const char *const ELAST[] = {"\n", "mid\n", "\n\n  ", ""}; t(SEP[sep]); e(i + 1 < k ? ESEP[sep] : ELAST[sep]); } renders(C, "each loop on its own"); sym_reach("several"); break; }
  case 2: { // many items, growing the array
    static const int N[] = {1, 15, 16, 17, 31, 32, 33, 40, 64, 65, 70, 127, 129, 255, 256, 257, 300}; int n = N[sym_pick(0, 16, "n")], kind = (int)sym_pick(0, 1, "kind"); char b[4]; te("("); t("\nxXx LOOP i items xXx"); e("\n"); t(kind ? "xXx @i.m xXx,xXx @outer xXx;" : "xXx @i xXx,xXx @outer xXx;"); t("xXx BBL xXx"); for (int i = 0; i < n; i++) { char v[8] = {(char)('a' + i % 23), (char)('0' + i / 23), 0}; if (i == n - 1) { text(b, 1, "last"); v[0] = b[0]; } if (kind) { greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", v); gshkl_add_sub_context_to_loop(&L, s); } else gshkl_add_string_to_loop(&L, v); e(v); e(",OUT;"); } te(")"); renders(C, "every item"); sym_reach("many items"); break; }
  case 3: { // mixed items in one array
    int n = (int)sym_pick(1, 4, "n"); for (int i = 0; i < n; i++) item(i, (int)sym_pick(0, 2, "kind")); loop(&B[sym_pick(0, 1, "b")], n, 0, "i", "items"); renders(C, "items of any kind"); sym_reach("mixed"); break; }
  case 4: { // loops in an UNLESS body; conditions on the loop variable; loop variable of every name length
    int n = (int)sym_pick(0, 2, "n"), k = (int)sym_pick(0, 3, "k"); if (k == 0) { for (int i = 0; i < n; i++) item(i, 0); t("xXx UNLESS @none xXx\n  "); int o = (int)ne; loop(&B[1], n, 0, "i", "items"); te("\nrest\n"); t("xXx ENDLESS xXx"); te("after"); (void)o; }
    else if (k == 1) { gshkl_add_string_to_loop(&L, "FALSE"); gshkl_add_string_to_loop(&L, "q"); gshkl_add_string_to_loop(&L, ""); t("xXx LOOP i items xXx xXx UNLESS @i xXxuxXx ENDLESS xXx xXx UNLESS NOT @i xXxnxXx ENDLESS xXx.xXx BBL xXx"); e("u.n.u."); }
    else if (k == 2) { char lv[24]; size_t l = sym_pick(1, 12, "l"); memset(lv, 'V', l); lv[l] = 0; for (int i = 0; i < n; i++) item(i, 0); loop(&B[4], n, 0, lv, "items"); }
    else { for (int i = 0; i < n; i++) { item(i, 3); nb(val[i][0]); } t("xXx LOOP i items xXx{XxX up xXx @i.m xXx XxX xXx @i.other xXx}xXx BBL xXx"); for (int i = 0; i < n; i++) { e("{["); e(val[i]); e("] z}"); } te("\n"); }
    renders(C, "loops and conditions"); sym_reach("nested"); break; }
  case 5: { // long bodies and long values
    static const size_t S[] = {100, 255, 256, 511, 512, 513, 1023, 1024, 2000, 4096}; size_t n = S[sym_pick(0, 9, "size")]; int where = (int)sym_pick(0, 2, "where"); int it = (int)sym_pick(1, 3, "items"); char v[600]; size_t vl = where == 2 ? (n > 512 ? 512 : n) : 1; memset(v, 'v', vl); v[vl] = 0; char b[4]; text(b, 1, "b"); v[vl - 1] = b[0]; for (int i = 0; i < it; i++) gshkl_add_string_to_loop(&L, v); t("xXx LOOP i items xXx"); if (where != 2) { memset(T + nt, 'B', n); nt += n; if (where == 1) t("\n"); } t("xXx @i xXx;xXx BBL xXx"); for (int i = 0; i < it; i++) { if (where != 2) { memset(E + ne, 'B', n); ne += n; if (where == 1) e("\n"); } e(v); e(";"); } te("end"); renders(C, "long bodies and values"); sym_reach("long bodies"); break; }
  case 6: { // an array in a context above: the loop runs in a nested scope; body text with arbitrary bytes
    size_t n = sym_pick(0, 2, "n"); char b[4], a[4]; text(b, n, "body"); text(a, 1, "after"); for (int i = 0; i < 2; i++) item(i, 0); t("xXx LOOP i items xXx("); tn(b, n); var(0, "i"); t(")xXx BBL xXx"); for (int i = 0; i < 2; i++) { e("("); en(b, n); e(val[i]); e(")"); } tn(a, 1); en(a, 1); t("xXx @outer xXx"); e("OUT"); renders(C, "arbitrary body text"); sym_reach("arbitrary body"); break; }
  }
  free_ctx(C);
}
