// T01: variables are replaced by exactly their value, everything else is copied.
#include "tmpl.h"
static char va[8], vc[8], vm[8]; static greshunkel_ctext *C;
static void ctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "a", va); gshkl_add_string(C, "b_2", ""); gshkl_add_string(C, "c", vc); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "n0", "inner"); gshkl_add_string(s, "m", vm); gshkl_add_sub_context(C, "sub", s); }
/* an arbitrary name: letters, digits, underscores */
static void anyname(char *o, size_t n, const char *nm) { sym_bytes(o, n, nm); o[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(((o[i] >= 'a') & (o[i] <= 'z')) | ((o[i] >= 'A') & (o[i] <= 'Z')) | ((o[i] >= '0') & (o[i] <= '9')) | (o[i] == '_')); }
#define NP 11
static void piece(int p, int i) { char nm[4] = {'t', (char)('0' + i), 0}, b[4]; switch (p) {
  case 0: text(b, 1, nm); tn(b, 1); en(b, 1); break;
  case 1: te("ab"); break; case 2: te("\n"); break;
  case 3: t("xXx @a xXx"); e(va); break; case 4: t("xXx @b_2 xXx"); break; case 5: t("xXx @c xXx"); e(vc); break;
  case 6: t("xXx @sub.m xXx"); e(vm); break; case 7: t("xXx @sub.n0 xXx"); e("inner"); break;
  case 8: te("xXx"); break; case 9: te("x"); break; case 10: te(" "); break; } }
static const char *const LIT[] = {"xXx @ xXx", "xXx @a-b xXx", "xXx @sub.a.b xXx", "xXx@a xXx", "xXx @a", "xXx @a xXy", "xxx @a xXx", "XxX", "XxX a", "xXx LOOP i", "xXx LOOP i items xXx abc", "xXx BBL xXx", "xXx ENDLESS xXx", "xXx UNLESS @a xXx", "xXx UNLESS a xXx b xXx ENDLESS xXx", "xXx SCREAM", "xXx SCREAM a-b xXx", "% %s %n %d", "\\1 & \\n", "<p class=\"q\">&amp;</p>", "\xc3\xa4\xff\x80", "@a", "{a}", "\x01\x7f\t\v"};
static const size_t SZ[] = {30, 31, 32, 33, 99, 255, 256, 257, 511, 512, 513, 799, 1023, 1024, 1025, 4095, 4096, 4097};
void main_sym(void) { reset();
  switch (sym_arg()) {
  case 0: { // arbitrary text
    size_t n = sym_pick(0, 4, "n"); char b[8]; sym_bytes(b, n, "text"); for (size_t i = 0; i < n; i++) sym_assume((b[i] != 0) & (b[i] != 'x') & (b[i] != 'X')); tn(b, n); en(b, n); C = gshkl_init_context(); renders(C, "text is copied byte for byte"); sym_reach("text"); break; }
  case 1: { // every sequence of pieces
#ifdef THOROUGH
    int n = (int)sym_pick(1, 4, "n");
#else
    int n = (int)sym_pick(1, 3, "n");
#endif
    text(va, sym_pick(0, 2, "la"), "va"); strcpy(vc, "cc"); strcpy(vm, "m"); ctx(); for (int i = 0; i < n; i++) piece((int)sym_pick(0, NP - 1, "piece"), i); renders(C, "variables by their value, the rest as it is"); sym_reach("pieces"); break; }
  case 2: { // many on one line and on many lines
    int n = (int)sym_pick(1, 7, "n"), lines = (int)sym_pick(0, 1, "lines"), kind = (int)sym_pick(0, 3, "kind"), sep = (int)sym_pick(0, 2, "sep"); text(va, 1, "va"); text(vc, 3, "vc"); text(vm, 2, "vm"); ctx(); for (int i = 0; i < n; i++) { int k = kind == 3 ? i % 3 : kind; t(k == 0 ? "xXx @a xXx" : k == 1 ? "xXx @c xXx" : "xXx @sub.m xXx"); e(k == 0 ? va : k == 1 ? vc : vm); te(sep == 0 ? "" : sep == 1 ? " " : ", "); if (lines) te("\n"); } renders(C, "every occurrence"); sym_reach("many"); break; }
  case 3: { // what only looks like markup
    int k = (int)sym_pick(0, sizeof LIT / sizeof *LIT - 1, "lit"), pos = (int)sym_pick(0, 3, "pos"); char b[4]; strcpy(va, "value"); ctx(); if (pos == 1) { te("\n  "); } if (pos == 2) { te("q "); } if (pos == 3) { t("xXx @a xXx"); e("value"); te("\n"); } te(LIT[k]); text(b, 1, "b"); sym_assume((b[0] != ' ')); tn(b, 1); en(b, 1); te("\nend\n"); renders(C, "what is not markup is copied"); sym_reach("looks like markup"); break; }
  case 4: { // long lines
    size_t n = SZ[sym_pick(0, 17, "n")]; int k = (int)sym_pick(0, 3, "kind"); text(va, 2, "va"); text(vm, 1, "vm"); ctx(); if (k == 3) tfill(n, 'q'); else { if (k != 1) tfill(n, 'q'); t("xXx @a xXx"); e(va); if (k != 0) tfill(n, 'r'); t("xXx @sub.m xXx"); e(vm); te("!"); } if (sym_pick(0, 1, "nl")) te("\nlast"); renders(C, "long lines"); sym_reach("long lines"); break; }
  case 5: { // long values
    size_t n = 500 + sym_pick(0, 13, "n"); char v[600]; memset(v, 'v', n); v[n] = 0; sym_bytes(v + n - 1, 1, "last"); sym_assume((v[n - 1] != 0) & (v[n - 1] != 'x') & (v[n - 1] != 'X') & (v[n - 1] != '@')); C = gshkl_init_context(); gshkl_add_string(C, "long", v); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "long", v); gshkl_add_sub_context(C, "s", s); int k = (int)sym_pick(0, 2, "k"); if (n > 512) n = 512; te("a"); t(k == 1 ? "xXx @s.long xXx" : "xXx @long xXx"); en(v, n); te("b"); if (k == 2) { t("xXx @long xXxxXx @s.long xXx"); en(v, n); en(v, n); te("c"); } renders(C, "long values"); sym_reach("long values"); break; }
  case 6: { // line ends of every kind
    int n = (int)sym_pick(1, 4, "n"); strcpy(va, "v"); ctx(); for (int i = 0; i < n; i++) { int k = (int)sym_pick(0, 4, "k"); if (k == 4) { t("xXx @a xXx"); e("v"); } else te(k == 0 ? "\n" : k == 1 ? "\r" : k == 2 ? "\r\n" : "l"); } renders(C, "line ends"); renders_null(C, "without a size"); sym_reach("line ends"); break; }
  case 7: { // hundreds of lines
    int n = (int)sym_pick(0, 1, "n") ? 300 : 40; strcpy(va, "v"); strcpy(vm, "ww"); text(vc, 1, "vc"); ctx(); for (int i = 0; i < n; i++) { te("line "); if (i % 7 == 3) { t("xXx @a xXx"); e("v"); } if (i % 11 == 5) { t("xXx @sub.m xXx"); e("ww"); } if (i == n - 2) { t("xXx @c xXx"); e(vc); } te("\n"); } renders(C, "many lines"); sym_reach("many lines"); break; }
  case 8: { // every name, of a variable and of a member
    char n1[8]; size_t n = sym_pick(1, 4, "n"); anyname(n1, n, "name"); text(va, 1, "va"); int k = (int)sym_pick(0, 1, "member"); C = gshkl_init_context(); te("<"); if (!k) { gshkl_add_string(C, n1, va); t("xXx @"); } else { greshunkel_ctext *s = gshkl_init_context(); char n2[4]; anyname(n2, 1, "sub"); gshkl_add_string(s, n1, va); gshkl_add_sub_context(C, n2, s); t("xXx @"); t(n2); t("."); } t(n1); t(" xXx>"); e(va); e(">"); renders(C, "every name"); sym_reach("every name"); break; }
  case 9: { // members whose names begin or end alike, used in any order
    static const char *const N[] = {"a", "ab", "abc", "bc", "c", "b", "a_", "_a", "a1", "1"}; int x = (int)sym_pick(0, 9, "x"), y = (int)sym_pick(0, 9, "y"), top = (int)sym_pick(0, 1, "top"), o = (int)sym_pick(0, 1, "order"); if (x == y) { C = gshkl_init_context(); break; } text(va, 1, "va"); text(vc, 1, "vc"); C = gshkl_init_context(); greshunkel_ctext *s = top ? C : gshkl_init_context(); gshkl_add_string(s, N[x], va); gshkl_add_string(s, N[y], vc); if (!top) gshkl_add_sub_context(C, "s", s);
    for (int i = 0; i < 2; i++) { t(top ? "xXx @" : "xXx @s."); t(N[i == o ? x : y]); t(" xXx"); e(i == o ? va : vc); te(i ? "!" : ","); } renders(C, "the member of exactly that name"); sym_reach("alike"); break; }
  }
  free_ctx(C);
}
