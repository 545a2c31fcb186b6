// Sizes and counts beyond every round number nearby: templates and contexts (T01-T08, T10).
#define TSIZE 400000
#include "tmpl.h"
static greshunkel_ctext *C; static char va[8], vb[8];
static void dec(unsigned v, char *o) { char b[16]; int k = 0; do { b[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) *o++ = b[--k]; *o = 0; }
static const size_t L[] = {4095, 4096, 4097, 8191, 8192, 9000, 16384, 20000, 32768, 65534, 65535, 65536, 65537, 70000};
static size_t len(const char *nm) { return L[sym_pick(0, 13, nm)]; }
static const int N[] = {16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257}; static int num(const char *nm) { return N[sym_pick(0, 15, nm)]; }
static int calls, clean; static char *f_arg(const char *a) { calls++; char *r = malloc(strlen(a) + 3); r[0] = '<'; strcpy(r + 1, a); strcat(r, ">"); return r; } static char *f_no(const char *a) { (void)a; calls++; char *r = malloc(2); strcpy(r, "!"); return r; } static void f_free(char *r) { clean++; free(r); }
static size_t big; static char *f_big(const char *a) { (void)a; calls++; char *r = malloc(big + 1); memset(r, 'r', big); r[big - 1] = va[0]; r[big] = 0; return r; }
static char fnum[300]; static char *fx(const char *a) { size_t n = strlen(a); char *r = malloc(n + 2); memcpy(r, a, n); r[n] = '.'; r[n + 1] = 0; return r; }
static void nm(char *o, const char *p, int i) { strcpy(o, p); o[strlen(p)] = (char)('a' + i / 26 / 26); o[strlen(p) + 1] = (char)('a' + i / 26 % 26); o[strlen(p) + 2] = (char)('a' + i % 26); o[strlen(p) + 3] = 0; }
void main_sym(void) { reset(); uint64_t base = sym_live(); text(va, 1, "va"); text(vb, 2, "vb"); sym_assume((va[0] > ' ')); C = gshkl_init_context(); gshkl_add_string(C, "a", va); gshkl_add_string(C, "b", vb); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", vb); gshkl_add_sub_context(C, "sub", s); gshkl_add_filter(C, "f", f_arg, f_free); gshkl_add_filter(C, "no", f_no, f_free); gshkl_add_filter(C, "big", f_big, f_free); char k[16]; (void)fnum;
  switch (sym_arg()) {
  case 0: { // T01: many on one line
    int n = num("n"), kind = (int)sym_pick(0, 2, "kind"); te("<"); for (int i = 0; i < n; i++) { int w = kind == 2 ? i & 1 : kind; t(w ? "xXx @sub.m xXx" : "xXx @a xXx"); e(w ? vb : va); te(i % 3 ? "," : " "); } te(">"); renders(C, "every occurrence"); break; }
  case 1: { // T01: long lines
    size_t n = len("n"); int w = (int)sym_pick(0, 3, "where"); if (w == 3) { tfill(n, 'q'); te("\n"); tfill(n / 2, 'r'); t("xXx @a xXx"); e(va); } else { if (w != 1) tfill(n, 'q'); t("xXx @a xXx"); e(va); t("xXx @sub.m xXx"); e(vb); if (w != 0) tfill(n, 'r'); te("\nlast"); } renders(C, "long lines"); break; }
  case 2: { // T02: many entries, deep scopes
    int n = num("n"); static const int MORE[] = {300, 513, 1025}; int m = (int)sym_pick(0, 3, "more"); if (m) { if (n != 16) sym_stop(); n = MORE[m - 1]; } int kind = (int)sym_pick(0, 2, "kind"); for (int i = 0; i < n; i++) { nm(k, "v", i); char d[12]; dec((unsigned)i, d); if (kind == 0) gshkl_add_int(C, k, 5000 + i); else if (kind == 1) gshkl_add_int(s, k, 5000 + i); else gshkl_add_filter(C, k, fx, f_free); } int w = (int)sym_pick(0, 3, "which"); int i = w == 0 ? n - 1 : w == 1 ? n - 2 : w == 2 ? n / 2 : 0; nm(k, "v", i); t(kind == 2 ? "XxX " : kind ? "xXx @sub." : "xXx @"); t(k); if (kind == 2) { t(" arg XxX"); e("arg."); } else { t(" xXx"); char d[12]; dec((unsigned)(5000 + i), d); e(d); } renders(C, "every entry is found"); break; }
  case 3: { // T02: scopes inside each other, through included files: loops of two items, conditions
    int d = (int)sym_pick(1, 5, "depth"), cond = (int)sym_pick(0, 1, "cond"); static char file[8][400]; greshunkel_var l = gshkl_add_array(C, "two"); gshkl_add_string_to_loop(&l, "1"); gshkl_add_string_to_loop(&l, va); char head[8]; for (int i = 0; i < d; i++) { strcpy(head, "f/a"); head[2] = (char)('a' + i); strcpy(k, "i_a"); k[2] = (char)('a' + i); char p[8] = "f/b"; p[2] = (char)('b' + i); strcpy(file[i], "xXx LOOP "); strcat(file[i], k); strcat(file[i], " two xXx"); if (cond) { strcat(file[i], "xXx UNLESS NOT @"); strcat(file[i], k); strcat(file[i], " xXx+xXx ENDLESS xXx"); } if (i == d - 1) { strcat(file[i], "[xXx @b xXx"); for (int j = 0; j < d; j++) { k[2] = (char)('a' + j); strcat(file[i], "xXx @"); strcat(file[i], k); strcat(file[i], " xXx"); } strcat(file[i], "xXx @sub.m xXxXxX no XxXXxX f q XxX]"); } else { strcat(file[i], "\nxXx SCREAM "); strcat(file[i], p); strcat(file[i], " xXx\n"); } strcat(file[i], "xXx BBL xXx"); char *fn = malloc(8); strcpy(fn, head); env_add_file(fn, file[i], strlen(file[i])); }
    t("xXx SCREAM f/a xXx\n"); for (int m = 0; m < 1 << d; m++) { for (int i = 0; i < d; i++) if ((m & ((1 << (d - 1 - i)) - 1)) == 0) { e(cond ? "+" : ""); if (i + 1 < d) e("\n"); } e("["); e(vb); for (int i = 0; i < d; i++) e(m >> (d - 1 - i) & 1 ? va : "1"); e(vb); e("!<q>]"); } te("end"); renders(C, "names of every outer scope are found"); for (int i = 0; i < d; i++) free((void *)env_vfs[i].path); break; }
  case 4: { // T04: arrays of any size are set
    int n = num("n"); if (sym_pick(0, 1, "more")) { static const int MORE[] = {0, 1, 511, 512, 513, 1024}; int i = (int)sym_pick(0, 5, "m"); if (n != 16) sym_stop(); n = MORE[i]; } greshunkel_var l = gshkl_add_array(C, "arr"); for (int i = 0; i < n; i++) gshkl_add_int_to_loop(&l, i); t("xXx UNLESS @arr xXxemptyxXx ENDLESS xXx"); if (!n) e("empty"); t("xXx UNLESS NOT @arr xXxfilledxXx ENDLESS xXx"); if (n) e("filled"); renders(C, "an array is set exactly when it has items"); break; }
  case 5: { // T05: many calls, many filters
    int n = num("n"), kind = (int)sym_pick(0, 2, "kind"); te("-"); for (int i = 0; i < n; i++) { int w = kind == 2 ? i & 1 : kind; if (w) { t("XxX f xXx @a xXx XxX"); e("<"); e(va); e(">"); } else { t("XxX no XxX"); e("!"); } te(","); } char *m = tmpl_(); size_t o; char *r = gshkl_render(C, m, nt, &o); text_is(r, "every call is replaced"); CHECK(calls == n && clean == n, "one call and one clean-up per occurrence"); free(r); free(m); break; }
  case 6: { // T05: long arguments and results
    big = len("n"); int kind = (int)sym_pick(0, 1, "kind"); te("("); if (kind) { t("XxX big q XxX"); memset(E + ne, 'r', big); ne += big; E[ne - 1] = va[0]; } else { t("XxX f "); memset(T + nt, 'q', big); nt += big; t("xXx @a xXx XxX"); e("<"); memset(E + ne, 'q', big); ne += big; e(va); e(">"); } te(")"); renders(C, "whole arguments and results"); CHECK(calls == 1 && clean == 1, "one call and one clean-up"); break; }
  case 7: { // T06: includes inside each other
    int d = (int)sym_pick(1, 7, "depth"); static char file[8][80]; static const char *const P[] = {"p/a", "p/b", "p/c", "p/d", "p/e", "p/f", "p/g", "p/h"}; for (int i = 0; i < d; i++) { file[i][0] = (char)('0' + i); file[i][1] = 0; if (i + 1 < d) { strcat(file[i], "\nxXx SCREAM "); strcat(file[i], P[i + 1]); strcat(file[i], " xXx\nz"); } else strcat(file[i], "xXx @a xXx"); env_add_file(P[i], file[i], strlen(file[i])); } int twice = (int)sym_pick(1, 3, "times"); for (int j = 0; j < twice; j++) { t("xXx SCREAM p/a xXx\n"); for (int i = 0; i < d; i++) { char q[4] = {(char)('0' + i), i + 1 < d ? '\n' : 0, 0}; e(q); } e(va); for (int i = 1; i < d; i++) e("z"); te("|\n"); } te("end"); renders(C, "included files include files"); CHECK(env_open_fds == 0 && env_open_streams == 0 && env_open_maps == 0, "nothing stays open"); break; }
  case 8: { // T07: contexts of many entries, arrays of many sub-contexts
    int n = num("n"), kind = (int)sym_pick(0, 4, "kind"); greshunkel_var l = {0}; if (kind == 2 || kind == 3) l = gshkl_add_array(C, "arr"); for (int i = 0; i < n; i++) { nm(k, "e", i); if (kind == 0) gshkl_add_string(C, k, k); else if (kind == 1) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "z", k); gshkl_add_sub_context(C, k, x); } else if (kind == 2) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "z", k); gshkl_add_sub_context_to_loop(&l, x); } else if (kind == 3) gshkl_add_int_to_loop(&l, i); else { greshunkel_var q = gshkl_add_array(C, k); gshkl_add_int_to_loop(&q, 1); } }
    if (kind == 2 || kind == 3) { t(kind == 2 ? "xXx LOOP i arr xXxxXx @i.z xXxxXx BBL xXx" : "xXx LOOP i arr xXxxXx @i xXxxXx BBL xXx"); for (int i = 0; i < n; i++) { nm(k, "e", i); char d[12]; dec((unsigned)i, d); e(kind == 2 ? k : d); } } else { t("xXx @a xXx"); e(va); } renders(C, "rendered"); renders(C, "and again"); break; }
  case 9: { // T08
    size_t n = len("n"); int end = (int)sym_pick(0, 2, "end"); for (size_t i = 0; i < n; i++) { T[i] = E[i] = i % 300 == 299 && end != 1 ? '\n' : 'q'; } nt = ne = n; T[n - 1] = E[n - 1] = end == 2 ? '\n' : va[0]; size_t drop = end == 2; char *m = tmpl_(); size_t o = 7; char *r = gshkl_render(C, m, nt, &o); text_is(r, "the text"); CHECK(o == ne - drop, "the reported size is the text's length without one final newline"); free(r); free(m); break; }
  case 10: { // T10: many of everything in turn
    int n = num("n"), lines = (int)sym_pick(0, 1, "lines"); for (int i = 0; i < n; i++) { switch (i % 4) { case 0: t("xXx @a xXx"); e(va); break; case 1: t("xXx @sub.m xXx"); e(vb); break; case 2: t("XxX f q XxX"); e("<q>"); break; case 3: t("XxX no XxX"); e("!"); break; } te(lines ? "\n" : "/"); } renders(C, "constructs do not influence each other"); break; }
  case 11: { // T03: loops over many items with several constructs, long bodies
    int n = num("n"), kind = (int)sym_pick(0, 1, "kind"); greshunkel_var l = gshkl_add_array(C, "arr"); t("xXx LOOP i arr xXx<xXx @i xXxxXx @sub.m xXxXxX no XxX"); size_t fill = kind ? 500 : 0; memset(T + nt, 'b', fill); nt += fill; t(">xXx BBL xXx."); for (int i = 0; i < n; i++) { char d[12]; dec((unsigned)i, d); if (i & 1) gshkl_add_int_to_loop(&l, i); else gshkl_add_string_to_loop(&l, i == n / 2 * 2 - 2 ? va : d); e("<"); e(i % 2 == 0 && i == n / 2 * 2 - 2 ? va : d); e(vb); e("!"); memset(E + ne, 'b', fill); ne += fill; e(">"); } e("."); renders(C, "the body once per item in order"); break; }
  case 12: { // T05: many filters
    int n = num("n"), one = (int)sym_pick(0, 2, "which"); one = one == 0 ? 0 : one == 1 ? n / 2 : n - 1; for (int i = 0; i < n; i++) { nm(k, "w", i); gshkl_add_filter(C, k, i == one ? f_arg : i & 1 ? fx : f_no, f_free); } nm(k, "w", one); int times = (int)sym_pick(1, 2, "times"); for (int i = 0; i < times; i++) { t("XxX "); t(k); t(" xXx @a xXx XxX"); e("<"); e(va); e(">"); te(" "); } char *m = tmpl_(); size_t o; char *r = gshkl_render(C, m, nt, &o); text_is(r, "every filter is found"); CHECK(calls == times && clean == times, "one call and one clean-up per occurrence"); free(r); free(m); break; }
  case 13: { // T03, T04, T06: names of every kind of character, of loops, arrays, conditions and files
    static const char *const NM[] = {"z", "Z", "_", "0", "9", "n0", "0n", "x1", "item_2", "A9_z", "42", "abcdefghij0123456789_XYZ"}; int i = (int)sym_pick(0, 12, "name"), what = (int)sym_pick(0, 3, "what"); char nb[32]; if (i == 12) { unsigned char c; sym_bytes(&c, 1, "c"); sym_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_')); c = (unsigned char)sym_conc(c); nb[0] = (char)c; nb[1] = 0; if (c == 'a' || c == 'b' || c == 'f') sym_stop(); } else strcpy(nb, NM[i]);
    if (what == 0) { greshunkel_var l = gshkl_add_array(C, "arr"); gshkl_add_string_to_loop(&l, va); gshkl_add_int_to_loop(&l, 5); t("xXx LOOP "); t(nb); t(" arr xXx<xXx @"); t(nb); t(" xXx>xXx BBL xXx."); e("<"); e(va); e("><5>."); }
    else if (what == 1) { greshunkel_var l = gshkl_add_array(C, nb); gshkl_add_string_to_loop(&l, va); gshkl_add_int_to_loop(&l, 5); t("xXx LOOP q "); t(nb); t(" xXx<xXx @q xXx>xXx BBL xXx."); e("<"); e(va); e("><5>."); }
    else if (what == 2) { int set = (int)sym_pick(0, 1, "set"); if (set) gshkl_add_string(C, nb, va); t("xXx UNLESS @"); t(nb); t(" xXxunlessxXx ENDLESS xXx"); t("xXx UNLESS NOT @"); t(nb); t(" xXxnotxXx ENDLESS xXx."); e(set ? "not" : "unless"); e("."); }
    else { static char fn[48]; strcpy(fn, "d/"); strcat(fn, nb); strcat(fn, ".t"); env_add_file(fn, "inc xXx @a xXx", 14); t("xXx SCREAM "); t(fn); t(" xXx\n"); e("inc "); e(va); te("end"); }
    renders(C, "whatever the characters of the name"); break; }
  case 14: { // T02: names alike
    static const char *const A[] = {"ab", "Ab", "ab", "abc", "a1", "_a", "x", "abcdefghijklmnopqrstuvwxyz01234", "abcdefghijklmnopqrstuvwxyz0123A", "item", "zz"}, *const B[] = {"aB", "ab", "abc", "ab", "a2", "a_", "X", "abcdefghijklmnopqrstuvwxyz01235", "abcdefghijklmnopqrstuvwxyz0123a", "itemItem", "z"}; int i = (int)sym_pick(0, 10, "names"), what = (int)sym_pick(0, 7, "what"), second = (int)sym_pick(0, 1, "second"), both = (int)sym_pick(0, 1, "both"); const char *n1 = A[i], *n2 = B[i], *ask = second ? n2 : n1; const char *w = second ? vb : va;
    int h1 = both || !second, h2 = both || second; if (!both && what != 5) sym_stop();
    if (what == 0) { if (h1) gshkl_add_string(C, n1, va); if (h2) gshkl_add_string(C, n2, vb); t("xXx @"); t(ask); t(" xXx"); e(w); }
    else if (what == 1) { gshkl_add_string(s, n1, va); gshkl_add_string(s, n2, vb); t("xXx @sub."); t(ask); t(" xXx"); e(w); }
    else if (what == 2) { for (int j = 0; j < 2; j++) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "q", j ? vb : va); gshkl_add_sub_context(C, j ? n2 : n1, x); } t("xXx @"); t(ask); t(".q xXx"); e(w); }
    else if (what == 3) { gshkl_add_filter(C, n1, f_arg, f_free); gshkl_add_filter(C, n2, fx, f_free); t("XxX "); t(ask); t(" r XxX"); e(second ? "r." : "<r>"); }
    else if (what == 4) { greshunkel_var l = gshkl_add_array(C, n1); gshkl_add_string_to_loop(&l, va); l = gshkl_add_array(C, n2); gshkl_add_string_to_loop(&l, vb); gshkl_add_int_to_loop(&l, 3); t("xXx LOOP k "); t(ask); t(" xXxxXx @k xXx,xXx BBL xXx"); e(w); e(","); if (second) e("3,"); }
    else if (what == 5) { if (h1) gshkl_add_string(C, n1, "x"); if (h2) gshkl_add_string(C, n2, both ? "FALSE" : "x"); int set = !both ? 0 : !second; if (!both) ask = second ? n1 : n2; t("xXx UNLESS @"); t(ask); t(" xXxUxXx ENDLESS xXx"); t("xXx UNLESS NOT @"); t(ask); t(" xXxNxXx ENDLESS xXx"); e(set ? "N" : "U"); }
    else if (what == 6) { greshunkel_var l = gshkl_add_array(C, "arr"); gshkl_add_string_to_loop(&l, va); gshkl_add_string(C, n2, vb); t("xXx LOOP "); t(n1); t(" arr xXxxXx @"); t(ask); t(" xXxxXx BBL xXx"); e(w); }
    else { greshunkel_var l = gshkl_add_array(C, "arr"); greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, n1, va); gshkl_add_string(x, n2, vb); gshkl_add_sub_context_to_loop(&l, x); t("xXx LOOP k arr xXxxXx @k."); t(ask); t(" xXxxXx BBL xXx"); e(w); }
    te("."); renders(C, "names that differ in letter case, at their end or in one character are different names"); break; }
  case 15: { // T03, T04, T10: long bodies, and long text behind them
    size_t n = len("n"), k0 = sym_pick(0, 1, "lines") ? 300 : 0; int what = (int)sym_pick(0, 3, "what"); static char body[80000]; for (size_t i = 0; i < n; i++) body[i] = k0 && i % k0 == k0 - 1 ? '\n' : 'q'; body[n - 1] = 'z'; body[n] = 0; greshunkel_var l = gshkl_add_array(C, "arr"); gshkl_add_string_to_loop(&l, va); if (n < 20000) gshkl_add_int_to_loop(&l, 7); int m = n < 20000 ? 2 : 1;
    if (what == 0) { t("xXx LOOP i arr xXx"); t(body); t("xXx @i xXx|xXx BBL xXx"); for (int j = 0; j < m; j++) { e(body); e(j ? "7" : va); e("|"); } } else if (what == 1) { t("xXx UNLESS @nothing xXx"); t(body); t("xXx @a xXx|xXx ENDLESS xXx"); e(body); e(va); e("|"); } else if (what == 2) { t("xXx UNLESS NOT @a xXx"); t(body); t("xXx @a xXx|xXx ENDLESS xXx"); e(body); e(va); e("|"); } else { t("xXx UNLESS @a xXx"); t(body); t("xXx ENDLESS xXx"); t("xXx LOOP i arr xXx.xXx BBL xXx"); for (int j = 0; j < m; j++) e("."); te(body); t("xXx @a xXx"); e(va); }
    te("end"); renders(C, "whole bodies and what stands behind them"); break; }
  case 16: { // T03, T04: many blocks in one template
    static const int NB[] = {17, 33, 65, 100}; int n = NB[sym_pick(0, 3, "n")], lines = (int)sym_pick(0, 1, "lines"), what = (int)sym_pick(0, 2, "what"); greshunkel_var l = gshkl_add_array(C, "arr"); gshkl_add_string_to_loop(&l, va); gshkl_add_int_to_loop(&l, 7); for (int i = 0; i < n; i++) { int w = what == 2 ? i % 3 : what; if (w == 0) { t("xXx LOOP i arr xXx<xXx @i xXx>xXx BBL xXx"); e("<"); e(va); e("><7>"); } else if (w == 1) { t("xXx UNLESS @nothing xXxuxXx ENDLESS xXx"); e("u"); } else { t("xXx UNLESS NOT @a xXxxXx @a xXxxXx ENDLESS xXx"); e(va); } if (lines) te("-\n"); } te("end"); renders(C, "many blocks one after another"); break; }
  }
  gshkl_free_context(C); CHECK(sym_live() == base, "every block is freed"); sym_reach("large");
}
