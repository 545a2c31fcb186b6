// T10: constructs do not influence each other.
#include "tmpl.h"
static greshunkel_ctext *C; static char va[8], vb[8]; static int nh;
static char *fh(const char *a) { nh++; size_t n = a ? strlen(a) : 0; char *r = malloc(n + 3); r[0] = '['; if (n) memcpy(r + 1, a, n); r[n + 1] = ']'; r[n + 2] = 0; return r; } static void fc(char *r) { nh--; free(r); }
/* pieces: \1 stands for the value of a, \2 for that of b. Blocks stand at the beginning of a line or directly behind a block. */
enum { LOOPS = 1, CONDS = 2, INCL = 4 };
static const struct { const char *t, *e; int has; } P[] = {
  {"v=xXx @a xXx", "v=\1", 0}, {"f=XxX h xXx @b xXx XxX", "f=[\2]", 0}, {"g=XxX h XxX XxX h q XxX", "g=[] [q]", 0}, {"d=xXx @sub.m xXxxXx @sub.k xXx", "d=\0017", 0}, {"plain text", "plain text", 0},
  {"xXx LOOP i items xXx<xXx @i xXx>xXx BBL xXx", "<1><\2>", LOOPS}, {"xXx LOOP i empty xXxbodyxXx BBL xXx", "", LOOPS}, {"xXx LOOP s subs xXxXxX h xXx @s.m xXx XxX;xXx BBL xXx", "[\1];[2nd];", LOOPS}, {"xXx LOOP i items xXx\n<xXx @i xXx>\nxXx BBL xXx", "\n<1>\n<\2>", LOOPS},
  {"xXx UNLESS @none xXxno xXx @a xXxxXx ENDLESS xXx", "no \1", CONDS}, {"xXx UNLESS NOT @items xXxyes XxX h q XxXxXx ENDLESS xXx", "yes [q]", CONDS}, {"xXx UNLESS @items xXxbodyxXx ENDLESS xXx", "", CONDS}, {"xXx UNLESS @none xXx\nline\nxXx ENDLESS xXx", "\nline\n", CONDS},
  {"xXx LOOP i items xXxxXx UNLESS NOT @i xXx(xXx @i xXx)xXx ENDLESS xXxxXx BBL xXx", "(1)(\2)", LOOPS | CONDS}, {"xXx UNLESS @none xXxxXx LOOP i items xXx{xXx @i xXx}xXx BBL xXxxXx ENDLESS xXx", "{1}{\2}", LOOPS | CONDS}, {"xXx SCREAM t.txt xXx\n", "inc \1", INCL}};
#define NP (int)(sizeof P / sizeof *P)
static void ex(const char *s) { for (; *s; s++) { if (*s == 1) e(va); else if (*s == 2) e(vb); else en(s, 1); } }
static void setup(size_t na, size_t nb) {
  text(va, na, "a"); text(vb, nb, "b"); for (size_t i = 0; i < nb; i++) sym_assume((vb[i] != ' ') & (vb[i] != '\t') & (vb[i] != '\n') & (vb[i] != '\v') & (vb[i] != '\f') & (vb[i] != '\r')); for (size_t i = 0; i < na; i++) sym_assume((va[i] != ' ') & (va[i] != '\t') & (va[i] != '\n') & (va[i] != '\v') & (va[i] != '\f') & (va[i] != '\r'));
  env_add_file("t.txt", "inc xXx @a xXx\n", 15); C = gshkl_init_context(); gshkl_add_string(C, "a", va); gshkl_add_string(C, "b", vb); gshkl_add_filter(C, "h", fh, fc); greshunkel_var l = gshkl_add_array(C, "items"); gshkl_add_int_to_loop(&l, 1); gshkl_add_string_to_loop(&l, vb); (void)gshkl_add_array(C, "empty"); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", va); gshkl_add_int(s, "k", 7); gshkl_add_sub_context(C, "sub", s); greshunkel_var sl = gshkl_add_array(C, "subs"); for (int i = 0; i < 2; i++) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "m", i ? "2nd" : va); gshkl_add_sub_context_to_loop(&sl, x); } }
static void done(const char *msg) { nh = 0; renders(C, msg); CHECK(nh == 0, "every result of a filter is released"); CHECK(env_open_streams == 0, "and every file closed"); gshkl_free_context(C); CHECK(sym_live() == 0, "every block is freed"); }
static void piece(int k) { t(P[k].t); ex(P[k].e); }
static const char *sep;
static void lone(int k) { piece(k); if (!(P[k].has & INCL)) te(sep); }
void main_sym(void) { reset(); env_nvfs = 0; nh = 0; sep = ".\n";
  switch (sym_arg()) {
  case 0: case 1: { // three (thorough: four) pieces behind each other: on one line, or on lines of their own
#ifdef THOROUGH
    int n = (int)sym_pick(1, 4, "n");
#else
    int n = (int)sym_pick(1, 3, "n");
#endif
    static const char *const SEP[] = {"", " ", "  tail", ".\n", "\n", " \n\n"}; int nl = sym_arg() == 1, seen = 0; setup(1, 1); sep = SEP[sym_pick(0, 2, "sep") + 3 * nl]; int prev = -1;
    for (int i = 0; i < n; i++) { int k = (int)sym_pick(0, NP - 1, "piece"), block = (P[k].has & (LOOPS | CONDS)) != 0; if (!nl && P[k].has && seen) sym_stop();
      if (nl && prev >= 0 && !(P[prev].has & INCL)) te(block && (P[prev].has & (LOOPS | CONDS) || sep[0] == ' ') ? ".\n" : sep); /* blanks directly in front of a block belong to it */
      piece(k); if (!nl) { if (!(P[k].has & INCL)) te(sep); if (!block || *sep) seen = 1; } prev = k; }
    if (nl && prev >= 0 && !(P[prev].has & INCL)) te(sep); done("the pieces one after another"); sym_reach(nl ? "lines" : "line"); break; }
  case 2: { // in the body of a block, in an included file; values of 0..2 bytes
    int w = (int)sym_pick(0, 3, "where"), a = (int)sym_pick(0, NP - 1, "first"), b = (int)sym_pick(0, NP - 1, "second"), nl = (int)sym_pick(0, 1, "lines"), not_in = w == 0 ? LOOPS | INCL : w == 3 ? INCL : CONDS | INCL; if ((P[a].has | P[b].has) & not_in) sym_stop(); setup(sym_pick(0, 2, "na"), sym_pick(1, 2, "nb")); 
    if (!nl && !(P[a].has & (LOOPS | CONDS)) && P[b].has) sym_stop();
    if (w == 3) { static char f[600]; size_t k = 0; size_t l = strlen(P[a].t); memcpy(f, P[a].t, l); k = l; if (nl) { f[k++] = '.'; f[k++] = '\n'; } l = strlen(P[b].t); memcpy(f + k, P[b].t, l); k += l; f[k++] = '|'; f[k] = 0; env_add_file("f.txt", f, k); te("head\n"); t("xXx SCREAM f.txt xXx\n"); ex(P[a].e); if (nl) e(".\n"); ex(P[b].e); e("|"); te("tail"); done("an included file as if it stood there"); sym_reach("included"); break; }
    if (w == 0) { greshunkel_var l = gshkl_add_array(C, "three"); for (int i = 0; i < 3; i++) gshkl_add_int_to_loop(&l, i); }
    t(w == 0 ? "xXx LOOP z three xXx" : w == 1 ? "xXx UNLESS @none xXx" : "xXx UNLESS NOT @items xXx");
    t(P[a].t); if (nl) t(".\n"); t(P[b].t); t(w == 0 ? "|xXx @z xXx)xXx BBL xXx>" : "|)xXx ENDLESS xXx>"); for (int i = 0; i < (w == 0 ? 3 : 1); i++) { ex(P[a].e); if (nl) e(".\n"); ex(P[b].e); e("|"); if (w == 0) { char d[2] = {(char)('0' + i), 0}; e(d); } e(")"); } e(">"); done("the body of a block as if it stood there"); sym_reach(w == 0 ? "in a loop" : "in a condition"); break; }
  case 3: { // many of the same
    static const int N[] = {5, 20, 60}; int n = N[sym_pick(0, 2, "n")], k = (int)sym_pick(0, NP - 1, "piece"), nl = (int)sym_pick(0, 1, "lines"); setup(1, 1); for (int i = 0; i < n; i++) { if (nl) lone(k); else piece(k); } done("as often as it stands there"); sym_reach("many"); break; }
  }
}
