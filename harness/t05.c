// T05: filters get their exact argument, their result replaces the call, clean-up runs once on it.
#include "tmpl.h"
static greshunkel_ctext *C;
#define NC 40
static struct call { int f; int has; char arg[24]; size_t n; char *res; int cleaned; } calls[NC]; static int ncalls, in_render, stray;
static size_t rlen[3] = {1, 3, 2}; static char rb[3][8]; static int big; static size_t bigarg; static char *bigref;
static char *run(int f, const char *a) { CHECK(ncalls < NC, "each call in the template is one call of the filter"); struct call *c = &calls[ncalls++]; c->f = f; c->has = a != 0; c->n = a ? strlen(a) : 0; if (a && c->n < sizeof c->arg) memcpy(c->arg, a, c->n + 1); if (a && bigref) CHECK(c->n == bigarg && sym_eq(a, bigref, bigarg), "the whole argument"); c->cleaned = 0; size_t n = big ? (size_t)big : rlen[f]; char *r = malloc(n + 1); memset(r, 'r', n); if (!big) memcpy(r, rb[f], n); r[n] = 0; c->res = r; return r; }
static char *f0(const char *a) { return run(0, a); } static char *f1(const char *a) { return run(1, a); } static char *f2(const char *a) { return run(2, a); }
static void clean(char *r) { for (int i = 0; i < ncalls; i++) if (calls[i].res == r && !calls[i].cleaned) { calls[i].cleaned = 1; memset(r, '#', 1); free(r); return; } stray++; }
static char stat_res[8]; static char *fstat_(const char *a) { (void)a; ncalls++; return stat_res; }
static void want_calls(int n) { CHECK(ncalls == n, "each call in the template is one call of the filter"); CHECK(stray == 0, "clean-up runs only on results, once"); for (int i = 0; i < n; i++) CHECK(calls[i].cleaned == 1, "clean-up runs on every result"); }
static int find_call(int f, const char *arg, size_t n) { for (int i = 0; i < ncalls; i++) if (calls[i].f == f && calls[i].has == (arg != 0) && calls[i].n == n && (!arg || sym_eq(calls[i].arg, arg, n))) { calls[i].f = -1; return 1; } return 0; }
static char va[8], vm[8]; static const char *const FN[] = {"f", "ff", "g_1"};
static void ctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "a", va); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", vm); gshkl_add_sub_context(C, "sub", s); gshkl_add_filter(C, "f", f0, clean); gshkl_add_filter(C, "ff", f1, clean); gshkl_add_filter(C, "g_1", f2, clean); }
static char *arg(char *b, size_t n, const char *nm) { text(b, n, nm); for (size_t i = 0; i < n; i++) sym_assume((b[i] != '\n') & (b[i] != '\r')); if (n) sym_assume((b[0] != ' ') & (b[0] != '\t') & (b[0] != '\v') & (b[0] != '\f')); return b; }
static int o_clean[3]; static char *o_res(char w, const char *a) { char *r = malloc(8); size_t n = 0; r[n++] = w; r[n++] = a ? a[0] : '-'; r[n] = 0; return r; } static char *g0(const char *a) { return o_res('0', a); } static char *g1(const char *a) { return o_res('1', a); } static char *g2(const char *a) { return o_res('2', a); } static void k0(char *r) { CHECK(r[0] == '0', "its own clean-up"); o_clean[0]++; free(r); } static void k1(char *r) { CHECK(r[0] == '1', "its own clean-up"); o_clean[1]++; free(r); } static void k2(char *r) { CHECK(r[0] == '2', "its own clean-up"); o_clean[2]++; free(r); }
static char *(*const GG[])(const char *) = {g0, g1, g2}; static void (*const KK[])(char *) = {k0, k1, k2};
void main_sym(void) { reset(); for (int i = 0; i < 3; i++) memset(rb[i], 'a' + i, 8);
  switch (sym_arg()) {
  case 0: { // one call: any argument, any result
    char b[8]; size_t n = sym_pick(0, 3, "n"), rl = sym_pick(0, 2, "rl"); rlen[0] = rl; text(rb[0], rl, "result"); ctx(); arg(b, n, "arg"); int pos = (int)sym_pick(0, 3, "pos"); if (pos & 1) te("<"); t("XxX f"); if (n) { t(" "); tn(b, n); } t(" XxX"); en(rb[0], rl); if (pos & 2) te(">\n"); renders(C, "the result replaces the call"); want_calls(1); CHECK(find_call(0, n ? b : 0, n), "the filter gets its exact argument"); sym_reach(n ? "argument" : "no argument"); break; }
  case 1: { // several calls on a line, on lines
    int n = (int)sym_pick(1, 3, "n"), nl = (int)sym_pick(0, 1, "nl"); char b[3][4]; int f[3], has[3]; ctx(); for (int i = 0; i < n; i++) { f[i] = (int)sym_pick(0, 2, "f"); has[i] = (int)sym_pick(0, 2, "has"); char nm[3] = {'b', (char)('0' + i), 0}; if (has[i]) arg(b[i], 1, nm); t("XxX "); t(FN[f[i]]); if (has[i]) { t(" "); tn(b[i], 1); if (has[i] == 2) t(" z"); } t(" XxX"); en(rb[f[i]], rlen[f[i]]); te(i == 0 ? "" : ", "); if (nl) te("\n"); } renders(C, "each result in its call's place"); want_calls(n); for (int i = 0; i < n; i++) { char w[4] = {b[i][0], ' ', 'z', 0}; if (!has[i]) w[0] = 0; CHECK(find_call(f[i], has[i] ? w : 0, has[i] == 2 ? 3 : (size_t)has[i]), "each filter gets its exact argument"); } sym_reach("several"); break; }
  case 2: { // variables in arguments
    int k = (int)sym_pick(0, 5, "k"); size_t la = sym_pick(0, 2, "la"); text(va, la, "va"); strcpy(vm, "mm"); ctx(); static const char *const AT[] = {"q xXx @a xXx", "xXx @sub.m xXx", "p xXx @a xXx r xXx @sub.m xXx", "(xXx @a xXx)", "xXx @sub.m xXxxXx @a xXx", "'xXx @a xXxxXx @a xXx'"}; char w[32]; size_t n = 0; const char *p; 
    switch (k) { case 0: p = "q a"; break; case 1: p = "m"; break; case 2: p = "p a r m"; break; case 3: p = "(a)"; break; case 4: p = "ma"; break; default: p = "'aa'"; } for (; *p; p++) { if (*p == 'a') { memcpy(w + n, va, la); n += la; } else if (*p == 'm') { memcpy(w + n, vm, 2); n += 2; } else w[n++] = *p; } te("-"); t("XxX ff "); t(AT[k]); t(" XxX"); en(rb[1], rlen[1]); te("-\n"); w[n] = 0; renders(C, "the result replaces the call"); want_calls(1); CHECK(find_call(1, w, n), "variables in an argument are replaced before the call"); sym_reach("variables"); break; }
  case 3: { // long arguments and results
    static const size_t S[] = {31, 32, 255, 256, 511, 512, 513, 1023, 1024, 1025, 3000}; size_t n = S[sym_pick(0, 10, "n")]; int k = (int)sym_pick(0, 2, "k"); ctx(); te("s "); if (k == 0) { char *a = malloc(n + 1); memset(a, 'A', n); a[n] = 0; char b[4]; arg(b, 1, "b"); a[n - 1] = b[0]; bigref = a; bigarg = n; t("XxX f "); t(a); t(" XxX"); e("a"); renders(C, "long argument"); free(a); want_calls(1); } else { big = (int)n; t(k == 1 ? "XxX f XxX" : "XxX f q XxX"); memset(E + ne, 'r', n); ne += n; te(" end\n"); renders(C, "long result"); want_calls(1); } sym_reach("long"); break; }
  case 4: { // in loops: one call per item
    int n = (int)sym_pick(0, 3, "n"), k = (int)sym_pick(0, 1, "k"); char v[3][4]; ctx(); greshunkel_var l = gshkl_add_array(C, "items"); t("xXx LOOP i items xXx"); t(k ? "[XxX f xXx @i xXx XxX XxX g_1 XxX]" : "[XxX f - xXx @i xXx XxX]"); t("xXx BBL xXx"); for (int i = 0; i < n; i++) { char nm[3] = {'v', (char)('0' + i), 0}; arg(v[i], 1, nm); gshkl_add_string_to_loop(&l, v[i]); e("[a"); if (k) { e(" "); en(rb[2], rlen[2]); } e("]"); } te("\n"); renders(C, "one result per item"); want_calls(k ? 2 * n : n); for (int i = 0; i < n; i++) { char w[4] = {'-', ' ', v[i][0], 0}; CHECK(k ? find_call(0, v[i], 1) : find_call(0, w, 3), "the filter gets this item's argument"); } sym_reach("in loops"); break; }
  case 5: { // without clean-up the result is only read; the ready-made clean-up frees it
    C = gshkl_init_context(); int k = (int)sym_pick(0, 2, "k"), n = (int)sym_pick(1, 3, "calls"); text(stat_res, 2, "result"); if (k == 2) gshkl_add_filter(C, "s", f0, gshkl_filter_cleanup); else gshkl_add_filter(C, "s", fstat_, 0); uint64_t base = sym_live(); char c0[4]; memcpy(c0, stat_res, 3); for (int i = 0; i < n; i++) { t(k == 1 ? "XxX s q XxX" : "XxX s XxX"); if (k == 2) e("a"); else en(c0, 2); te(";"); } renders(C, "results without clean-up"); CHECK(ncalls == n, "each call in the template is one call of the filter"); CHECK(sym_live() == base, "nothing is left over and nothing else is freed"); CHECK(sym_eq(stat_res, c0, 3), "the result is not written to"); sym_reach("no clean-up"); break; }
  case 6: { // names: exact; filters and variables of one name
    static const char *const N[] = {"a", "ab", "b", "a1", "A", "_", "a_b"}; int n1 = (int)sym_pick(0, 6, "n1"), n2 = (int)sym_pick(0, 6, "n2"), w = (int)sym_pick(0, 1, "which"), h = (int)sym_pick(0, 1, "arg"); if (n1 == n2) sym_stop(); strcpy(va, "V"); C = gshkl_init_context(); gshkl_add_string(C, N[n1], "var"); gshkl_add_filter(C, N[n1], f0, clean); gshkl_add_filter(C, N[n2], f1, clean); t("xXx @"); t(N[n1]); t(" xXx XxX "); e("var "); t(N[w ? n2 : n1]); t(h ? " q XxX" : " XxX"); en(rb[w], rlen[w]); renders(C, "the filter of exactly that name"); want_calls(1); CHECK(find_call(w, h ? "q" : 0, (size_t)h), "called with its argument"); sym_reach("names"); break; }
  case 7: { // in condition bodies and includes
    int k = (int)sym_pick(0, 3, "k"); char b[4]; ctx(); arg(b, 1, "b"); char inc[64]; strcpy(inc, "i XxX f "); inc[8] = b[0]; strcpy(inc + 9, " XxX."); if (k == 3) { env_add_file("inc.txt", inc, strlen(inc)); t("xXx SCREAM inc.txt xXx"); e("i a."); } else { t(k == 0 ? "xXx UNLESS @none xXx" : k == 1 ? "xXx UNLESS NOT @none xXx" : "xXx UNLESS NOT @sub xXx"); tn(inc, strlen(inc)); t("xXx ENDLESS xXx"); if (k != 1) e("i a."); } renders(C, "filters in blocks and includes"); want_calls(k == 1 ? 0 : 1); if (k != 1) CHECK(find_call(0, b, 1), "the filter gets its argument"); sym_reach("in blocks"); break; }
  case 8: { // contexts with filters of the same name, rendered one after another: each context uses its own
    greshunkel_ctext *c[3]; char b[2]; sym_bytes(b, 1, "argument"); sym_assume((b[0] > ' ') & (b[0] != 'x') & (b[0] != 'X') & (b[0] != '@') & (b[0] != 127)); b[1] = 0; uint64_t base = sym_live(); int extra = (int)sym_pick(0, 1, "extra"); for (int i = 0; i < 3; i++) { c[i] = gshkl_init_context(); if (extra && i == 1) gshkl_add_filter(c[i], "f0", GG[0], KK[0]); gshkl_add_filter(c[i], "f", GG[i], KK[i]); gshkl_add_filter(c[i], "g", GG[(i + 1) % 3], KK[(i + 1) % 3]); }
    t("<XxX f "); tn(b, 1); t(" XxX|XxX g XxX>\n"); for (int r = 0; r < 4; r++) { int i = (int)sym_pick(0, 2, "context"), j = (i + 1) % 3; ne = 0; char x[8] = {'<', (char)('0' + i), b[0], '|', (char)('0' + j), '-', '>', '\n'}; en(x, 8); int n0[3]; memcpy(n0, o_clean, sizeof n0); renders(c[i], "the filters of the context that is rendered"); for (int k = 0; k < 3; k++) CHECK(o_clean[k] == n0[k] + (k == i) + (k == j), "clean-up runs once on every result"); }
    for (int i = 0; i < 3; i++) gshkl_free_context(c[i]); CHECK(sym_live() == base, "nothing leaks"); C = gshkl_init_context(); sym_reach("own filters"); break; }
  }
  free_ctx(C);
}
