// T02: contexts keep names and values, names resolve by scope.
#include "tmpl.h"
static greshunkel_ctext *C;
static const size_t LEN[] = {0, 1, 2, 31, 32, 33, 255, 256, 257, 509, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025, 2000, 5000};
static const int INTS[] = {0, 1, -1, 9, 10, -10, 99, 100, 65535, 65536, 999999999, 1000000000, 2147483647, -2147483647 - 1, -2147483647, 42};
static void dec(int v, char *o) { char b[16]; int k = 0; unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v; do { b[k++] = (char)('0' + u % 10); u /= 10; } while (u); if (v < 0) b[k++] = '-'; while (k) *o++ = b[--k]; *o = 0; }
static const char NC[] = "ab_0Z";
static void name(char *o, int max, const char *nm) { int n = (int)sym_pick(1, (uint64_t)max, nm); sym_bytes(o, (size_t)n, nm); o[n] = 0; for (int i = 0; i < n; i++) sym_assume((o[i] == 'a') | (o[i] == 'b') | (o[i] == '_') | (o[i] == '0') | (o[i] == 'Z')); (void)NC; }
static int same(const char *a, const char *b) { return strcmp(a, b) == 0; }
static char *f1(const char *a) { (void)a; return "one"; } static char *f2(const char *a) { (void)a; return "two"; } static char *f3(const char *a) { (void)a; return "three"; } static char *(*const FF[])(const char *) = {f1, f2, f3}; static const char *const FR[] = {"one", "two", "three"};
static void longname(char *o, size_t n) { for (size_t i = 0; i < n; i++) o[i] = (char)('a' + i % 26); o[n] = 0; }
void main_sym(void) { reset(); C = gshkl_init_context();
  switch (sym_arg()) {
  case 0: { // strings of every length class, everywhere a string goes
    size_t n = LEN[sym_pick(0, 20, "len")]; int where = (int)sym_pick(0, 3, "where"); char *v = malloc(n + 1); memset(v, 'q', n); v[n] = 0; size_t pos[3] = {0, n / 2, n ? (n > 512 ? 511 : n - 1) : 0}; char b[4]; for (int i = 0; n && i < 3; i++) { char nm[3] = {'b', (char)('0' + i), 0}; if (i && pos[i] == pos[i - 1]) continue; text(b, 1, nm); v[pos[i]] = b[0]; }
    te("<"); size_t m = n > 512 ? 512 : n; int rc = 0; if (where == 0) { rc = gshkl_add_string(C, "s", v); t("xXx @s xXx"); en(v, m); } else if (where == 1) { greshunkel_ctext *s = gshkl_init_context(); rc = gshkl_add_string(s, "s", v); gshkl_add_sub_context(C, "sub", s); t("xXx @sub.s xXx"); en(v, m); } else { greshunkel_var l = gshkl_add_array(C, "l"); rc = gshkl_add_string_to_loop(&l, v); if (where == 3) rc |= gshkl_add_string_to_loop(&l, "next"); t("\nxXx LOOP i l xXx(xXx @i xXx)xXx BBL xXx"); e("\n("); en(v, m); e(")"); if (where == 3) e("(next)"); } CHECK(rc == 0, "adding succeeds"); memset(v, '#', n); te(">"); renders(C, "the value, up to 512 bytes"); free(v); sym_reach("strings"); break; }
  case 1: { // integers
    int k = (int)sym_pick(0, 16, "int"), where = (int)sym_pick(0, 2, "where"), v; char d[16]; if (k == 16) { v = (int)sym_num(0, 4000, "v") - 2000; if (sym_pick(0, 1, "conc")) v = (int)sym_conc((uint64_t)(int64_t)(v & 15)); } else v = INTS[k]; dec(v, d); te("<"); if (where == 0) { CHECK(gshkl_add_int(C, "n", v) == 0, "adding succeeds"); t("xXx @n xXx"); } else if (where == 1) { greshunkel_ctext *s = gshkl_init_context(); gshkl_add_int(s, "n", v); gshkl_add_sub_context(C, "sub", s); t("xXx @sub.n xXx"); } else { greshunkel_var l = gshkl_add_array(C, "l"); CHECK(gshkl_add_int_to_loop(&l, v) == 0, "adding succeeds"); t("\n"); e("\n"); t("xXx LOOP i l xXxxXx @i xXxxXx BBL xXx"); } e(d); te(">"); renders(C, "an integer is its decimal text"); sym_reach("integers"); break; }
  case 2: { // arbitrary names: the first one that is exactly the name
    char n1[4], n2[4], n3[4]; name(n1, 2, "n1"); name(n2, 2, "n2"); name(n3, 2, "n3"); int sub = (int)sym_pick(0, 1, "sub"); greshunkel_ctext *c = C; if (sub) { c = gshkl_init_context(); gshkl_add_sub_context(C, "s", c); } gshkl_add_string(c, n1, "one"); gshkl_add_string(c, n2, "two"); const char *w = same(n1, n3) ? "one" : same(n2, n3) ? "two" : 0; if (!w) { gshkl_add_string(c, n3, "three"); w = "three"; } else gshkl_add_string(c, n3, "late"); t(sub ? "xXx @s." : "xXx @"); t(n3); t(" xXx"); e(w); te("."); renders(C, "the first entry of exactly that name"); sym_reach("names"); break; }
  case 3: { // long names
    size_t n = sym_pick(28, 70, "n"); char l[80], s[80]; longname(l, n); longname(s, n > 31 ? 31 : n); int kind = (int)sym_pick(0, 4, "kind"); char p[40]; longname(p, 20); if (kind != 1 && kind != 2) gshkl_add_string(C, p, "prefix"); te("("); if (kind == 0) { gshkl_add_string(C, l, "str"); gshkl_add_int(C, "after", 7); t("xXx @"); t(s); t(" xXxxXx @after xXx"); e("str7"); } else if (kind == 1) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_int(x, l, 12); gshkl_add_string(x, "after", "q"); gshkl_add_sub_context(C, l, x); t("xXx @"); t(s); t("."); t(s); t(" xXxxXx @"); t(s); t(".after xXx"); e("12q"); } else if (kind == 2) { greshunkel_var a = gshkl_add_array(C, l); gshkl_add_string_to_loop(&a, "x1"); te("\n"); t("xXx LOOP it "); t(s); t(" xXxxXx @it xXxxXx BBL xXx"); e("x1"); } else if (kind == 3) { gshkl_add_filter(C, l, f2, 0); t("XxX "); t(s); t(" XxX"); e("two"); } else { gshkl_add_int(C, l, -5); gshkl_add_string(C, s, "second"); t("xXx @"); t(s); t(" xXxxXx @"); t(p); t(" xXx"); e("-5prefix"); } te(")"); renders(C, "names are kept up to 31 bytes"); sym_reach("long names"); break; }
  case 4: { // many entries
    int n = (int)sym_pick(1, 70, "n"), pick = (int)sym_num(0, 69, "pick"); sym_assume(pick < n); pick = (int)sym_conc((uint64_t)pick); char nm[8]; int kind = (int)sym_pick(0, 2, "kind"); greshunkel_ctext *s = kind == 1 ? gshkl_init_context() : 0; for (int i = 0; i < n; i++) { nm[0] = 'v'; dec(i, nm + 1); if (kind == 0) gshkl_add_int(C, nm, 1000 + i); else if (kind == 1) gshkl_add_int(s, nm, 1000 + i); else gshkl_add_filter(C, nm, FF[i % 3], 0); } if (s) gshkl_add_sub_context(C, "s", s); nm[0] = 'v'; dec(pick, nm + 1); char d[8]; dec(1000 + pick, d); te("="); t(kind == 2 ? "XxX " : kind ? "xXx @s." : "xXx @"); t(nm); t(kind == 2 ? " XxX" : " xXx"); e(kind == 2 ? FR[pick % 3] : d); te("\n"); renders(C, "every entry is found"); sym_reach("many entries"); break; }
  case 5: { // scopes: a loop variable hides an outer one of its name, everything else stays visible
    char lv[4], ov[4]; int same_ = (int)sym_pick(0, 1, "same"); strcpy(lv, "i"); strcpy(ov, same_ ? "i" : "o"); int sub = (int)sym_pick(0, 1, "sub"); int first = (int)sym_pick(0, 1, "order"); char val[4]; text(val, 1, "val"); if (first) gshkl_add_string(C, ov, "outer"); greshunkel_ctext *so = gshkl_init_context(); gshkl_add_string(so, "m", "outersub"); gshkl_add_sub_context(C, "so", so); greshunkel_var l = gshkl_add_array(C, "items"); if (sub) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "m", val); gshkl_add_sub_context_to_loop(&l, x); } else gshkl_add_string_to_loop(&l, val); if (!first) gshkl_add_string(C, ov, "outer"); gshkl_add_filter(C, "f", f1, 0);
    t("xXx @"); t(ov); t(" xXx\n"); e("outer\n"); t("xXx LOOP i items xXx["); e("["); t(sub ? "xXx @i.m xXx" : "xXx @i xXx"); e(val); t(",xXx @so.m xXx,XxX f XxX"); e(",outersub,one"); if (!same_) { t(",xXx @o xXx"); e(",outer"); } t("]xXx BBL xXx"); e("]"); t("\nxXx @"); t(ov); t(" xXx"); e("\nouter"); renders(C, "innermost scope first"); sym_reach("scopes"); break; }
  case 6: { // filter names: exact, first added, not confused with variables
    char n1[4], n2[4], n3[4]; name(n1, 2, "n1"); name(n2, 2, "n2"); name(n3, 2, "n3"); gshkl_add_string(C, n3, "variable"); gshkl_add_filter(C, n1, f1, 0); gshkl_add_filter(C, n2, f2, 0); gshkl_add_filter(C, n3, f3, 0); const char *w = same(n1, n3) ? "one" : same(n2, n3) ? "two" : "three"; te("-"); int arg = (int)sym_pick(0, 1, "arg"); t("XxX "); t(n3); t(arg ? " q XxX" : " XxX"); e(w); t("xXx @"); t(n3); t(" xXx"); e("variable"); renders(C, "the first filter of exactly that name"); sym_reach("filter names"); break; }
  case 7: { // variables, arrays, sub-contexts of similar names; conditionals and loops find the right one
    static const char *const N[] = {"a", "ab", "aab", "b", "A", "a_", "abc"}; int n1 = (int)sym_pick(0, 6, "n1"), n2 = (int)sym_pick(0, 6, "n2"); if (n1 == n2) { free_ctx(C); sym_reach("similar names"); return; } greshunkel_var l1 = gshkl_add_array(C, N[n1]); greshunkel_var l2 = gshkl_add_array(C, N[n2]); gshkl_add_string_to_loop(&l1, "1"); gshkl_add_string_to_loop(&l2, "2"); gshkl_add_string_to_loop(&l2, "3"); t("xXx LOOP i "); t(N[n2]); t(" xXx<xXx @i xXx>xXx BBL xXx\nxXx LOOP i "); t(N[n1]); t(" xXx<xXx @i xXx>xXx BBL xXx"); e("<2><3><1>"); renders(C, "the array of exactly that name"); sym_reach("similar names"); break; }
  case 8: { // lookups from one, two and three scopes further in: loop in a condition, condition in a loop, include in a loop
    int k = (int)sym_pick(0, 4, "k"); char val[4], o[4]; text(val, 1, "val"); text(o, 1, "outer"); gshkl_add_string(C, "o", o); gshkl_add_filter(C, "f", f2, 0); greshunkel_ctext *so = gshkl_init_context(); gshkl_add_string(so, "m", "outersub"); gshkl_add_sub_context(C, "so", so); greshunkel_var l = gshkl_add_array(C, "items"); gshkl_add_string_to_loop(&l, val); gshkl_add_string_to_loop(&l, val);
    static const char USE[] = "xXx @o xXx,xXx @so.m xXx,XxX f XxX,XxX f xXx @o xXx XxX"; env_add_file("in.txt", USE, sizeof USE - 1); static const char IN2[] = "xXx UNLESS @none xXxxXx @i xXx:xXx @o xXx,xXx @so.m xXx,XxX f XxX,XxX f q XxXxXx ENDLESS xXx"; env_add_file("deep.txt", IN2, sizeof IN2 - 1);
    if (k == 0) { t("xXx UNLESS @none xXx"); t(USE); t("xXx ENDLESS xXx"); } else if (k == 1) { t("xXx LOOP i items xXx\nxXx UNLESS @none xXxxXx @i xXx:"); t(USE); t("xXx ENDLESS xXxxXx BBL xXx"); } else if (k == 2) { t("xXx UNLESS @none xXxxXx LOOP i items xXxxXx @i xXx:"); t(USE); t("xXx BBL xXxxXx ENDLESS xXx"); } else if (k == 3) t("xXx LOOP i items xXx\nxXx @i xXx:\nxXx SCREAM in.txt xXx\nxXx BBL xXx"); else t("xXx LOOP i items xXx\nxXx SCREAM deep.txt xXx\nxXx BBL xXx");
    for (int i = 0; i < (k == 0 ? 1 : 2); i++) { if (k >= 3) e("\n"); if (k) { e(val); e(":"); } if (k == 3) e("\n"); e(o); e(",outersub,two,two"); } renders(C, "names resolve from every depth"); sym_reach("depths"); break; }
  case 9: { // one context after another, each in the memory of the one before, with the same names in another order and of other kinds
    free_ctx(C); C = 0; uint64_t base = sym_live(); sym_reuse(1); int one = (int)sym_pick(0, 4, "one"); if (one) t(one == 1 ? "xXx @a xXx" : one == 2 ? "xXx @s.m xXx" : one == 3 ? "XxX f q XxX" : "xXx LOOP i l xXx(xXx @i xXx)xXx BBL xXx"); else t("xXx @a xXx,xXx @b xXx,xXx @s.m xXx,xXx @s.n xXx,XxX f q XxX\nxXx LOOP i l xXx(xXx @i xXx)xXx BBL xXx"); static char va[3][4], vb[3][4];
    for (int r = 0; r < 3; r++) { ne = 0; text(va[r], 1, "a"); text(vb[r], 1, "b"); int o = (int)sym_pick(0, 3, "order"); greshunkel_ctext *c = gshkl_init_context(), *s = gshkl_init_context(); if (o & 1) { gshkl_add_string(s, "n", va[r]); gshkl_add_string(s, "m", vb[r]); } else { gshkl_add_string(s, "m", vb[r]); gshkl_add_string(s, "n", va[r]); }
      if (o & 2) { gshkl_add_filter(c, "g", f2, 0); gshkl_add_string(c, "b", vb[r]); gshkl_add_sub_context(c, "s", s); gshkl_add_string(c, "a", va[r]); gshkl_add_filter(c, "f", f1, 0); } else { gshkl_add_filter(c, "f", f2, 0); gshkl_add_string(c, "a", va[r]); gshkl_add_string(c, "b", vb[r]); gshkl_add_filter(c, "g", f1, 0); gshkl_add_sub_context(c, "s", s); }
      greshunkel_var l = gshkl_add_array(c, "l"); gshkl_add_string_to_loop(&l, o & 1 ? va[r] : vb[r]); if (o & 2) gshkl_add_string_to_loop(&l, "two"); if (one == 1) e(va[r]); else if (one == 2) e(vb[r]); else if (one == 3) e(o & 2 ? "one" : "two"); else if (one == 4) { e("("); e(o & 1 ? va[r] : vb[r]); e(")"); if (o & 2) e("(two)"); } else { e(va[r]); e(","); e(vb[r]); e(","); e(vb[r]); e(","); e(va[r]); e(o & 2 ? ",one\n(" : ",two\n("); e(o & 1 ? va[r] : vb[r]); e(")"); if (o & 2) e("(two)"); } renders(c, "every context its own values"); gshkl_free_context(c); CHECK(sym_live() == base, "every block is freed"); }
    sym_reach("one after another"); C = gshkl_init_context(); break; }
  }
  free_ctx(C);
}
