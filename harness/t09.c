// T09: an allocation fails while a context grows.
#include "tmpl.h"
static void num(char *o, const char *p, int v) { size_t k = strlen(p); memcpy(o, p, k); if (v >= 10) o[k++] = (char)('0' + v / 10); o[k++] = (char)('0' + v % 10); o[k] = 0; }
static char *f1(const char *a) { (void)a; return "one"; } static char *f2(const char *a) { (void)a; return "two"; } static char *(*const FF[])(const char *) = {f1, f2};
static int add(greshunkel_ctext *c, int kind, const char *nm, int i) { char v[8]; if (kind == 0) return gshkl_add_int(c, nm, 100 + i); if (kind == 1) { num(v, "s", i); return gshkl_add_string(c, nm, v); } greshunkel_ctext *s = gshkl_init_context(); gshkl_add_int(s, "m", 100 + i); int64_t l = -1; (void)l; int r = gshkl_add_sub_context(c, nm, s); if (r) gshkl_free_context(s); return r; }
static void use(int kind, const char *nm, int i) { char v[8]; t("xXx @"); t(nm); if (kind == 2) t(".m"); t(" xXx,"); if (kind == 1) { num(v, "s", i); e(v); } else { e("1"); num(v, i < 10 ? "0" : "", i); e(v); } e(","); }
void main_sym(void) { uint64_t base = sym_live(); reset(); greshunkel_ctext *c = gshkl_init_context();
  switch (sym_arg()) {
  case 0: { // values
    int kind = (int)sym_pick(0, 1, "kind"), n = (int)sym_pick(0, 1, "n") ? 34 : 66, f = (int)sym_pick(0, 2, "fail"), lost = -1; char nm[8]; char b[4]; text(b, 2, "value"); gshkl_add_string(c, "first", b); sym_fail_at(f);
    for (int i = 0; i < n; i++) { num(nm, "v", i); int r = add(c, kind, nm, i); if (r) { CHECK(lost < 0, "only the addition whose allocation failed is refused"); lost = i; sym_reach("value refused"); } }
    int64_t left = sym_fail_at(-1); CHECK((lost >= 0) == (left < 0), "an addition is refused when its allocation failed"); if (left >= 0) sym_reach("nothing fails"); t("xXx @first xXx,"); e(b); e(","); for (int i = 0; i < n; i++) if (i != lost) { num(nm, "v", i); use(kind, nm, i); } renders(c, "everything that was accepted is there"); break; }
  case 1: { // sub-contexts: one that is refused stays with the caller
    int pre = (int)sym_pick(29, 32, "pre"), f = (int)sym_pick(0, 1, "fail"); char nm[8]; greshunkel_ctext *s[4]; int in[4], out = 0; for (int i = 0; i < pre; i++) { num(nm, "v", i); add(c, 0, nm, i); } for (int i = 0; i < 4; i++) { s[i] = gshkl_init_context(); gshkl_add_int(s[i], "m", 100 + i); } sym_fail_at(f); for (int i = 0; i < 4; i++) { num(nm, "c", i); in[i] = gshkl_add_sub_context(c, nm, s[i]) == 0; out += !in[i]; } int64_t left = sym_fail_at(-1); CHECK(out == (left < 0), "a sub-context is refused when its allocation failed"); for (int i = 0; i < 4; i++) { num(nm, "c", i); if (in[i]) use(2, nm, i); } for (int i = 0; i < pre; i++) { num(nm, "v", i); use(0, nm, i); } renders(c, "everything that was accepted is there"); for (int i = 0; i < 4; i++) if (!in[i]) { gshkl_free_context(s[i]); sym_reach("sub-context refused"); } break; }
  case 2: { // filters
    int n = 18, f = (int)sym_pick(0, 2, "fail"), lost = -1; char nm[8]; gshkl_add_string(c, "x", "kept"); sym_fail_at(f); for (int i = 0; i < n; i++) { num(nm, "f", i); if (gshkl_add_filter(c, nm, FF[i % 2], 0)) { CHECK(lost < 0, "only the addition whose allocation failed is refused"); lost = i; sym_reach("filter refused"); } } int64_t left = sym_fail_at(-1); CHECK((lost >= 0) == (left < 0), "a filter is refused when its allocation failed"); for (int i = 0; i < n; i++) if (i != lost) { num(nm, "f", i); t("XxX "); t(nm); t(" XxX,"); e(i % 2 ? "two," : "one,"); } t("xXx @x xXx"); e("kept"); renders(c, "everything that was accepted is there"); break; }
  case 3: { // arrays: creating one, filling it
    int pre = (int)sym_pick(30, 32, "pre"), f = (int)sym_pick(0, 5, "fail"), lost = -1, n = (int)sym_pick(0, 1, "n") ? 18 : 2, sub = (int)sym_pick(0, 1, "sub"); char nm[8], v[8]; for (int i = 0; i < pre; i++) { num(nm, "v", i); add(c, 0, nm, i); } static greshunkel_ctext *s[18]; for (int i = 0; sub && i < n; i++) { s[i] = gshkl_init_context(); gshkl_add_int(s[i], "m", 10 + i); }
    sym_fail_at(f); greshunkel_var l = gshkl_add_array(c, "l"); int bad = sym_fail_at(-1) < 0; if (!bad) sym_fail_at(f > 2 ? f - 3 : -1); int got = 0, k = 0; for (int i = 0; i < n; i++) { num(v, "i", i); int r = sub ? gshkl_add_sub_context_to_loop(&l, s[i]) : i % 2 ? gshkl_add_int_to_loop(&l, 10 + i) : gshkl_add_string_to_loop(&l, v); if (bad) CHECK(r != 0, "an array that could not be made takes no items"); else if (r) { CHECK(lost < 0, "only the addition whose allocation failed is refused"); lost = i; } else got++; if (r && sub) { gshkl_free_context(s[i]); s[i] = 0; } } sym_fail_at(-1); (void)k;
    if (bad) sym_reach("array refused"); if (lost >= 0) sym_reach("item refused"); for (int i = 0; i < pre; i++) { num(nm, "v", i); use(0, nm, i); } if (!bad) { t("\nxXx LOOP i l xXx"); e("\n"); t(sub ? "xXx @i.m xXx;" : "xXx @i xXx;"); t("xXx BBL xXx"); for (int i = 0; i < n; i++) if (i != lost) { if (sub || i % 2) num(v, "", 10 + i); else num(v, "i", i); e(v); e(";"); } } renders(c, "everything that was accepted is there"); break; }
  }
  gshkl_free_context(c); CHECK(sym_live() == base, "freeing the context releases everything");
}
