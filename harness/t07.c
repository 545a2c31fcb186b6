// T07: rendering does not consume its context and leaks nothing. T08 (arg >= 10): the reported size.
#include "tmpl.h"
static greshunkel_ctext *C; static char va[8];
static int ncl; static char *fh(const char *a) { size_t n = a ? strlen(a) : 1; char *r = malloc(n + 3); r[0] = '['; memset(r + 1, a ? 'a' : '-', n); r[n + 1] = ']'; r[n + 2] = 0; return r; } static void fc(char *r) { ncl++; free(r); } static char *fs(const char *a) { (void)a; return "static"; }
static void fill(greshunkel_ctext *c) { gshkl_add_string(c, "a", va); gshkl_add_int(c, "n", -42); gshkl_add_filter(c, "h", fh, fc); gshkl_add_filter(c, "s", fs, 0); greshunkel_var l = gshkl_add_array(c, "items"); gshkl_add_int_to_loop(&l, 1); gshkl_add_string_to_loop(&l, va); greshunkel_var e0 = gshkl_add_array(c, "empty"); (void)e0; greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", va); gshkl_add_string(s, "f", "FALSE"); gshkl_add_sub_context(c, "sub", s); greshunkel_var sl = gshkl_add_array(c, "subs"); for (int i = 0; i < 2; i++) { greshunkel_ctext *x = gshkl_init_context(); gshkl_add_string(x, "m", i ? "second" : va); gshkl_add_int(x, "k", i); greshunkel_ctext *deep = gshkl_init_context(); gshkl_add_string(deep, "z", "deep"); gshkl_add_sub_context(x, "deep", deep); gshkl_add_sub_context_to_loop(&sl, x); } }
/* template pieces; those that render to a fixed text for every context value are compared with each other only */
static const char *const P[] = {"text\n", "xXx @a xXx and xXx @sub.m xXx\n", "xXx LOOP i items xXx<xXx @i xXx>xXx BBL xXx\n", "xXx LOOP i subs xXx\n<xXx @i.m xXx:xXx @i.k xXx>\nxXx BBL xXx\n", "xXx LOOP i empty xXxnonexXx BBL xXx", "xXx UNLESS @none xXx xXx @n xXx xXx ENDLESS xXx\n", "xXx UNLESS NOT @items xXx\nxXx LOOP i items xXxxXx @i xXxxXx BBL xXx\nxXx ENDLESS xXx\n", "XxX h arg xXx @a xXx XxX XxX h XxX XxX s XxX\n", "xXx SCREAM t.txt xXx\n", "xXx UNLESS @a xXxnot thisxXx ENDLESS xXx", "xXx LOOP i subs xXxxXx UNLESS NOT @i xXxyesxXx ENDLESS xXxXxX h xXx @i.m xXx XxXxXx BBL xXx", "xXx UNLESS @sub.f xXxdottedxXx ENDLESS xXx\n", "xXx UNLESS NOT @sub.m xXxdottedxXx ENDLESS xXx\n", "xXx UNLESS NOT @sub.nothing xXxdottedxXx ENDLESS xXx\n", "xXx UNLESS @no.thing xXxdottedxXx ENDLESS xXx\n", "", "\n"};
#define NP (int)(sizeof P / sizeof *P)
struct end { const char *t, *e; size_t drop; };
static const struct end EN[] = {{"", "", 0}, {"q", "q", 0}, {"\n", "\n", 1}, {"q\n", "q\n", 1}, {"q\n\n", "q\n\n", 1}, {"xXx @a xXx", "A", 0}, {"xXx @a xXx\n", "A\n", 1}, {"xXx @nl xXx", "v\n", 0}, {"xXx @empty xXx", "", 0}, {"xXx @empty xXx\n", "\n", 1}, {"xXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx", "(1)(2)", 0}, {"xXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx\n", "(1)(2)\n", 1}, {"xXx LOOP i items xXx\nxXx @i xXx\nxXx BBL xXx", "\n1\n2", 0}, {"xXx LOOP i none xXxbodyxXx BBL xXx", "", 0}, {"xXx LOOP i none xXxbody\nxXx BBL xXx\n", "\n", 1}, {"xXx UNLESS @unset xXxbody\nxXx ENDLESS xXx", "body\n", 0}, {"xXx UNLESS @unset xXxbodyxXx ENDLESS xXx\n", "body\n", 1}, {"xXx UNLESS @a xXxbody\nxXx ENDLESS xXx", "", 0}, {"xXx UNLESS @a xXxbodyxXx ENDLESS xXx\n", "\n", 1}, {"xXx UNLESS NOT @a xXxbody\nxXx ENDLESS xXx", "body", 0}, {"xXx UNLESS NOT @unset xXxbody\nxXx ENDLESS xXx", "", 0}, {"xXx SCREAM i.txt xXx", "inc", 0}, {"xXx SCREAM i.txt xXx\n", "inc", 0}, {"xXx SCREAM n.txt xXx\n", "inc\nx", 0}, {"xXx SCREAM e.txt xXx\n", "", 0}, {"XxX z XxX", "", 0}, {"XxX z XxX\n", "\n", 1}, {"XxX z q XxX.", ".", 0}, {" \t\n", " \t\n", 1}, {"q ", "q ", 0}};
#define NE (int)(sizeof EN / sizeof *EN)
static char *fz(const char *a) { (void)a; return ""; }
static void sctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "a", "A"); gshkl_add_string(C, "nl", "v\n"); gshkl_add_string(C, "empty", ""); gshkl_add_filter(C, "z", fz, 0); greshunkel_var l = gshkl_add_array(C, "items"); gshkl_add_int_to_loop(&l, 1); gshkl_add_int_to_loop(&l, 2); (void)gshkl_add_array(C, "none"); env_add_file("i.txt", "inc\n", 4); env_add_file("n.txt", "inc\nx", 5); env_add_file("e.txt", "", 0); }
static void sized(size_t drop) { char *m = tmpl_(); size_t o = 777777; char *r = gshkl_render(C, m, nt, &o); CHECK(r != 0, "rendering succeeds"); size_t len = strlen(r); CHECK(o == len - drop, "the reported size is the text's length without one final newline"); CHECK(len == ne && sym_eq(r, E, ne), "the text"); free(r); free(m); }
void main_sym(void) { reset(); env_nvfs = 0;
  switch (sym_arg()) {
  case 0: case 1: { // render several times, everything freed
    int k1 = (int)sym_pick(0, NP - 1, "p1"), k2 = (int)sym_pick(0, NP - 1, "p2"); size_t n = sym_pick(0, 2, "n"); text(va, n, "va"); for (size_t i = 0; i < n; i++) sym_assume((va[i] != '\n') & (va[i] != '\r') & (va[i] != ' ')); env_add_file("t.txt", "inc xXx @a xXx\nxXx LOOP i items xXxxXx @i xXxxXx BBL xXx", 56); uint64_t base = sym_live(); C = gshkl_init_context(); fill(C); t(P[k1]); t(P[k2]); if (sym_arg()) { te("\n"); t(P[k1]); } char *m = tmpl_(); uint64_t mid = sym_live(); char *r[3]; size_t o[3]; int cl0 = 0; unsigned vals = C->values->count, fil = C->filter_functions->count; for (int i = 0; i < 3; i++) { ncl = 0; r[i] = gshkl_render(C, m, nt, i == 2 ? 0 : &o[i]); CHECK(r[i] != 0, "rendering succeeds"); CHECK(sym_live() == mid + 1 + (uint64_t)i, "rendering leaves nothing behind but its result"); if (!i) cl0 = ncl; CHECK(ncl == cl0, "the same calls every time"); CHECK(C->values->count == vals && C->filter_functions->count == fil && C->parent == 0, "the context is as it was"); CHECK(m[nt] == 0 && memcmp(m, T, nt) == 0, "the template is as it was"); } CHECK(o[0] == o[1], "the same size every time"); size_t l = strlen(r[0]); CHECK(strlen(r[1]) == l && strlen(r[2]) == l && sym_eq(r[0], r[1], l) && sym_eq(r[0], r[2], l), "rendering again gives the same text"); for (int i = 0; i < 3; i++) free(r[i]); free(m); gshkl_free_context(C); CHECK(sym_live() == base, "after freeing the result and the context every block is freed"); CHECK(env_open_streams == 0, "and every file closed"); sym_reach("again"); break; }
  case 2: { // contexts never rendered, partly filled, of many entries, nested sub-contexts
    uint64_t base = sym_live(); int k = (int)sym_pick(0, 6, "k"), n = (int)sym_pick(0, 1, "big") ? 40 : (int)sym_pick(0, 3, "n"); va[0] = 'v'; C = gshkl_init_context(); for (int i = 0; i < n; i++) { char nm[8] = {'e', (char)('a' + i % 26), (char)('a' + i / 26), 0}; if (k == 0) gshkl_add_string(C, nm, nm); else if (k == 1) { greshunkel_var l = gshkl_add_array(C, nm); for (int j = 0; j < n; j++) gshkl_add_int_to_loop(&l, j); } else if (k == 2) { greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, nm, nm); gshkl_add_sub_context(C, nm, s); } else if (k == 3) { greshunkel_var l = gshkl_add_array(C, nm); greshunkel_ctext *s = gshkl_init_context(); fill(s); gshkl_add_sub_context_to_loop(&l, s); } else if (k == 4) gshkl_add_filter(C, nm, fh, fc); else if (k == 5) { greshunkel_ctext *s = gshkl_init_context(), *d = gshkl_init_context(), *dd = gshkl_init_context(); gshkl_add_sub_context(d, "q", dd); gshkl_add_sub_context(s, "d", d); gshkl_add_sub_context(C, nm, s); } else { fill(C); if (i > 2) break; } } gshkl_free_context(C); CHECK(sym_live() == base, "after freeing the context every block is freed"); sym_reach("contexts"); break; }
  case 3: { // two contexts rendered in turn do not affect each other
    text(va, 1, "va"); uint64_t base = sym_live(); C = gshkl_init_context(); fill(C); greshunkel_ctext *D = gshkl_init_context(); gshkl_add_string(D, "a", "other"); greshunkel_var l = gshkl_add_array(D, "items"); gshkl_add_string_to_loop(&l, "o"); t("<xXx @a xXx>\nxXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx"); for (int i = 0; i < 4; i++) { ne = 0; if (i & 1) e("<other>\n(o)"); else { e("<"); e(va); e(">\n(1)("); e(va); e(")"); } renders(i & 1 ? D : C, "each context its own values"); } gshkl_free_context(C); ne = 0; e("<other>\n(o)"); renders(D, "also after the other is freed"); gshkl_free_context(D); CHECK(sym_live() == base, "every block is freed"); sym_reach("two contexts"); break; }
  // ---- T08
  case 10: { // every end of a template behind every beginning
    sctx(); int b = (int)sym_pick(0, NE - 1, "begin"), f = (int)sym_pick(0, NE - 1, "end"); int sep = 0; if (b && EN[b].t[strlen(EN[b].t) - 1] != '\n') sep = 1; t(EN[b].t); e(EN[b].e); if (sep) { te("|\n"); if (strstr(EN[b].t, "SCREAM")) { ne -= 2; } } size_t n0 = ne; t(EN[f].t); e(EN[f].e); size_t drop = EN[f].drop; if (f == 0) drop = b == 0 ? 0 : sep ? (strstr(EN[b].t, "SCREAM") ? 0 : 1) : EN[b].drop; (void)n0; if (b && (b >= 2 && b <= 4) && 0) {} /* an empty line in front of a block belongs to it */ if ((f >= 10 && f <= 20) && ne > n0 - 0 && 0) {} int blk = f >= 10 && f <= 20; if (blk && !sep && b) { size_t bl = strlen(EN[b].t); size_t k = bl; while (k && (EN[b].t[k - 1] == '\n' || EN[b].t[k - 1] == ' ' || EN[b].t[k - 1] == '\t')) k--; int own = b == 2 || b == 28 || b == 4 || (b >= 10 && b <= 20); if (own) sym_stop(); } sized(drop); sym_reach("ends"); free_ctx(C); break; }
  case 11: { // arbitrary text: the final byte decides
    C = gshkl_init_context(); size_t n = sym_pick(0, 4, "n"); char b[8]; text(b, n, "text"); if (n) sym_assume(b[n - 1] != '\r'); tn(b, n); en(b, n); size_t drop = n && b[n - 1] == '\n'; sized(drop); sym_reach("arbitrary"); free_ctx(C); break; }
  case 12: { // memory behind the template is not read: sizes
    static const size_t S[] = {1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 5000}; C = gshkl_init_context(); size_t n = S[sym_pick(0, 23, "n")]; int k = (int)sym_pick(0, 2, "k"); tfill(n, 'q'); char b[4]; text(b, 1, "b"); sym_assume(b[0] != '\r'); T[0] = E[0] = 's'; if (k) { T[n - 1] = E[n - 1] = b[0]; } if (k == 2 && n > 2) T[n / 2] = E[n / 2] = '\n'; size_t drop = k && b[0] == '\n'; if (n == 1 && !k) drop = 0; sized(drop); sym_reach("sizes"); free_ctx(C); break; }
  case 13: { // templates without their terminator: the buffer is exactly as long as the size says, the terminator follows
    C = gshkl_init_context(); gshkl_add_string(C, "a", "A"); static const char *const Q[] = {"", "a", "a\n", "xXx @a xXx", "xXx @a", "xXx LOOP i it xXx", "xXx LOOP", "xXx UNLESS @a xXx", "xXx SCREAM", "XxX f", "xXx BBL xXx", "\n\n", "x", "xX", "xXx", "xXx "}; static const char *const W[] = {"", "a", "a\n", "A", "xXx @a", "xXx LOOP i it xXx", "xXx LOOP", "xXx UNLESS @a xXx", "xXx SCREAM", "XxX f", "xXx BBL xXx", "\n\n", "x", "xX", "xXx", "xXx "}; int k = (int)sym_pick(0, 15, "k"); t(Q[k]); e(W[k]); sized(k == 2 || k == 11); sym_reach("incomplete"); free_ctx(C); break; }
  }
}
