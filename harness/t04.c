// T04: UNLESS and UNLESS NOT.
#include "tmpl.h"
static greshunkel_ctext *C; static char out[8];
enum { UNSET, STR, INT, EMPTY_ARR, ARR, ARR_FALSE, SUB, EMPTY_SUB, NK };
/* adds variable nm of a kind; returns whether it counts as set */
static int add(greshunkel_ctext *c, const char *nm, int kind) { switch (kind) {
  case UNSET: return 0;
  case STR: { char v[8]; size_t n = sym_pick(0, 6, "len"); sym_bytes(v, n, "value"); v[n] = 0; for (size_t i = 0; i < n; i++) sym_assume(v[i] != 0); gshkl_add_string(c, nm, v); int f = n == 5; static const char F[] = "FALSE"; if (f) f = sym_eq(v, F, 5); return n != 0 && !f; }
  case INT: gshkl_add_int(c, nm, sym_pick(0, 1, "int") ? 7 : 0); return 1;
  case EMPTY_ARR: (void)gshkl_add_array(c, nm); return 0;
  case ARR: { greshunkel_var l = gshkl_add_array(c, nm); int n = (int)sym_pick(1, 2, "items"); while (n--) gshkl_add_string_to_loop(&l, "i"); return 1; }
  case ARR_FALSE: { greshunkel_var l = gshkl_add_array(c, nm); gshkl_add_string_to_loop(&l, sym_pick(0, 1, "fi") ? "FALSE" : ""); return 1; }
  case SUB: { greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", "FALSE"); gshkl_add_sub_context(c, nm, s); return 1; }
  default: { greshunkel_ctext *s = gshkl_init_context(); gshkl_add_sub_context(c, nm, s); return 1; } } }
struct body { const char *t, *e; int nl; };    /* nl: ends with a plain line's newline, which only UNLESS keeps */
static const struct body B[] = {{"body", "body", 0}, {"", "", 0}, {"\n<p>body</p>\n", "\n<p>body</p>\n", 1}, {"\n\t<p>body</p>\n\t", "\n\t<p>body</p>\n\t", 0}, {" xXx @out xXx ", " OUT ", 0}, {"xXx @sub.m xXx\nXxX up q XxX XxX up XxX", "inner\n[q] []", 0}, {"\n", "\n", 1}, {"\n  xXx LOOP i items xXx(xXx @i xXx)xXx BBL xXx\nend\n", "(1)(2)\nend\n", 1}, {"a xXx b", "a xXx b", 0}, {"\n\n", "\n\n", 1}, {"line\nline2", "line\nline2", 0}};
#define NB (int)(sizeof B / sizeof *B)
static char ub[8][32]; static int nub; static char *up(const char *a) { char *o = ub[nub++ % 8]; strcpy(o, "["); if (a) strcat(o, a); strcat(o, "]"); return o; }
static void block(const char *lead, int not_, const char *nm, const struct body *b, int set) { t(lead); t(not_ ? "xXx UNLESS NOT @" : "xXx UNLESS @"); t(nm); t(" xXx"); t(b->t); t("xXx ENDLESS xXx"); if (not_ ? set : !set) en(b->e, strlen(b->e) - (size_t)(not_ && b->nl)); }
static const char *const TAIL[] = {"", "\n", "tail", "\ntail\n", "\n\n ", "xXx @out xXx", "xXx ENDLESS xXx"}; static const char *const ETAIL[] = {"", "\n", "tail", "\ntail\n", "\n\n ", "OUT", "xXx ENDLESS xXx"};
static const char *const LEAD[] = {"", "\n", "  ", "\n\t", "\n\n  \n"};
static void ctx(void) { C = gshkl_init_context(); gshkl_add_string(C, "out", "OUT"); gshkl_add_filter(C, "up", up, 0); greshunkel_var l = gshkl_add_array(C, "items"); gshkl_add_int_to_loop(&l, 1); gshkl_add_string_to_loop(&l, "2"); greshunkel_ctext *s = gshkl_init_context(); gshkl_add_string(s, "m", "inner"); gshkl_add_sub_context(C, "sub", s); (void)out; }
void main_sym(void) { reset(); ctx();
  switch (sym_arg()) {
  case 0: { // every value, every body, what is before and behind
    int b = (int)sym_pick(0, NB - 1, "body"), tl = (int)sym_pick(0, 6, "tail"), not_ = (int)sym_pick(0, 1, "not"); int full = b == 0 && tl == 3; int kind = full ? (int)sym_pick(0, NK - 1, "kind") : (int)sym_pick(0, 1, "set") * ARR; int ld = (int)sym_pick(0, 4, "lead"); int set = add(C, "cond", kind); if (kind == STR) set = (int)sym_conc((uint64_t)set); if (sym_pick(0, 1, "head")) te("head\n"); block(LEAD[ld], not_, "cond", &B[b], set); t(TAIL[tl]); e(ETAIL[tl]); renders(C, not_ ? "UNLESS NOT renders its body exactly if the variable is set" : "UNLESS renders its body exactly if the variable is not set"); sym_reach(set ? "set" : "not set"); break; }
  case 1: { // exactly one of the two; several blocks behind each other
    int kind = (int)sym_pick(0, NK - 1, "kind"), order = (int)sym_pick(0, 1, "order"), k = (int)sym_pick(0, 2, "k"); int set = add(C, "c", kind); if (kind == STR) set = (int)sym_conc((uint64_t)set); static const struct body Y = {"yes", "yes", 0}, N = {"no\nno", "no\nno", 0}; te("s\n"); block("", order, "c", &Y, set); t(k == 0 ? "" : k == 1 ? "\n" : "\n \n"); block("", !order, "c", &N, set); t("\n"); block("", order, "c", &N, set); te("!"); renders(C, "exactly one of UNLESS and UNLESS NOT renders its body"); sym_reach("both"); break; }
  case 2: { // names: letters; similar names
    static const char *const N[] = {"a", "A", "ab", "aab", "NOT", "b", "abc", "NOTa", "a_"}; int n1 = (int)sym_pick(0, 8, "n1"), n2 = (int)sym_pick(0, 8, "n2"), not_ = (int)sym_pick(0, 1, "not"); if (n1 == n2) sym_stop(); gshkl_add_string(C, N[n1], "yes"); if (sym_pick(0, 1, "second")) { gshkl_add_string(C, N[n2], "FALSE"); } te("-\n"); block("", not_, N[n1], &B[0], 1); te("."); t("\n"); e("\n"); block("", not_, N[n2], &B[0], 0); te("."); ne = 0; /* rebuilt below: a line end in front of a block belongs to it only on an empty line */ e("-\n"); if (not_) e("body"); e(".\n"); if (!not_) e("body"); e("."); renders(C, "the variable of exactly that name"); sym_reach("names"); break; }
  case 3: { // long names and long bodies
    size_t n = sym_pick(29, 40, "n"); char l[48]; memset(l, 'n', n); l[n] = 0; gshkl_add_string(C, l, sym_pick(0, 1, "false") ? "FALSE" : "TRUE"); char s[48]; memcpy(s, l, 48); if (n > 31) s[31] = 0; int set = 1; { greshunkel_tuple *u = vector_get(C->values, C->values->count - 1); set = u->value.str[0] == 'T'; } static const size_t S[] = {10, 255, 511, 512, 1024, 4000}; size_t bl = S[sym_pick(0, 5, "bl")]; char *b = malloc(bl + 1); memset(b, 'B', bl); b[bl] = 0; char x[4]; text(x, 1, "x"); b[bl / 2] = x[0]; struct body bb = {b, b, 0}; block("", (int)sym_pick(0, 1, "not"), s, &bb, set); te("\nend"); renders(C, "long names and bodies"); free(b); sym_reach("long"); break; }
  case 4: { // in loops, with the loop variable or outer variables; in bodies of arbitrary bytes
    int kind = (int)sym_pick(0, NK - 1, "kind"); int set = add(C, "c", kind); if (kind == STR) set = (int)sym_conc((uint64_t)set); int not_ = (int)sym_pick(0, 1, "not"); char b[4]; text(b, 1, "b"); sym_assume((b[0] != '\n') & (b[0] != '\r')); t("xXx LOOP i items xXx<xXx @i xXx\n"); t(not_ ? "xXx UNLESS NOT @c xXx" : "xXx UNLESS @c xXx"); tn(b, 1); t("xXx @i xXxxXx ENDLESS xXx>xXx BBL xXx"); for (int i = 1; i <= 2; i++) { char d[2] = {(char)('0' + i), 0}; e("<"); e(d); e("\n"); if (not_ ? set : !set) { en(b, 1); e(d); } e(">"); } te("\n"); renders(C, "conditions in loops"); sym_reach("in loops"); break; }
  case 5: { // arbitrary text in the body and behind the block
    int not_ = (int)sym_pick(0, 1, "not"), set = (int)sym_pick(0, 1, "set"); char b[4], a[4]; size_t n = sym_pick(0, 2, "n"), m = sym_pick(0, 2, "m"); text(b, n, "body"); text(a, m, "after"); if (n) sym_assume((b[n - 1] != '\n') & (b[n - 1] != '\r')); if (set) gshkl_add_string(C, "c", "1"); struct body bb = {b, b, 0}; block("", not_, "c", &bb, set); tn(a, m); en(a, m); renders(C, "the body as it is, the text behind it as it is"); sym_reach("arbitrary"); break; }
  }
  free_ctx(C);
}
