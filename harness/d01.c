// D01: vectors are growable arrays. D06 (arg >= 10): allocation failures while growing.
#include "sym.h"
#include "vector.h"
#include <string.h>
#include <stdlib.h>
#define MAXN 80
static unsigned char model[MAXN][40]; static size_t msz[MAXN]; static size_t n;
static void check(vector *v) {
  CHECK(v->count == n, "count is the number of appended items");
  for (size_t i = 0; i < n; i++) { const void *p = vector_get(v, i); CHECK(p != 0, "every appended item is found"); CHECK(sym_eq(p, model[i], msz[i]), "item i is the i-th appended item"); }
  unsigned idx = (unsigned)sym_num(0, 0xffffffffu, "idx"); const void *p = vector_get(v, idx);
  CHECK((p != 0) == (idx < n), "an index from the count on gives nothing");
}
static int app(vector *v, size_t isz, size_t sz, int null) {
  unsigned char *it = malloc(sz ? sz : 1); sym_bytes(it, sz, "item"); 
  int r = vector_append(v, null ? 0 : it, sz);
  if (sz > isz) CHECK(r == 0, "an oversized item is refused");
  else if (r) { msz[n] = null ? isz : sz; if (null) memset(model[n], 0, isz); else memcpy(model[n], it, sz); if (sz == 0) { msz[n] = isz; memset(model[n], 0, isz); } n++; }
  if (it) { memset(it, 0x5a, sz); free(it); } /* the vector must have copied it */
  return r;
}
void main_sym(void) {
  static const size_t ISZ[] = {1, 4, 8, 24, 40};
  n = 0;
  switch (sym_arg()) {
  case 0: { size_t isz = ISZ[sym_pick(0, 4, "isz")], cap = sym_pick(0, 3, "cap"); vector *v = vector_new(isz, cap); CHECK(v != 0, "created"); check(v);
    size_t k = sym_pick(0, 7, "k"); for (size_t i = 0; i < k; i++) { int r = app(v, isz, isz, 0); CHECK(r == 1, "append succeeds"); } check(v);
    if (app(v, isz, isz + 1, 0)) CHECK(0, "an oversized item is refused"); check(v);
    int r = vector_reverse(v); CHECK(r == 1, "reverse succeeds"); for (size_t i = 0; i < n / 2; i++) { unsigned char t[40]; memcpy(t, model[i], 40); memcpy(model[i], model[n - 1 - i], 40); memcpy(model[n - 1 - i], t, 40); } check(v);
    app(v, isz, isz, 0); check(v); CHECK(n == k + 1, "append after reverse");
    vector_free(v); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("array"); break; }
  case 1: { // mixed item sizes, NULL items
    size_t isz = 8, cap = sym_pick(0, 2, "cap"); vector *v = vector_new(isz, cap); size_t k = sym_pick(1, 4, "k");
    for (size_t i = 0; i < k; i++) { switch (sym_pick(0, 6, "op")) { case 5: CHECK(vector_append(v, 0, 8) == 1, "nothing to copy: appended"); msz[n++] = 0; break; case 6: CHECK(vector_append(v, "", 0) == 1, "no bytes: appended"); msz[n++] = 0; break; case 0: CHECK(app(v, isz, 8, 0) == 1, "append succeeds"); break; case 1: CHECK(app(v, isz, sym_pick(1, 7, "sz"), 0) == 1, "append succeeds"); break; case 2: CHECK(app(v, isz, 0, 1) == 1, "append succeeds"); break; case 3: app(v, isz, 9, 0); break;
        case 4: { void *p; sym_bytes(&p, 8, "ptr"); CHECK(vector_append_ptr(v, p) == 1, "append_ptr succeeds"); memcpy(model[n], &p, 8); msz[n] = 8; n++; break; } } }
    check(v); vector_free(v); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("mixed"); break; }
  case 2: { // many items across several growth steps
    static const size_t CAP[] = {0, 1, 2, 4, 8, 16, 32, 33}; size_t cap = CAP[sym_pick(0, 7, "cap")], isz = sym_pick(0, 1, "w") ? 8 : 3; int ptr = isz == 8 && sym_pick(0, 1, "ptr"); vector *v = vector_new(isz, cap);
    size_t k = 70; for (size_t i = 0; i < k; i++) { if (ptr && i % 3) { void *p; sym_bytes(&p, 8, "ptr"); CHECK(vector_append_ptr(v, p) == 1, "append_ptr succeeds"); memcpy(model[n], &p, 8); msz[n] = 8; n++; } else CHECK(app(v, isz, isz, 0) == 1, "append succeeds"); }
    check(v); CHECK(vector_reverse(v) == 1, "reverse"); for (size_t i = 0; i < n / 2; i++) { unsigned char t[40]; memcpy(t, model[i], 40); memcpy(model[i], model[n - 1 - i], 40); memcpy(model[n - 1 - i], t, 40); } check(v);
    vector_free(v); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("many"); break; }
  case 3: { // reversing any number of items of any width up to 8
    size_t isz = sym_pick(1, 8, "isz"), k = sym_pick(0, 9, "k"); vector *v = vector_new(isz, 2); for (size_t i = 0; i < k; i++) app(v, isz, isz, 0); CHECK(n == k, "append succeeds"); vector_reverse(v); for (size_t i = 0; i < n / 2; i++) { unsigned char t[40]; memcpy(t, model[i], 40); memcpy(model[i], model[n - 1 - i], 40); memcpy(model[n - 1 - i], t, 40); } check(v); vector_free(v);
    CHECK(vector_append(0, "x", 1) == 0 && vector_get(0, 0) == 0, "no vector: refused"); vector_free(0); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("reverse"); break; }
  case 10: { // D06: one allocation fails while growing
    size_t isz = 8, cap = sym_pick(1, 4, "cap"), k = sym_pick(1, 9, "k"), f = sym_pick(0, 4, "fail"); int ptr = sym_pick(0, 1, "ptr"); vector *v = vector_new(isz, cap); int failed = 0;
    static unsigned char it[9][8]; sym_bytes(it, sizeof it, "items"); sym_fail_at(f);
    for (size_t i = 0; i < k; i++) { void *p; memcpy(&p, it[i], 8); int r = ptr ? vector_append_ptr(v, p) : vector_append(v, it[i], 8); if (r) { memcpy(model[n], it[i], 8); msz[n++] = 8; } else { CHECK(!failed, "only the call whose allocation failed reports failure"); failed = 1; sym_reach("growth refused"); check(v); } }
    int r = vector_reverse(v); if (!r) { CHECK(!failed, "one failure"); failed = 1; sym_reach("reverse refused"); check(v); sym_fail_at(-1); r = vector_reverse(v); CHECK(r == 1, "later operations work"); }
    for (size_t i = 0; i < n / 2; i++) { unsigned char t[40]; memcpy(t, model[i], 40); memcpy(model[i], model[n - 1 - i], 40); memcpy(model[n - 1 - i], t, 40); }
    sym_fail_at(-1); check(v); size_t before = n; for (int i = 0; i < 4; i++) CHECK(app(v, isz, 8, 0) == 1, "later operations work"); CHECK(n == before + 4, "appended"); check(v); vector_free(v); CHECK(sym_live() == 0, "freeing releases everything"); break; }
  }
}
