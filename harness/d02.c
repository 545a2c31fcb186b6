// D02: sparse arrays store and return per-index values. D06 (arg >= 10): allocation failures.
#include "sym.h"
#include "simple_sparsehash.h"
#include <string.h>
#include <stdlib.h>
#define ES 12
static struct { uint32_t i; size_t sz; unsigned char b[ES + 1]; int on; } log_[80]; static int nl;
// what index j should read back: the last accepted set
static void check_get(struct sparse_array *a, uint32_t j, uint32_t max) {
  size_t out = 777; const unsigned char *p = sparse_array_get(a, j, &out);
  int hit = -1; if (j < max) for (int k = nl - 1; k >= 0 && hit < 0; k--) if (log_[k].on && log_[k].i == j) hit = k;
  if (hit < 0 || log_[hit].sz == 0) { CHECK(p == 0, "an index that was never set (or set to nothing, or at or beyond the maximum) reads as empty"); sym_reach("empty"); }
  else { CHECK(p != 0, "a set index reads back"); CHECK(out == log_[hit].sz, "the stored size is returned"); CHECK(sym_eq(p, log_[hit].b, log_[hit].sz), "the stored value is returned"); CHECK(sparse_array_get(a, j, 0) == p, "size output is optional"); sym_reach("found"); }
}
static int do_set(struct sparse_array *a, uint32_t i, size_t sz, uint32_t max) {
  unsigned char *v = malloc(sz ? sz : 1); sym_bytes(v, sz, "val"); int r = sparse_array_set(a, i, v, sz);
  if (i >= max || sz > ES) CHECK(r == 0, "out-of-range index or oversized value is refused"); 
  if (r) { log_[nl].i = i; log_[nl].sz = sz; memcpy(log_[nl].b, v, sz); log_[nl].on = 1; nl++; }
  memset(v, 0x77, sz ? sz : 1); free(v); return r;
}
void main_sym(void) {
  nl = 0;
  static const uint32_t MX[] = {1, 2, 31, 32, 33, 47, 48, 49, 95, 96, 97, 100, 150};
  switch (sym_arg()) {
  case 0: { // arbitrary indices: one value stored, then an arbitrary other one (index or size class), then an arbitrary read
    static const uint32_t M0[] = {1, 32, 47, 48, 49, 97}; uint32_t max = M0[sym_pick(0, 5, "max")]; struct sparse_array *a = sparse_array_init(ES, max); CHECK(a != 0, "created");
    size_t sz = sym_pick(0, 2, "sz"); sz = sz == 0 ? 5 : sz == 1 ? ES : 0; uint32_t i = (uint32_t)sym_num(0, 0xffffffffu, "i"); int ok = i < max; int r = do_set(a, i, sz, max); if (ok) CHECK(r == 1, "set succeeds below the maximum");
#ifdef THOROUGH
    i = (uint32_t)sym_num(0, 0xffffffffu, "i"); ok = i < max; r = do_set(a, i, ES, max); if (ok) CHECK(r == 1, "set succeeds below the maximum");
#endif
   
    uint32_t j = (uint32_t)sym_num(0, 0xffffffffu, "j"); check_get(a, j, max);
    sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("array"); break; }
  case 4: { // any index of 32 bits at or beyond the maximum
    uint32_t max = MX[sym_pick(0, 12, "max")]; struct sparse_array *a = sparse_array_init(ES, max); do_set(a, max - 1, ES, max); uint32_t i = (uint32_t)sym_num(0, 0xffffffffu, "i"); sym_assume(i >= max); unsigned char v[ES]; memset(v, 1, ES); CHECK(sparse_array_set(a, i, v, ES) == 0, "an index at or beyond the maximum is refused"); CHECK(sparse_array_get(a, i, 0) == 0, "an index at or beyond the maximum reads as empty"); check_get(a, max - 1, max);
    sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("out of range"); break; }
  case 1: { // the bit position classes around the 32-bit chunk and group boundaries, several sets with moves
    static const uint32_t IX[] = {0, 1, 30, 31, 32, 33, 46, 47, 48, 49, 79, 80, 95, 96}; uint32_t max = 97; struct sparse_array *a = sparse_array_init(ES, max);
    for (int q = 0; q < 3; q++) { uint32_t i = IX[sym_pick(0, 13, "i")]; size_t sz = q == 1 ? sym_pick(0, 1, "z") * 7 : ES; CHECK(do_set(a, i, sz, max) == 1, "set succeeds below the maximum"); }
    for (uint32_t j = 0; j < 99; j++) check_get(a, j, max);
    sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("boundaries"); break; }
  case 2: { // filling every index in an order given by a multiplier, then overwriting one
    uint32_t max = MX[sym_pick(3, 11, "max")]; if (max > 50) max = 50; static const uint32_t ST[] = {1, 7, 13, 49}; uint32_t st = ST[sym_pick(0, 3, "stride")]; struct sparse_array *a = sparse_array_init(ES, max);
    for (uint32_t q = 0; q < max; q++) { uint32_t i = st == 49 ? max - 1 - q : (uint32_t)(q * st % max); do_set(a, i, 1 + q % ES, max); }
    do_set(a, (uint32_t)sym_pick(0, 3, "ow") * 10, ES, max); for (uint32_t j = 0; j < max + 2; j++) check_get(a, j, max);
    sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("full"); break; }
  case 3: { // oversized values
    struct sparse_array *a = sparse_array_init(ES, 48); uint32_t i = (uint32_t)sym_num(0, 60, "i"), i2 = (uint32_t)sym_num(0, 60, "i2"); do_set(a, i, 6, 48); size_t c = nl; CHECK(do_set(a, i2, ES + 1, 48) == 0, "an oversized value is refused"); CHECK(nl == (int)c, "refused"); uint32_t j = (uint32_t)sym_num(0, 60, "j"); check_get(a, j, 48); sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); sym_reach("oversized"); break; }
  case 10: { uint32_t max = 60; struct sparse_array *a = sparse_array_init(ES, max); static const uint32_t IX[] = {5, 3, 31, 47, 48, 3, 40}; sym_fail_at(sym_pick(0, 14, "fail")); int failed = 0;
    for (int q = 0; q < 7; q++) { int before = nl; unsigned char v[ES]; sym_bytes(v, ES, "val"); int r = sparse_array_set(a, IX[q], v, ES); if (r) { log_[nl].i = IX[q]; log_[nl].sz = ES; memcpy(log_[nl].b, v, ES); log_[nl].on = 1; nl++; } else { CHECK(!failed, "only the call whose allocation failed reports failure"); failed = 1; sym_reach("array set refused"); } (void)before; for (uint32_t j = 0; j < max; j += 1) check_get(a, j, max); }
    sym_fail_at(-1); CHECK(do_set(a, 17, ES, max) == 1, "later operations work"); for (uint32_t j = 0; j < max; j++) check_get(a, j, max); sparse_array_free(a); CHECK(sym_live() == 0, "freeing releases everything"); break; }
  }
}
