// D03: the dictionary is a map. D06 (arg >= 20): allocation failures.
#include "sym.h"
#include "simple_sparsehash.h"
#include "vector.h"
#include <string.h>
#include <stdlib.h>
#ifdef THOROUGH
#define NKEYS 3
#else
#define NKEYS 2
#endif
// reference map: association list, newest first wins
static struct { const char *k; size_t kl; const unsigned char *v; size_t vl; } ref[200]; static int nr;
static void note(const char *k, size_t kl, const void *v, size_t vl) { char *kc = malloc(kl + 1); unsigned char *vc = malloc(vl + 1); memcpy(kc, k, kl); memcpy(vc, v, vl); ref[nr].k = kc; ref[nr].kl = kl; ref[nr].v = vc; ref[nr].vl = vl; nr++; }
static void forget(void) { for (int i = 0; i < nr; i++) { free((void *)ref[i].k); free((void *)ref[i].v); } nr = 0; }
static int eqk(const char *a, size_t al, const char *b, size_t bl) { return al == bl && (al == 0 || sym_eq(a, b, al)); }
static void check(struct sparse_dict *d, const char *k, size_t kl) {
  size_t out = 999; int hit = -1; for (int i = nr - 1; i >= 0 && hit < 0; i--) if (eqk(ref[i].k, ref[i].kl, k, kl)) hit = i;
  char *kc = malloc(kl ? kl : 1); memcpy(kc, k, kl); unsigned char *v = sparse_dict_get(d, kc, kl, &out);
  if (hit < 0) { CHECK(v == 0, "a key that was never set is not found"); sym_reach("absent"); }
  else { CHECK(v != 0, "a key that was set is found"); CHECK(out == ref[hit].vl, "the stored size is returned"); CHECK(!ref[hit].vl || (sym_valid(v, ref[hit].vl) && sym_eq(v, ref[hit].v, ref[hit].vl)), "the value stored last is returned"); CHECK(sparse_dict_get(d, kc, kl, 0) == v, "the size output is optional"); sym_reach("present"); }
  free(kc);
}
// sets through short-lived copies: the dictionary must have copied key and value
static int put(struct sparse_dict *d, const char *k, size_t kl, const void *v, size_t vl) {
  char *kc = malloc(kl ? kl : 1); unsigned char *vc = malloc(vl ? vl : 1); memcpy(kc, k, kl); memcpy(vc, v, vl);
  int r = sparse_dict_set(d, kc, kl, vc, vl); memset(kc, 0x55, kl ? kl : 1); memset(vc, 0x66, vl ? vl : 1); free(kc); free(vc); return r; }
static void set(struct sparse_dict *d, const char *k, size_t kl, const void *v, size_t vl) { CHECK(put(d, k, kl, v, vl) == 1, "setting never fails while memory lasts"); note(k, kl, v, vl); }
static void done(struct sparse_dict *d) { forget(); CHECK(sparse_dict_free(d) == 1, "freed"); CHECK(sym_live() == 0, "freeing releases everything exactly once"); }
static uint64_t fnv(const char *k, size_t n) { uint64_t h = 14695981039346656037ULL; for (size_t i = 0; i < n; i++) { h ^= (unsigned char)k[i]; h *= 1099511628211ULL; } return h; }
static size_t name(char *b, unsigned n, char p) { size_t l = 0; b[l++] = p; if (n >= 100) b[l++] = '0' + n / 100; if (n >= 10) b[l++] = '0' + n / 10 % 10; b[l++] = '0' + n % 10; return l; }
void main_sym(void) {
  nr = 0; static unsigned char val[600]; static char key[600];
  struct sparse_dict *d = sparse_dict_init(); CHECK(d != 0, "created");
  switch (sym_arg()) {
  case 0: { // arbitrary one-byte keys, then an arbitrary lookup
    char k[4]; sym_bytes(k, 4, "keys"); unsigned char v[3]; sym_bytes(v, 3, "vals"); int n = (int)sym_pick(1, NKEYS, "n"); if (n > 1) for (int i = 0; i < 4; i++) sym_assume((unsigned char)k[i] >= 'a' && (unsigned char)k[i] < 'a' + 8);
    for (int i = 0; i < n; i++) set(d, k + i, 1, v + i, 1); check(d, k + 3, 1); for (int i = 0; i < n; i++) check(d, k + i, 1); done(d); sym_reach("arbitrary keys"); break; }
  case 1: { // keys whose hashes agree in their low bits, more of them than an incomplete probe sequence could place
    unsigned bits = (unsigned)sym_pick(5, 6, "bits"), m = (1u << bits) - 1; unsigned want = (unsigned)sym_pick(0, 2, "slot") * 15; int n = 0; char kn[24][8]; size_t kl[24]; int max = (int)sym_pick(12, 22, "n");
    for (unsigned x = 0; n < max; x++) { char b[8]; size_t l = name(b, x % 1000, (char)('a' + x / 1000)); if ((fnv(b, l) & m) == (want & m)) { memcpy(kn[n], b, l); kl[n++] = l; } }
    unsigned char v[24]; sym_bytes(v, 24, "vals"); for (int i = 0; i < n - 1; i++) set(d, kn[i], kl[i], v + i, 1); check(d, kn[n - 1], kl[n - 1]); for (int i = 0; i < n; i++) check(d, kn[i], kl[i]);
    set(d, kn[0], kl[0], "xx", 2); set(d, kn[5], kl[5], "yy", 2); for (int i = 0; i < n; i++) check(d, kn[i], kl[i]); done(d); sym_reach("collisions"); break; }
  case 2: { // growth (several times), with overwriting before and after
    static const int N[] = {24, 25, 26, 27, 33, 51, 52, 53, 70, 110}; int n = N[sym_pick(0, 9, "n")]; int ow = (int)sym_pick(0, 2, "overwrite"); unsigned char v[128]; sym_bytes(v, 128, "vals"); char b[8];
    for (int i = 0; i < n; i++) { size_t l = name(b, i, 'k'); set(d, b, l, v + i, 1 + i % 3); if (ow == 1 && i % 7 == 3) { l = name(b, i / 2, 'k'); set(d, b, l, v + 2 * (i % 50), 5); } }
    if (ow == 2) for (int i = 0; i < n; i += 5) { size_t l = name(b, i, 'k'); set(d, b, l, v + i / 2, 9); }
    for (int i = 0; i < n + 3; i++) { size_t l = name(b, i, 'k'); check(d, b, l); } for (int i = 0; i < n; i += 9) { size_t l = name(b, i, 'z'); check(d, b, l); } done(d); sym_reach("growth"); break; }
  case 3: { // keys that are prefixes of each other, contain NUL, are empty; values empty or large
    static const struct { const char *k; size_t l; } K[] = {{"", 0}, {"a", 1}, {"ab", 2}, {"abc", 3}, {"a\0", 2}, {"a\0b", 3}, {"a\0c", 3}, {"\0", 1}, {"\0\0", 2}, {"ab\0", 3}, {"AB", 2}, {"\xff", 1}, {"\xff\xfe", 2}};
    unsigned a = (unsigned)sym_pick(0, 12, "a"), b = (unsigned)sym_pick(0, 12, "b"); static const size_t VL[] = {0, 1, 8, 255, 256, 257, 512}; size_t vl = VL[sym_pick(0, 6, "vlen")]; sym_bytes(val, vl, "val");
    set(d, K[a].k, K[a].l, val, vl); set(d, K[b].k, K[b].l, "second", 6); for (unsigned i = 0; i < 13; i++) check(d, K[i].k, K[i].l); set(d, K[a].k, K[a].l, val, vl); for (unsigned i = 0; i < 13; i++) check(d, K[i].k, K[i].l); done(d); sym_reach("odd keys"); break; }
  case 4: { // long keys differing in one byte or in length
    static const size_t KL[] = {31, 32, 254, 255, 256, 257, 300, 512}; size_t kl = KL[sym_pick(0, 7, "klen")]; memset(key, 'k', sizeof key); static char k2[600]; memset(k2, 'k', sizeof k2); size_t pos = sym_pick(0, 2, "pos"); pos = pos == 0 ? 0 : pos == 1 ? kl / 2 : kl - 1;
    k2[pos] = 'l'; sym_bytes(val, 3, "val"); set(d, key, kl, val, 3); check(d, k2, kl); check(d, key, kl - 1); check(d, key, kl + 1); set(d, k2, kl, "other", 5); check(d, key, kl); check(d, k2, kl); check(d, key, kl - 1); set(d, key, kl, "again", 5); check(d, key, kl); check(d, k2, kl); done(d); sym_reach("long keys"); break; }
  case 5: { // two different keys with the same 64-bit hash
    int pair = (int)sym_pick(0, 1, "pair"); size_t L = pair ? 11 : 20; const char *A = pair ? "\000\103\065\153\160\135\054\063\074\051\000" : "8yn0iYCKYHlIj4-BwPqk", *B = pair ? "\000\127\056\141\035\102\025\111\141\003\001" : "GReLUrM4wMqfg9yzV3KQ"; CHECK(fnv(A, L) == fnv(B, L), "the two keys have the same hash"); unsigned char v[4]; sym_bytes(v, 4, "vals"); int o = (int)sym_pick(0, 1, "order");
    set(d, o ? A : B, L, v, 2); check(d, o ? B : A, L); set(d, o ? B : A, L, v + 2, 2); check(d, A, L); check(d, B, L); set(d, A, L, "zz", 2); check(d, A, L); check(d, B, L); done(d); sym_reach("same hash"); break; }
  case 6: { // an arbitrary short history over four keys
    static const char *K[] = {"p", "q", "pq", "r"}; int n = (int)sym_pick(1, 4, "n"); for (int i = 0; i < n; i++) { unsigned k = (unsigned)sym_pick(0, 3, "key"); size_t vl = sym_pick(0, 1, "w") * 4; sym_bytes(val, vl, "val"); set(d, K[k], strlen(K[k]), val, vl); } for (int i = 0; i < 4; i++) check(d, K[i], strlen(K[i])); done(d); sym_reach("histories"); break; }
  case 7: { // key and value bytes that live inside the dictionary itself: the value a lookup returned is stored again, under the same key, another one, or as a key
    static const int N[] = {1, 2, 20, 24, 25, 26, 51, 52}; int n = N[sym_pick(0, 7, "n")]; unsigned char v[64]; sym_bytes(v, 64, "vals"); int k = (int)sym_pick(0, 3, "k"); if (k == 2) memcpy(v + n / 2, "cdefgh", 6); char b[8]; for (int i = 0; i < n; i++) { size_t l = name(b, i, 'k'); set(d, b, l, v + i, 6); }
    size_t l = name(b, n / 2, 'k'), out = 0; unsigned char *p = sparse_dict_get(d, b, l, &out); CHECK(p != 0 && out == 6, "found"); size_t off = sym_pick(0, 2, "off"), vl = sym_pick(1, 4, "len"); unsigned char copy[8]; memcpy(copy, p + off, vl);
    if (k == 0) { CHECK(sparse_dict_set(d, b, l, p + off, vl) == 1, "setting never fails while memory lasts"); note(b, l, copy, vl); } else if (k == 1) { CHECK(sparse_dict_set(d, "new", 3, p + off, vl) == 1, "setting never fails while memory lasts"); note("new", 3, copy, vl); } else if (k == 2) { CHECK(sparse_dict_set(d, p + off, vl, "value", 5) == 1, "setting never fails while memory lasts"); note((char *)copy, vl, "value", 5); } else { CHECK(sparse_dict_set(d, b, l, p, out) == 1, "setting never fails while memory lasts"); }
    for (int i = 0; i < n + 2; i++) { l = name(b, i, 'k'); check(d, b, l); } check(d, "new", 3); if (k == 2) check(d, (char *)copy, vl); done(d); sym_reach("own values"); break; }
  case 20: { // D06: the f-th allocation of a sequence of sets (with growth and overwriting) fails
    int n = 30; unsigned char v[40]; sym_bytes(v, 40, "vals"); char b[8]; int f = (int)sym_pick(0, 75, "fail"); int failed = 0; const char *fk = 0; char fkb[8]; size_t fkl = 0;
    for (int i = 0; i < n; i++) { size_t l = i % 6 == 5 ? name(b, i / 2, 'k') : name(b, i, 'k'); // one failure overall
      if (f >= 0) { uint64_t n0 = sym_nalloc(); sym_fail_at(f); int r = sparse_dict_set(d, b, l, v + i, 2); f -= (int)(sym_nalloc() - n0); sym_fail_at(-1);
        if (r) note(b, l, v + i, 2); else { CHECK(!failed && f < 0, "only the call whose allocation failed reports failure"); failed = 1; sym_reach("dict set refused"); memcpy(fkb, b, l); fk = fkb; fkl = l; 
          for (int j = 0; j < nr; j++) if (!eqk(ref[j].k, ref[j].kl, fk, fkl)) check(d, ref[j].k, ref[j].kl);
          int had = 0; for (int j = 0; j < nr; j++) if (eqk(ref[j].k, ref[j].kl, fk, fkl)) had = 1; if (had) check(d, fk, fkl);
          set(d, fk, fkl, "re", 2); check(d, fk, fkl); } }
      else set(d, b, l, v + i, 2); }
    for (int i = 0; i < n + 2; i++) { size_t l = name(b, i, 'k'); check(d, b, l); } done(d); break; }
  case 21: { // D06: containers that cannot be made
    int what = (int)sym_pick(0, 2, "what"), f = (int)sym_pick(0, 4, "fail"); uint64_t b = sym_live(); sym_fail_at(f); void *p = what == 0 ? (void *)vector_new(8, sym_pick(0, 3, "cap")) : what == 1 ? (void *)sparse_array_init(16, 60) : (void *)sparse_dict_init(); int64_t left = sym_fail_at(-1); CHECK((p == 0) == (left < 0), "a container that cannot be made is NULL"); if (!p) sym_reach("creation refused"); else if (what == 0) { uint64_t v = 7; CHECK(vector_append(p, &v, 8) == 1, "works"); vector_free(p); } else if (what == 1) { CHECK(sparse_array_set(p, 3, "abc", 3) == 1, "works"); sparse_array_free(p); } else { CHECK(sparse_dict_set(p, "k", 1, "abc", 3) == 1, "works"); sparse_dict_free(p); } CHECK(sym_live() == b, "nothing is left behind"); break; }
  }
}
