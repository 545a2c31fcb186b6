// D04: hash_string_fnv1a is FNV-1a 64 in upper-case hex for every length.
#include "sym.h"
#include "utils.h"
#include <string.h>
#include <stdlib.h>
static uint64_t ref(const unsigned char *p, size_t n) { uint64_t h = 14695981039346656037ULL; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; } return h; }
static void check(const unsigned char *k, size_t n) {
  char out[HASH_STR_SIZE]; 
  int r = hash_string_fnv1a(k, n, out);
  CHECK(r == 1, "returns 1");
  uint64_t h = ref(k, n); int len = 0; for (uint64_t x = h; x; x >>= 4) len++; if (!len) len = 1;
  char want[17]; for (int i = 0; i < len; i++) want[i] = "0123456789ABCDEF"[(h >> (4 * (len - 1 - i))) & 15]; want[len] = 0;
  CHECK(sym_eq(out, want, len + 1), "output is the upper-case hexadecimal FNV-1a hash, NUL-terminated");
  sym_reach("hash");
}
void main_sym(void) {
  if (sym_arg() == 0) { size_t n = sym_pick(0, 3, "n"); unsigned char *k = malloc(n ? n : 1); sym_bytes(k, n, "key"); check(k, n); free(k); }
  else { static const size_t L[] = {16, 31, 32, 33, 255, 256, 257, 300, 512, 1024, 65536}; size_t n = L[sym_pick(0, 10, "len")]; unsigned char *k = malloc(n); for (size_t i = 0; i < n; i++) k[i] = (unsigned char)(i * 37 + 200); sym_bytes(k + n - 1, 1, "last"); check(k, n); sym_reach("long"); free(k); }
}
