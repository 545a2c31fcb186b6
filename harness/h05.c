// H05: URL decoding.
#include "sym.h"
#include "utils.h"
#include <string.h>
#include <stdlib.h>
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// reference: -1 or the number of decoded bytes (without terminator)
static long ref(const unsigned char *s, size_t n, unsigned char *out) { size_t o = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '+') out[o++] = ' '; else if (s[i] == '%') { if (i + 2 >= n) return -1; int h = hexv(s[i + 1]), l = hexv(s[i + 2]); if (h < 0 || l < 0) return -1; out[o++] = (unsigned char)(h * 16 + l); i += 2; } else out[o++] = s[i]; } return (long)o; }
static void chk(const unsigned char *s, size_t n) {
  unsigned char *in = malloc(n + 1), *want = malloc(n + 1), *got = malloc(n + 1); memcpy(in, s, n); in[n] = 0; long w = ref(s, n, want);
  int r = m38_url_decode((char *)in, (char *)got);
  if (w < 0) { CHECK(r == -1, "a malformed escape is rejected with -1"); sym_reach("rejected"); }
  else { CHECK(r == w + 1, "the decoded length including the terminator is returned"); CHECK(sym_init(got, w + 1) && sym_eq(got, want, w) && got[w] == 0, "the decoded bytes and their terminator are written"); sym_reach("decoded"); }
  CHECK(sym_eq(in, s, n), "the input is left alone");
  free(in); free(want); free(got);
}
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { unsigned char s[16]; size_t n = sym_pick(0, 
#ifdef THOROUGH
    9
#else
    7
#endif
    , "n"); sym_bytes(s, n, "s"); for (size_t i = 0; i < n; i++) sym_assume(s[i] != 0); chk(s, n); break; }
  case 1: { // every byte value as an escape, either case; surrounded
    unsigned char s[8]; memcpy(s, "a%00b", 5); sym_bytes(s + 2, 2, "hex"); int e = (hexv(s[2]) >= 0) & (hexv(s[3]) >= 0); sym_assume(e); chk(s, 5); sym_reach("escape"); break; }
  case 2: { // long inputs
    static const size_t L[] = {31, 32, 127, 128, 255, 256, 257, 300, 512, 1023, 1024, 2000}; size_t n = L[sym_pick(0, 11, "len")]; static unsigned char s[2048]; memset(s, 'a', n); int k = (int)sym_pick(0, 3, "kind");
    if (k == 0) for (size_t i = 0; i < n; i += 7) s[i] = '+'; else if (k == 1) { for (size_t i = 0; i + 3 <= n; i += 3) memcpy(s + i, "%4a", 3); }
    size_t p = k == 3 ? n - 3 : k == 2 ? n / 2 : n - 1; size_t w = k == 3 ? 3 : 1; sym_bytes(s + p, w, "b"); for (size_t i = 0; i < w; i++) sym_assume(s[p + i] != 0); chk(s, n); sym_reach("long"); break; }
  }
}
