// H04: form bodies.
#include "sym.h"
#include "parse.h"
#include "simple_sparsehash.h"
#include <string.h>
#include <stdlib.h>
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static long dec(const unsigned char *s, size_t n, unsigned char *out) { size_t o = 0; for (size_t i = 0; i < n; i++) { if (s[i] == '+') out[o++] = ' '; else if (s[i] == '%') { if (i + 2 >= n) return -1; int h = hexv(s[i + 1]), l = hexv(s[i + 2]); if (h < 0 || l < 0) return -1; out[o++] = (unsigned char)(h * 16 + l); i += 2; } else out[o++] = s[i]; } return (long)o; }
struct fld { const unsigned char *k; size_t kl; unsigned char *v; size_t vl; int known; }; static struct fld f[1200]; static int nf; static unsigned char store[300000]; static size_t used;
static unsigned char body0[300000];
// fills the expected fields: last write wins; a value with an encoded NUL leaves the field's value unspecified
static void expect(const unsigned char *b, size_t n) { nf = 0; used = 0; size_t i = 0; while (i <= n) { size_t e = i; while (e < n && b[e] != '&') e++; size_t q = i; while (q < e && b[q] != '=') q++;
    if (q < e) { long l = dec(b + q + 1, e - q - 1, store + used); if (l >= 0) { int nul = 0; for (long j = 0; j < l; j++) nul |= store[used + j] == 0; int h = -1; for (int j = 0; j < nf; j++) if (f[j].kl == q - i && sym_eq(f[j].k, b + i, q - i)) h = j; if (h < 0) { h = nf++; f[h].k = b + i; f[h].kl = q - i; } f[h].v = store + used; f[h].vl = (size_t)l; f[h].known = !nul; used += (size_t)l + 1; } }
    i = e + 1; } }
static void absent(struct sparse_dict *d, const char *k, size_t kl) { for (int j = 0; j < nf; j++) if (f[j].kl == kl && (kl == 0 || sym_eq(f[j].k, k, kl))) return; size_t o = 0; CHECK(sparse_dict_get(d, k, kl, &o) == 0, "a name that was not submitted is not found"); sym_reach("absent"); }
static void chk(const unsigned char *b, size_t n, int slack) {
  memcpy(body0, b, n); expect(body0, n); m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r); r->full_body = malloc(n + 1 + (size_t)slack); memcpy(r->full_body, b, n); r->full_body[n] = 0; r->body_len = n; unsigned char *fb = r->full_body;
  int rc = m38_parse_form_encoded_body(r); CHECK(rc == 0, "a form is always parsed"); CHECK(r->form_elements != 0, "the fields are made available");
  CHECK(r->full_body == fb && r->body_len == n && sym_eq(fb, b, n) && fb[n] == 0, "the body stays as it was");
  for (int j = 0; j < nf; j++) { size_t o = 777; const unsigned char *v = sparse_dict_get(r->form_elements, (const char *)f[j].k, f[j].kl, &o); CHECK(v != 0, "a submitted field is found"); if (f[j].known) CHECK(o == f[j].vl && (o == 0 || (sym_valid(v, o) && sym_eq(v, f[j].v, o))), "a field has its decoded value of the right length"); sym_reach("field"); }
  absent(r->form_elements, "zz", 2); absent(r->form_elements, "", 0); absent(r->form_elements, "a", 1); absent(r->form_elements, "b", 1); absent(r->form_elements, "ab", 2);
  sparse_dict_free(r->form_elements); free(fb); free(r); CHECK(sym_live() == 0, "nothing leaks");
}
#ifdef THOROUGH
#define NV 6
#define NP 4
#else
#define NV 5
#define NP 3
#endif
void main_sym(void) {
  static unsigned char b[300000]; size_t n = 0;
  switch (sym_arg()) {
  case 0: { // one or two fields with arbitrary values
    int two = (int)sym_pick(0, 2, "fields"); memcpy(b, "a=", 2); n = 2; size_t v = sym_pick(0, two ? 2 : NV, "n"); sym_bytes(b + n, v, "v"); for (size_t i = 0; i < v; i++) sym_assume(b[n + i] != 0); n += v;
    if (two) { memcpy(b + n, two == 1 ? "&b=" : "&a=", 3); n += 3; size_t w = sym_pick(0, 2, "m"); sym_bytes(b + n, w, "w"); for (size_t i = 0; i < w; i++) sym_assume((b[n + i] != 0) & (b[n + i] != '&') & (b[n + i] != '=')); n += w; } 
    // further names stay in a small alphabet, so that hashing them stays concrete
    { int seen = 0; for (size_t i = 2; i < 2 + v; i++) { if (seen == 1 && b[i] != '=') { sym_assume((b[i] == 'a') | (b[i] == 'b') | (b[i] == '%') | (b[i] == '&') | (b[i] == 'z')); sym_conc(b[i]); } if (b[i] == '&') seen = 1; else if (b[i] == '=') seen = seen == 1 ? 2 : seen; } }
    chk(b, n, 0); break; }
  case 1: { // every sequence of pieces
    static const char *P[] = {"a=1", "b=2", "a=", "=3", "a", "", "a=%4", "a=%zz", "a=%41", "b=x+y", "a=1=2", "ab=%e4%F6", "%61=5", "a==", "=", "a=%00", "b=%25"}; int c = (int)sym_pick(0, NP, "pieces"); for (int i = 0; i < c; i++) { const char *p = P[sym_pick(0, 16, "piece")]; if (i) b[n++] = '&'; memcpy(b + n, p, strlen(p)); n += strlen(p); } chk(b, n, 0); sym_reach("pieces"); break; }
  case 2: { // long names, values and bodies
    static const size_t L[] = {1, 15, 16, 31, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1500}; size_t k = L[sym_pick(0, 14, "nlen")], v = L[sym_pick(0, 14, "vlen")]; memset(b, 'k', k); n = k; b[n++] = '='; memset(b + n, 'v', v); int e = (int)sym_pick(0, 2, "kind"); if (e == 1) for (size_t i = 0; i + 3 <= v; i += 3) memcpy(b + n + i, "%6d", 3); if (e == 2) { sym_bytes(b + n + v - 1, 1, "last"); sym_assume((b[n + v - 1] != 0) & (b[n + v - 1] != '&')); } n += v; memcpy(b + n, "&ab=end", 7); n += 7; chk(b, n, 0); sym_reach("long"); break; }
  case 3: { // many fields (the dictionary grows)
    static const int N[] = {10, 24, 25, 26, 52, 60, 110, 257, 520}; int c = N[sym_pick(0, 8, "fields")]; int rep = (int)sym_pick(0, 1, "again"); for (int r = 0; r <= rep; r++) for (int i = 0; i < c; i++) { if (n) b[n++] = '&'; b[n++] = 'f'; b[n++] = (unsigned char)('0' + i / 10 % 10); b[n++] = (unsigned char)('0' + i % 10); if (i >= 100) b[n++] = (unsigned char)('q' + i / 100); b[n++] = '='; b[n++] = (unsigned char)('A' + (i + r) % 26); } sym_bytes(b + n - 1, 1, "last"); sym_assume((b[n - 1] != 0) & (b[n - 1] != '&') & (b[n - 1] != '=')); chk(b, n, 0); sym_reach("many"); break; }
  case 4: { // large bodies
    static const size_t L[] = {4080, 4096, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 70000, 131072, 250000}; size_t v = L[sym_pick(0, 11, "vlen")]; memcpy(b, "a=1&p=", 6); n = 6; memset(b + n, 'v', v); sym_bytes(b + n, 1, "first"); sym_bytes(b + n + v - 1, 1, "last"); sym_assume((b[n] != 0) & (b[n] != '&') & (b[n] != '=') & (b[n] != '%') & (b[n] != '+') & (b[n + v - 1] != 0) & (b[n + v - 1] != '&') & (b[n + v - 1] != '=') & (b[n + v - 1] != '%') & (b[n + v - 1] != '+')); n += v; memcpy(b + n, "&b=2&ab=end", 11); n += 11; chk(b, n, 0); sym_reach("large"); break; }
  }
}
