// Sizes and counts beyond every round number nearby: containers, hashing, searching, parsing, decoding (D01-D05, H01, H02, H05, H06).
#include "sym.h"
#include "vector.h"
#include "simple_sparsehash.h"
#include "utils.h"
#include "parse.h"
#include <string.h>
#include <stdlib.h>
static size_t dec(char *b, size_t v) { char t[24]; int k = 0; do t[k++] = (char)('0' + v % 10); while (v /= 10); for (int i = 0; i < k; i++) b[i] = t[k - 1 - i]; b[k] = 0; return (size_t)k; }
static void pat(unsigned char *p, size_t n, unsigned s) { for (size_t i = 0; i < n; i++) p[i] = (unsigned char)('a' + (i * 7 + i / 251 + s) % 26); }
static const size_t L[] = {4096, 8192, 9000, 16384, 20000, 32767, 32768, 40000, 65535, 65536, 65537, 70000, 100000, 140000}; /* byte counts */
#define NL 14
static size_t len(const char *nm) { return L[sym_pick(0, NL - 1, nm)]; }
static uint64_t fnv(const unsigned char *k, size_t n) { uint64_t h = 14695981039346656037ULL; for (size_t i = 0; i < n; i++) { h ^= k[i]; h *= 1099511628211ULL; } return h; }
void main_sym(void) { unsigned char s[2]; sym_bytes(s, 2, "byte");
  switch (sym_arg()) {
  case 0: { // D01: many items
    static const size_t N[] = {128, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049, 4097}; size_t n = N[sym_pick(0, 11, "n")], isz = sym_pick(0, 1, "w") ? 8 : 2; int ptr = isz == 8 && sym_pick(0, 1, "ptr"); vector *v = vector_new(isz, sym_pick(0, 1, "cap") * 3 + 1); size_t at = sym_pick(0, 1, "at") ? n - 1 : n / 2;
    for (size_t i = 0; i < n; i++) { uint64_t x = i * 2654435761u; if (i == at) memcpy(&x, s, 2); if (ptr) { void *p; memcpy(&p, &x, 8); CHECK(vector_append_ptr(v, p) == 1, "append_ptr succeeds"); } else CHECK(vector_append(v, &x, isz) == 1, "append succeeds"); }
    for (int r = 0; r < 2; r++) { CHECK(v->count == n, "count is the number of appended items"); for (size_t i = 0; i < n; i++) { size_t j = r ? n - 1 - i : i; uint64_t x = j * 2654435761u; if (j == at) memcpy(&x, s, 2); const void *p = vector_get(v, i); CHECK(p != 0 && sym_eq(p, &x, isz), "item i is the i-th appended item"); } CHECK(vector_get(v, n) == 0 && vector_get(v, n + 1) == 0 && vector_get(v, n * 2) == 0, "an index from the count on gives nothing"); if (!r) CHECK(vector_reverse(v) == 1, "reverse succeeds"); }
    vector_free(v); break; }
  case 1: { // D01: wide items
    size_t isz = len("size"); int n = (int)sym_pick(1, 5, "n"); vector *v = vector_new(isz, 2); unsigned char *b = malloc(isz + 1); for (int i = 0; i < n; i++) { pat(b, isz + 1, (unsigned)i); memcpy(b + isz - 1, s, 1); CHECK(vector_append(v, b, isz + 1) == 0, "an oversized item is refused"); CHECK(vector_append(v, b, isz) == 1, "append succeeds"); } CHECK(vector_reverse(v) == 1, "reverse succeeds"); for (int i = 0; i < n; i++) { pat(b, isz, (unsigned)(n - 1 - i)); memcpy(b + isz - 1, s, 1); const void *p = vector_get(v, (unsigned)i); CHECK(p != 0 && sym_eq(p, b, isz), "item i is the i-th appended item"); } CHECK(vector_get(v, (unsigned)n) == 0, "an index from the count on gives nothing"); free(b); vector_free(v); break; }
  case 2: { // D02: far indices, wide values
    static const uint32_t I[] = {0, 47, 48, 255, 256, 4095, 32767, 32768, 65535, 65536, 65537, 1000000, 1048575, 1048576, 1048577, 1600000, 2097152, 2999999}; int a = (int)sym_pick(0, 17, "a"), b = (int)sym_pick(0, 17, "b"); struct sparse_array *x = sparse_array_init(8, 3000000); CHECK(x != 0, "created"); unsigned char v1[8] = "first..", v2[8] = "second."; v1[0] = s[0]; v2[0] = s[1]; CHECK(sparse_array_set(x, I[a], v1, 8) == 1 && sparse_array_set(x, I[b], v2, 7) == 1, "set succeeds below the maximum"); size_t o;
    for (int i = 0; i < 18; i++) for (uint32_t near = i == 0 ? 200 : i == a || i == b ? 60 : 1, j = I[i] > near ? I[i] - near : 0; j <= I[i] + near; j++) { const void *p = sparse_array_get(x, j, &o); if (j == I[b]) CHECK(p && o == 7 && sym_eq(p, v2, 7), "the stored value is returned"); else if (j == I[a]) CHECK(p && o == 8 && sym_eq(p, v1, 8), "the stored value is returned"); else CHECK(p == 0, "an index that was never set reads as empty"); } CHECK(sparse_array_set(x, 3000000, v1, 1) == 0 && sparse_array_get(x, 3000000, 0) == 0, "an index at or beyond the maximum is refused"); sparse_array_free(x); break; }
  case 3: { size_t sz = len("size"); struct sparse_array *x = sparse_array_init(sz, 100); unsigned char *v = malloc(sz + 1); pat(v, sz + 1, 3); v[sz - 1] = s[0]; uint32_t i = (uint32_t)sym_pick(0, 2, "i") * 48; size_t less = sym_pick(0, 1, "less"), o = 0; CHECK(sparse_array_set(x, i, v, sz + 1) == 0, "an oversized value is refused"); CHECK(sparse_array_set(x, i, v + less, sz - less) == 1, "set succeeds"); CHECK(sparse_array_set(x, i + 1, "q", 1) == 1, "set succeeds"); const void *p = sparse_array_get(x, i, &o); CHECK(p && o == sz - less && sym_eq(p, v + less, o), "the stored value is returned"); p = sparse_array_get(x, i + 1, &o); CHECK(p && o == 1 && sym_eq(p, "q", 1), "the stored value is returned"); free(v); sparse_array_free(x); break; }
  case 4: { // D03: many keys
    static const int N[] = {129, 257, 300, 500, 513, 800, 1025, 3000}; int n = N[sym_pick(0, 7, "n")], ow = (int)sym_pick(0, 2, "overwrite"); if (ow && n > 1025) sym_stop(); struct sparse_dict *d = sparse_dict_init(); char k[16]; size_t o; for (int i = 0; i < n; i++) { k[0] = 'k'; size_t l = 1 + dec(k + 1, (size_t)i); unsigned v = (unsigned)i * 77777u; if (i == n - 1) memcpy(&v, s, 2); CHECK(sparse_dict_set(d, k, l, &v, 4) == 1, "setting never fails while memory lasts"); if (ow == 1 && i % 10 == 7) { l = 1 + dec(k + 1, (size_t)i - 7); v = (unsigned)i - 7; CHECK(sparse_dict_set(d, k, l, &v, 4) == 1, "setting never fails while memory lasts"); } }
    if (ow == 2) for (int i = 0; i < n; i += 10) { k[0] = 'k'; size_t l = 1 + dec(k + 1, (size_t)i); unsigned v = (unsigned)i; CHECK(sparse_dict_set(d, k, l, &v, 4) == 1, "setting never fails while memory lasts"); }
    for (int i = 0; i < n + 3; i++) { k[0] = 'k'; size_t l = 1 + dec(k + 1, (size_t)i); unsigned v = (unsigned)i * 77777u; if (i == n - 1) memcpy(&v, s, 2); if ((ow == 2 && i % 10 == 0) || (ow == 1 && i % 10 == 0 && i + 7 < n)) v = (unsigned)i; const void *p = sparse_dict_get(d, k, l, &o); if (i >= n) CHECK(p == 0, "a key that was never set is not found"); else CHECK(p && o == 4 && sym_eq(p, &v, 4), "the value stored last is returned"); k[0] = 'q'; if (i < 20) CHECK(sparse_dict_get(d, k, l, &o) == 0, "a key that was never set is not found"); }
    sparse_dict_free(d); break; }
  case 5: { // D03: long keys and values
    size_t kl = sym_pick(0, 1, "long") ? len("klen") : 1000, vl = kl == 1000 ? len("vlen") : 3, o; struct sparse_dict *d = sparse_dict_init(); char *k = malloc(kl + 1), *k2 = malloc(kl + 1); unsigned char *v = malloc(vl); pat((unsigned char *)k, kl + 1, 1); memcpy(k2, k, kl + 1); size_t at = sym_pick(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? kl / 2 : kl - 1; k2[at] = '#'; pat(v, vl, 2); v[vl - 1] = s[0]; v[0] = s[1];
    CHECK(sparse_dict_set(d, k, kl, v, vl) == 1, "setting never fails while memory lasts"); CHECK(sparse_dict_get(d, k2, kl, &o) == 0 && sparse_dict_get(d, k, kl + 1, &o) == 0 && sparse_dict_get(d, k, kl - 1, &o) == 0, "a key that was never set is not found"); CHECK(sparse_dict_set(d, k2, kl, "other", 5) == 1, "setting never fails while memory lasts"); char b[8]; for (int i = 0; i < 30; i++) { size_t l = dec(b, (size_t)i); CHECK(sparse_dict_set(d, b, l, "x", 1) == 1, "setting never fails while memory lasts"); }
    const void *p = sparse_dict_get(d, k, kl, &o); CHECK(p && o == vl && sym_eq(p, v, vl), "the value stored last is returned"); p = sparse_dict_get(d, k2, kl, &o); CHECK(p && o == 5 && sym_eq(p, "other", 5), "the value stored last is returned"); sparse_dict_free(d); free(k); free(k2); free(v); break; }
  case 6: { // D04
    static const size_t N[] = {4096, 4097, 8193, 16385, 32769, 65535, 65537, 70000, 131073, 200000, 1048577}; size_t n = N[sym_pick(0, 10, "len")]; unsigned char *k = malloc(n); pat(k, n, 5); k[n - 1] = s[0]; char out[HASH_STR_SIZE]; CHECK(hash_string_fnv1a(k, n, out) == 1, "returns 1"); uint64_t h = fnv(k, n); int w = 0; for (uint64_t x = h; x; x >>= 4) w++; char want[17]; for (int i = 0; i < w; i++) want[i] = "0123456789ABCDEF"[(h >> (4 * (w - 1 - i))) & 15]; want[w] = 0; CHECK(sym_eq(out, want, (size_t)w + 1), "output is the upper-case hexadecimal FNV-1a hash, NUL-terminated"); free(k); break; }
  case 7: { // D05
    size_t m = len("m"); if (m == 65536 && sym_pick(0, 1, "more")) m = m * 16 + 1; char *h = malloc(m + 1); memset(h, 'a', m); h[m] = 0; int kind = (int)sym_pick(0, 3, "kind"); sym_assume(s[0] != 0);
    if (kind < 2) { size_t nl = kind == 1 ? m / 2 : 2; if (kind) pat((unsigned char *)h, m, 1); char *nd = malloc(nl + 1); memcpy(nd, h + m - nl, nl); nd[0] = h[m - nl] = '#'; nd[nl - 1] = '#'; nd[nl] = 0; sym_assume(s[0] != 'a'); h[m - 1] = (char)s[0]; CHECK(strnstr(h, nd, m) == (s[0] == '#' ? h + m - nl : 0), "bounded search returns the first occurrence inside the first n bytes, or nothing"); CHECK(strnstr(h, nd, m - 1) == 0, "bounded search returns the first occurrence inside the first n bytes, or nothing"); free(nd); }
    else { size_t b = kind == 2 ? m / 2 : m; char *t = malloc(b + 1); memset(t, 'a', b); t[b] = 0; t[sym_pick(0, 1, "at") ? 0 : b - 1] = (char)s[0]; CHECK((endswith(h, t) != 0) == (s[0] == 'a'), "suffix test is true exactly when the string ends with the suffix"); free(t); } free(h); break; }
  case 8: { // H01
    size_t h = len("hlen") - 4; size_t behind = sym_pick(0, 2, "behind"); behind = behind == 0 ? 0 : behind == 1 ? 5 : 70000; unsigned char *b = malloc(h + 5 + behind); memcpy(b, "POST /x HTTP/1.1\r\nA: ", 21); pat(b + 21, h - 21, 1); int lines = (int)sym_pick(0, 1, "lines"); if (lines) for (size_t i = 60; i + 4 < h; i += 50) memcpy(b + i, "\r\nB:", 4); memcpy(b + h, "\r\n\r", 3); b[h + 3] = s[0]; memset(b + h + 4, 'B', behind); size_t n = h + 4 + behind; b[n] = 0;
    int ok = s[0] == '\n'; m38_http_request *r = malloc(sizeof *r); memset(r, 0, sizeof *r); int rc = m38_parse_request(b, n, r); CHECK((rc == 0) == ok, "a request with two words and a blank line inside the received bytes is accepted"); if (ok) { CHECK(r->header_len == h + 4, "the header length counts everything up to and including the blank line"); CHECK(sym_valid(r->full_header, h + 5) && sym_eq(r->full_header, b, h + 4) && r->full_header[h + 4] == 0, "the header block is everything up to and including the blank line"); CHECK(strcmp(r->verb, "POST") == 0 && strcmp(r->resource, "/x") == 0, "method and path"); } free(r->full_header); free(r); free(b); break; }
  case 9: { // H02: many lines, far and long headers, long names
    int kind = (int)sym_pick(0, 3, "kind"); size_t big = len("size"); static const int N[] = {63, 64, 65, 100, 128, 129, 257, 1000, 3000}; int lines = kind == 0 ? N[sym_pick(0, 8, "lines")] : 0; char *b = malloc(big + 100000 + big); size_t n = 16; memcpy(b, "GET / HTTP/1.1\r\n", 16); for (int i = 0; i < lines; i++) { memcpy(b + n, "X-", 2); n += 2; n += dec(b + n, (size_t)i); memcpy(b + n, ": v\r\n", 5); n += 5; } if (kind == 1) { memcpy(b + n, "Far: ", 5); n += 5; pat((unsigned char *)b + n, big, 1); n += big; memcpy(b + n, "\r\n", 2); n += 2; }
    char *nm = malloc(big + 2); size_t k = 6, vl = 3; memcpy(nm, "Wanted", 6); if (kind == 3) { k = big; pat((unsigned char *)nm, k, 4); } nm[k] = 0; char *val = malloc(big + 1); memcpy(val, "val", 3); if (kind == 2) { vl = big; pat((unsigned char *)val, vl, 2); } sym_assume((s[0] > ' ') & (s[0] != 127)); val[vl - 1] = (char)s[0]; int there = (int)sym_pick(0, 1, "there"); if (there) { memcpy(b + n, nm, k); n += k; memcpy(b + n, ": ", 2); n += 2; memcpy(b + n, val, vl); n += vl; memcpy(b + n, "\r\n", 2); n += 2; } else if (kind == 3) { memcpy(b + n, nm, k - 1); n += k - 1; memcpy(b + n, ": no\r\n", 6); n += 6; } memcpy(b + n, "\r\n", 2); n += 2;
    char *q = malloc(n); memcpy(q, b, n); char *r = m38_get_header_value_raw(q, n, nm); if (!there) CHECK(r == 0, "a header that is not there is absent"); else { CHECK(r != 0 && sym_valid(r, vl + 1) && sym_eq(r, val, vl) && r[vl] == 0, "the value is exactly the rest of its line"); free(r); } free(b); free(q); free(nm); free(val); break; }
  case 10: { // H05
    size_t n = len("len"); int kind = (int)sym_pick(0, 2, "kind"); n -= n % 3; unsigned char *in = malloc(n + 1), *want = malloc(n + 1), *got = malloc(n + 1); pat(in, n, 1); size_t w = 0; if (kind == 1) for (size_t i = 0; i < n; i += 3) memcpy(in + i, "%41", 3); else if (kind == 2) for (size_t i = 0; i < n; i += 3) in[i] = '+'; sym_assume((s[0] != 0) & (s[0] != '%')); if (kind != 1) in[n - 1] = s[0]; in[n] = 0; for (size_t i = 0; i < n; i++) { if (kind == 1) { want[w++] = 'A'; i += 2; } else want[w++] = in[i] == '+' ? ' ' : in[i]; } int r = m38_url_decode((char *)in, (char *)got); CHECK(r == (int)w + 1, "the decoded length including the terminator is returned"); CHECK(sym_eq(got, want, w) && got[w] == 0, "the decoded bytes and their terminator are written"); free(in); free(want); free(got); break; }
  case 11: { // H06
    int kind = (int)sym_pick(0, 2, "kind"); size_t big = len("size"); static const int N[] = {49, 50, 51, 64, 65, 100, 128, 129, 256, 257, 300, 1000}; int items = kind == 0 ? N[sym_pick(0, 11, "items")] : 0; char *b = malloc(3 * big + 20000); size_t n = 0; for (int i = 0; i < items; i++) { b[n++] = 'c'; n += dec(b + n, (size_t)i); memcpy(b + n, "=v; ", 4); n += 4; } if (kind == 1) { memcpy(b + n, "far=", 4); n += 4; pat((unsigned char *)b + n, big, 1); n += big; memcpy(b + n, "; ", 2); n += 2; }
    size_t k = 2, vl = 3; char *nm = malloc(big + 1), *val = malloc(big + 1); strcpy(nm, "id"); memcpy(val, "val", 3); if (kind == 2) { if (sym_pick(0, 1, "name")) { k = big; pat((unsigned char *)nm, k, 9); nm[k] = 0; } else { vl = big; pat((unsigned char *)val, vl, 2); } } sym_assume((s[0] > ' ') & (s[0] != 127) & (s[0] != ';') & (s[0] != '=')); val[vl - 1] = (char)s[0]; int there = (int)sym_pick(0, 1, "there"), more = (int)sym_pick(0, 1, "more"); if (there) { memcpy(b + n, nm, k); n += k; b[n++] = '='; memcpy(b + n, val, vl); n += vl; if (more) { memcpy(b + n, "; z=1", 5); n += 5; } } else { memcpy(b + n, "z=1", 3); n += 3; } char *q = malloc(n + 1); memcpy(q, b, n); q[n] = 0; char *r = m38_get_cookie_value(q, n, nm); if (!there) CHECK(r == 0, "a cookie that is not there is absent"); else { CHECK(r != 0 && sym_valid(r, vl + 1) && sym_eq(r, val, vl) && r[vl] == 0, "the value is exactly the bytes up to the next ';' or the end"); free(r); } free(b); free(q); free(nm); free(val); break; }
  }
  CHECK(sym_live() == 0, "everything is released"); sym_reach("large");
}
