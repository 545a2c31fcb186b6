// H07: range headers.
#include "sym.h"
#include "parse.h"
#include <errno.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
// a decimal number, saturating behind LONG_MAX
#define TOO ((uint64_t)LONG_MAX)
static m38_range_header parse(const char *s, size_t n) { char *c = malloc(n + 1); memcpy(c, s, n); c[n] = 0; errno = sym_pick(0, 1, "errno") ? ERANGE : 0; m38_range_header r = m38_parse_range_header(c); free(c); CHECK(sym_live() == 0, "nothing leaks"); return r; }
static uint64_t num(const char *s, size_t n) { uint64_t v = 0, over = 0; for (size_t i = 0; i < n; i++) { over |= v > (TOO / 10); v = v * 10 + (uint64_t)(s[i] - '0'); over |= v > TOO; } return sym_ite(over != 0, TOO + 1, v); }
static void digits(char *s, size_t n, const char *name) { sym_bytes(s, n, name); for (size_t i = 0; i < n; i++) sym_assume((s[i] >= '0') & (s[i] <= '9')); }
static void chk(const char *a, size_t na, const char *b, size_t nb) {
  char s[128]; size_t n = 0; memcpy(s, "bytes=", 6); n = 6; memcpy(s + n, a, na); n += na; s[n++] = '-'; memcpy(s + n, b, nb); n += nb;
  uint64_t A = num(a, na), B = num(b, nb); m38_range_header r = parse(s, n);
  if (A > TOO) { CHECK(r.offset == 0 && r.limit == 0, "a first number that does not fit yields 0/0"); sym_reach("first too large"); }
  else if (nb == 0) { CHECK(r.offset == (size_t)A && r.limit == 0, "bytes=A- yields offset A and no limit"); sym_reach("open"); }
  else if (B > TOO || B < A) { CHECK(r.offset == (size_t)A && r.limit == 0, "bytes=A-B with B < A or B too large yields offset A and no limit"); sym_reach("no limit"); }
  else { CHECK(r.offset == (size_t)A && r.limit == (size_t)B, "bytes=A-B yields offset A and limit B"); sym_reach("closed"); }
}
void main_sym(void) {
  switch (sym_arg()) {
  case 0: { char a[8], b[8]; size_t na = sym_pick(1, 3, "na"), nb = sym_pick(0, 3, "nb"); digits(a, na, "A"); digits(b, nb, "B"); chk(a, na, b, nb); break; }
  case 1: { // around the limits of int, unsigned and long
    static const char *N[] = {"0", "1", "9", "10", "4095", "4096", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "999999999999999999", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9999999999999999999", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456"};
    const char *a = N[sym_pick(0, 22, "a")]; int i = (int)sym_pick(0, 23, "b"); chk(a, strlen(a), i == 23 ? "" : N[i], i == 23 ? 0 : strlen(N[i])); sym_reach("limits"); break; }
  case 2: { // 19 digits, the last two arbitrary
    char a[24], b[24]; memcpy(a, "9223372036854775800", 19); memcpy(b, "9223372036854775800", 19); digits(a + 17, 2, "A"); digits(b + 18, 1, "B"); if (sym_pick(0, 1, "open")) chk(a, 19, b, 0); else chk(a, 19, b, 19); break; }
  case 3: { // no 'bytes=' prefix, or no '-'
    char s[16]; int k = (int)sym_pick(0, 1, "kind"); size_t n;
    if (k == 0) { n = sym_pick(0, 8, "n"); sym_bytes(s, n, "s"); int pre = n >= 6; static const char P[] = "bytes="; for (size_t i = 0; i < n; i++) { sym_assume(s[i] != 0); if (i < 6) pre &= s[i] == P[i]; } sym_assume(!pre); }
    else { memcpy(s, "bytes=", 6); n = sym_pick(6, 10, "n"); sym_bytes(s + 6, n - 6, "s"); for (size_t i = 6; i < n; i++) sym_assume((s[i] != 0) & (s[i] != '-')); }
    m38_range_header r = parse(s, n); CHECK(r.offset == 0 && r.limit == 0, "a value without 'bytes=' or without '-' yields 0/0"); sym_reach("malformed"); break; }
  case 4: { // arbitrary bytes behind the prefix: only termination and memory safety
    char s[16]; memcpy(s, "bytes=", 6); size_t n = sym_pick(6, 10, "n"); sym_bytes(s + 6, n - 6, "s"); for (size_t i = 6; i < n; i++) sym_assume(s[i] != 0); parse(s, n); sym_reach("anything"); break; }
  }
}
