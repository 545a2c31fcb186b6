#define _GNU_SOURCE
// The C library functions the code under test needs, as plain C, so that the engine executes them symbolically
// together with it. Written from the C/POSIX specifications; checked against glibc by tools/selftest.py.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <regex.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
size_t strlen(const char *); size_t strnlen(const char *, size_t); int memcmp(const void *, const void *, size_t); int strncmp(const char *, const char *, size_t);
int64_t sym_fail_at(int64_t);
struct _IO_FILE; static char f0[8], f1[8], f2[8];
struct _IO_FILE *stdin = (struct _IO_FILE *)f0, *stdout = (struct _IO_FILE *)f1, *stderr = (struct _IO_FILE *)f2;
static int errno_; int *__errno_location(void) { return &errno_; }
#define EINVAL_ 22
#define ERANGE_ 34
// ---- ctype (C locale)
int isspace(int c) { return (c == 32) | ((c >= 9) & (c <= 13)); }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int isgraph(int c) { return (c > 32) & (c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int isblank(int c) { return (c == 32) | (c == 9); }
int isascii(int c) { return (c & ~127) == 0; }
int tolower(int c) { return c + 32 * isupper(c); }
int toupper(int c) { return c - 32 * islower(c); }
// ---- string
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *stpcpy(char *d, const char *s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char *strncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); if (l < n) memset(d + l, 0, n - l); return d; }
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); if (l < n) memset(d + l, 0, n - l); return d + l; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t k = l < n ? l : n - 1; memcpy(d, s, k); d[k] = 0; } return l; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); char *e = d + strlen(d); memcpy(e, s, l); e[l] = 0; return d; }
size_t strlcat(char *d, const char *s, size_t n) { size_t a = strnlen(d, n), l = strlen(s); if (a == n) return n + l; size_t k = l < n - a ? l : n - a - 1; memcpy(d + a, s, k); d[a + k] = 0; return a + l; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *index(const char *s, int c) { return strchr(s, c); }
char *strchrnul(const char *s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char *)s; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *rindex(const char *s, int c) { return strrchr(s, c); }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
void *rawmemchr(const void *p, int c) { const unsigned char *s = p; for (;; s++) if (*s == (unsigned char)c) return (void *)s; }
void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *memccpy(void *d, const void *s, int c, size_t n) { unsigned char *q = d; const unsigned char *p = s; for (; n; n--) { if ((*q++ = *p++) == (unsigned char)c) return q; } return 0; }
void bzero(void *p, size_t n) { memset(p, 0, n); }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (*h == *n && strncmp(h, n, l) == 0) return (char *)h; return 0; }
int strncasecmp(const char *, const char *, size_t);
char *strcasestr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (strncasecmp(h, n, l) == 0) return (char *)h; return 0; }
void *memmem(const void *h, size_t hl, const void *n, size_t nl) { const char *p = h; if (!nl) return (void *)h; for (; hl >= nl; hl--, p++) if (*p == *(const char *)n && memcmp(p, n, nl) == 0) return (void *)p; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { int in = 0; for (const char *q = a; *q; q++) in |= *q == s[n]; if (!in) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { int in = 0; for (const char *q = a; *q; q++) in |= *q == s[n]; if (in) break; } return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strsep(char **sp, const char *a) { char *b = *sp; if (!b) return 0; size_t n = strcspn(b, a); if (b[n]) { b[n] = 0; *sp = b + n + 1; } else *sp = 0; return b; }
char *strtok_r(char *s, const char *a, char **sv) { if (!s) s = *sv; s += strspn(s, a); if (!*s) { *sv = s; return 0; } size_t n = strcspn(s, a); if (s[n]) { s[n] = 0; *sv = s + n + 1; } else *sv = s + n; return s; }

char *strdup(const char *s) { size_t n = strlen(s) + 1; char *d = malloc(n); if (d) memcpy(d, s, n); return d; }
char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *d = malloc(l + 1); if (d) { memcpy(d, s, l); d[l] = 0; } return d; }
char *strerror(int e) { (void)e; return "error"; }
void *reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) return 0; return realloc(p, a * b); }
void swab_(void) {}
// ---- stdlib
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long stru(const char *s, char **end, int base, int sgn, long mn, unsigned long mx) {
  const char *p = s; int neg = 0, any = 0, ovf = 0; unsigned long v = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { 
    if (base <= 10) { if (!((*p >= '0') & (*p < '0' + base))) break; any = 1; unsigned d = *p - '0';
      if (ovf) continue; if (v > (ULONG_MAX - d) / base) ovf = 1; else v = v * base + d; }
    else { int d = dig((unsigned char)*p); if (d >= base) break; any = 1; if (ovf) continue; if (v > (ULONG_MAX - d) / base) ovf = 1; else v = v * base + d; } }
  if (end) *end = (char *)(any ? p : s);
  if (sgn) { if (neg) { if (ovf || v > (unsigned long)mx + 1) { errno_ = ERANGE_; return (unsigned long)mn; } return 0 - v; } if (ovf || v > mx) { errno_ = ERANGE_; return mx; } return v; }
  if (ovf) { errno_ = ERANGE_; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) { return (long)stru(s, e, b, 1, LONG_MIN, LONG_MAX); }
long long strtoll(const char *s, char **e, int b) { return (long long)stru(s, e, b, 1, LONG_MIN, LONG_MAX); }
unsigned long strtoul(const char *s, char **e, int b) { return stru(s, e, b, 0, 0, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return stru(s, e, b, 0, 0, 0); }
intmax_t strtoimax(const char *s, char **e, int b) { return (long)stru(s, e, b, 1, LONG_MIN, LONG_MAX); }
uintmax_t strtoumax(const char *s, char **e, int b) { return stru(s, e, b, 0, 0, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(k, (const char *)b + m * sz); if (!c) return (void *)((const char *)b + m * sz); if (c < 0) hi = m; else lo = m + 1; } return 0; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * sz, p + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = p[j * sz + k]; p[j * sz + k] = p[(j - 1) * sz + k]; p[(j - 1) * sz + k] = t; } }
uint16_t htons(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); } uint16_t ntohs(uint16_t x) { return htons(x); }
uint32_t htonl(uint32_t x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; } uint32_t ntohl(uint32_t x) { return htonl(x); }
// ---- printf
struct sink { char *p; size_t cap, n; };
static void outc(struct sink *s, char c) { if (s->n + 1 < s->cap) s->p[s->n] = c; s->n++; }
static void outs(struct sink *s, const char *p, size_t l) { size_t room = s->n + 1 < s->cap ? s->cap - 1 - s->n : 0; size_t k = l < room ? l : room; if (k) memcpy(s->p + s->n, p, k); s->n += l; }
static void pad(struct sink *s, long n, char c) { for (; n > 0; n--) outc(s, c); }
int vsnprintf(char *buf, size_t cap, const char *f, va_list ap) {
  struct sink s = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { const char *e = f; while (*e && *e != '%') e++; outs(&s, f, e - f); f = e - 1; continue; }
    f++; int left = 0, zero = 0, plus = 0, space = 0, alt = 0; long width = 0, prec = -1;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    int lng = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 1; else if (*f == 'h') lng--; else break; }
    char c = *f; if (!c) break;
    if (c == '%') { outc(&s, '%'); continue; }
    if (c == 'c') { char ch = (char)va_arg(ap, int); if (!left) pad(&s, width - 1, ' '); outc(&s, ch); if (left) pad(&s, width - 1, ' '); continue; }
    if (c == 's') { const char *p = va_arg(ap, const char *); if (!p) p = "(null)"; size_t l = prec >= 0 ? strnlen(p, prec) : strlen(p); if (!left) pad(&s, width - (long)l, ' '); outs(&s, p, l); if (left) pad(&s, width - (long)l, ' '); continue; }
    if (c == 'n') { *va_arg(ap, int *) = (int)s.n; continue; }
    unsigned long v; int neg = 0; unsigned base = 10; const char *dg = "0123456789abcdef";
    if (c == 'd' || c == 'i') { long x = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lng == -1) x = (short)x; if (lng == -2) x = (signed char)x; neg = x < 0; v = neg ? 0 - (unsigned long)x : (unsigned long)x; }
    else if (c == 'p') { v = (unsigned long)va_arg(ap, void *); base = 16; alt = 1; }
    else { v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned int); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v; if (c == 'x') base = 16; else if (c == 'X') { base = 16; dg = "0123456789ABCDEF"; } else if (c == 'o') base = 8; }
    char t[70]; int n = 0; 
    if (base == 16) { if (v) do { t[n++] = dg[v & 15]; v >>= 4; } while (v); }
    else if (base == 8) { if (v) do { t[n++] = dg[v & 7]; v >>= 3; } while (v); }
    else if (v) do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    if (n == 0 && prec != 0) t[n++] = '0';
    long zeros = prec > n ? prec - n : 0; char sign = neg ? '-' : (c == 'd' || c == 'i') && plus ? '+' : (c == 'd' || c == 'i') && space ? ' ' : 0; int pre = alt && base == 16 ? 2 : 0;
    long total = n + zeros + (sign != 0) + pre; if (zero && !left && prec < 0 && width > total) { zeros += width - total; total = width; }
    if (!left) pad(&s, width - total, ' ');
    if (sign) outc(&s, sign); if (pre) { outc(&s, '0'); outc(&s, c == 'X' ? 'X' : 'x'); }
    pad(&s, zeros, '0'); while (n) outc(&s, t[--n]);
    if (left) pad(&s, width - total, ' ');
  }
  if (cap) buf[s.n < cap ? s.n : cap - 1] = 0;
  return (int)s.n;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, (size_t)INT_MAX, f, ap); }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)INT_MAX, f, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); *o = malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, ap); }
int asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vasprintf(o, f, ap); va_end(ap); return r; }
// ---- sscanf (integers, %s, %c, literals)
int vsscanf(const char *s, const char *f, va_list ap) {
  const char *s0 = s; int got = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f != '%') { if (*s != *f) return !*s && !got ? -1 : got; s++; continue; }
    f++; if (*f == '%') { if (*s != '%') return got; s++; continue; }
    int sup = 0, width = 0, lng = 0; if (*f == '*') { sup = 1; f++; } while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') lng--; else break; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(s - s0); continue; }
    if (*f == 'c') { int k = width ? width : 1; char *o = sup ? 0 : va_arg(ap, char *); for (int i = 0; i < k; i++) { if (!*s) return got ? got : -1; if (o) *o++ = *s; s++; } if (!sup) got++; continue; }
    while (isspace((unsigned char)*s)) s++;
    if (!*s) return got ? got : -1;
    if (*f == 's') { char *o = sup ? 0 : va_arg(ap, char *); int k = 0; while (*s && !isspace((unsigned char)*s) && (!width || k < width)) { if (o) *o++ = *s; s++; k++; } if (o) { *o = 0; got++; } continue; }
    int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8 : *f == 'i' ? 0 : 10; int w = width ? width : INT_MAX; int neg = 0, any = 0; unsigned long v = 0; const char *p = s;
    if ((*p == '-' || *p == '+') && w > 0) { neg = *p == '-'; p++; w--; }
    if ((base == 16 || base == 0) && w > 1 && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; w -= 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    for (; w > 0; w--, p++) { int d = dig((unsigned char)*p); if (d >= base) break; any = 1; v = v * base + d; }
    if (!any) return got; s = p; if (neg) v = 0 - v;
    if (!sup) { if (lng > 0) *va_arg(ap, unsigned long *) = v; else if (lng == -1) *va_arg(ap, unsigned short *) = (unsigned short)v; else if (lng == -2) *va_arg(ap, unsigned char *) = (unsigned char)v; else *va_arg(ap, unsigned *) = (unsigned)v; got++; }
  }
  return got;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsscanf(s, f, ap); va_end(ap); return r; }
// ---- POSIX extended regular expressions: compiled to a backtracking program
enum { R_CHAR, R_ANY, R_SET, R_SPLIT, R_JMP, R_SAVE, R_BOL, R_EOL, R_MATCH, R_MARK, R_PROG, R_WORDB };
struct rset { int neg, n; unsigned char lo[24], hi[24]; };
struct rins { int op, x, y; struct rset *set; };
struct rprog { int n, cap, ngroups, icase, alt, nmark, nl; struct rins *in; };
struct rparse { const char *p; struct rprog *g; int err, icase; };
static int emit(struct rprog *g, int op, int x, int y, struct rset *s) { if (g->n == g->cap) { g->cap = g->cap ? g->cap * 2 : 32; g->in = realloc(g->in, g->cap * sizeof *g->in); } struct rins *i = &g->in[g->n]; i->op = op; i->x = x; i->y = y; i->set = s; return g->n++; }
static void sadd(struct rset *s, int lo, int hi) { if (s->n < 24) { s->lo[s->n] = lo; s->hi[s->n] = hi; s->n++; } }
static void sclass(struct rset *s, const char *c, int l) {
#define CL(nm) (l == (int)sizeof nm - 1 && memcmp(c, nm, sizeof nm - 1) == 0)
  if (CL("alpha")) { sadd(s, 'a', 'z'); sadd(s, 'A', 'Z'); } else if (CL("digit")) sadd(s, '0', '9'); else if (CL("alnum")) { sadd(s, 'a', 'z'); sadd(s, 'A', 'Z'); sadd(s, '0', '9'); } else if (CL("space")) { sadd(s, 9, 13); sadd(s, 32, 32); } else if (CL("upper")) sadd(s, 'A', 'Z'); else if (CL("lower")) sadd(s, 'a', 'z'); else if (CL("xdigit")) { sadd(s, '0', '9'); sadd(s, 'a', 'f'); sadd(s, 'A', 'F'); } else if (CL("blank")) { sadd(s, 9, 9); sadd(s, 32, 32); } else if (CL("punct")) { sadd(s, 33, 47); sadd(s, 58, 64); sadd(s, 91, 96); sadd(s, 123, 126); } else if (CL("print")) sadd(s, 32, 126); else if (CL("graph")) sadd(s, 33, 126); else if (CL("cntrl")) { sadd(s, 0, 31); sadd(s, 127, 127); } }
static void r_alt(struct rparse *r);
static struct rset *newset(void) { struct rset *s = calloc(1, sizeof *s); return s; }
static void shift(struct rprog *g, int at, int by) { for (int i = 0; i < by; i++) emit(g, R_JMP, 0, 0, 0); for (int i = g->n - 1; i >= at + by; i--) g->in[i] = g->in[i - by]; for (int i = at; i < at + by; i++) g->in[i].set = 0; for (int i = at + by; i < g->n; i++) { struct rins *q = &g->in[i]; if (q->op == R_SPLIT || q->op == R_JMP) { if (q->x >= at) q->x += by; if (q->op == R_SPLIT && q->y >= at) q->y += by; } } }
static int setcopy_ok(void) { return 1; }
static void copyrange(struct rprog *g, int from, int to) { int d = g->n - from; for (int i = from; i < to; i++) { struct rins q = g->in[i]; if (q.op == R_SPLIT || q.op == R_JMP) { q.x += d; if (q.op == R_SPLIT) q.y += d; } if (q.set) { struct rset *s = newset(); *s = *q.set; q.set = s; } emit(g, q.op, q.x, q.y, q.set); } (void)setcopy_ok; }
static void r_star(struct rprog *g, int a) { int m = g->nmark++; shift(g, a, 2); g->in[a].op = R_SPLIT; g->in[a].x = a + 1; g->in[a + 1].op = R_MARK; g->in[a + 1].x = m; emit(g, R_PROG, m, 0, 0); emit(g, R_JMP, a, 0, 0); g->in[a].y = g->n; }
static void r_plus(struct rprog *g, int a) { int e = g->n; copyrange(g, a, e); r_star(g, e); }
static void r_opt(struct rprog *g, int a) { g->alt = 1; shift(g, a, 1); g->in[a].op = R_SPLIT; g->in[a].x = a + 1; g->in[a].y = g->n; }
static void r_atom(struct rparse *r) {
  struct rprog *g = r->g; char c = *r->p++;
  if (c == '(') { if (*r->p == ')') { int k = ++g->ngroups; emit(g, R_SAVE, 2 * k, 0, 0); emit(g, R_SAVE, 2 * k + 1, 0, 0); r->p++; return; } int k = ++g->ngroups; emit(g, R_SAVE, 2 * k, 0, 0); r_alt(r); if (*r->p != ')') { r->err = REG_EPAREN; return; } r->p++; emit(g, R_SAVE, 2 * k + 1, 0, 0); }
  else if (c == '.') emit(g, R_ANY, 0, 0, 0);
  else if (c == '^') emit(g, R_BOL, 0, 0, 0);
  else if (c == '$') emit(g, R_EOL, 0, 0, 0);
  else if (c == '[') { struct rset *s = newset(); if (*r->p == '^') { s->neg = 1; r->p++; } int first = 1;
    for (;; first = 0) { unsigned char ch = *r->p; if (!ch) { r->err = REG_EBRACK; free(s); return; } if (ch == ']' && !first) { r->p++; break; }
      if (ch == '[' && r->p[1] == ':') { const char *e = r->p + 2; while (*e && *e != ':') e++; if (!*e || e[1] != ']') { r->err = REG_ECTYPE; free(s); return; } sclass(s, r->p + 2, (int)(e - r->p - 2)); r->p = e + 2; continue; }
      if (r->p[1] == '-' && r->p[2] && r->p[2] != ']') { unsigned char hi = r->p[2]; if (hi < ch) { r->err = REG_ERANGE; free(s); return; } sadd(s, ch, hi); r->p += 3; } else { sadd(s, ch, ch); r->p++; } }
    if (r->icase) { int n = s->n; for (int i = 0; i < n; i++) for (int q = s->lo[i]; q <= s->hi[i]; q++) if (isalpha(q) && s->n < 24) sadd(s, q ^ 32, q ^ 32); }
    emit(g, R_SET, 0, 0, s); }
  else if (c == '\\') { char d = *r->p; if (!d) { r->err = REG_EESCAPE; return; } r->p++;
    if (d == 's' || d == 'S') { struct rset *s = newset(); s->neg = d == 'S'; sadd(s, 9, 13); sadd(s, 32, 32); emit(g, R_SET, 0, 0, s); }
    else if (d == 'w' || d == 'W') { struct rset *s = newset(); s->neg = d == 'W'; sadd(s, 'a', 'z'); sadd(s, 'A', 'Z'); sadd(s, '0', '9'); sadd(s, '_', '_'); emit(g, R_SET, 0, 0, s); }
    else emit(g, R_CHAR, (unsigned char)d, 0, 0); }
  else if (c == '*' || c == '+' || c == '?' ) { r->err = REG_BADRPT; }
  else { if (r->icase && isalpha((unsigned char)c)) { struct rset *s = newset(); sadd(s, (unsigned char)c, (unsigned char)c); sadd(s, c ^ 32, c ^ 32); emit(g, R_SET, 0, 0, s); } else emit(g, R_CHAR, (unsigned char)c, 0, 0); }
}
static void r_cat(struct rparse *r) {
  struct rprog *g = r->g;
  while (*r->p && *r->p != '|' && *r->p != ')' && !r->err) {
    int a = g->n; r_atom(r); if (r->err) return;
    for (;;) { if (*r->p == '*') { r_star(g, a); r->p++; } else if (*r->p == '+') { r_plus(g, a); r->p++; } else if (*r->p == '?') { r_opt(g, a); r->p++; }
      else if (*r->p == '{' && isdigit((unsigned char)r->p[1])) { int lo = 0, hi; r->p++; while (isdigit((unsigned char)*r->p)) lo = lo * 10 + *r->p++ - '0'; hi = lo; if (*r->p == ',') { r->p++; if (*r->p == '}') hi = -1; else { hi = 0; while (isdigit((unsigned char)*r->p)) hi = hi * 10 + *r->p++ - '0'; } } if (*r->p != '}') { r->err = REG_EBRACE; return; } r->p++; if (hi >= 0 && hi < lo) { r->err = REG_BADBR; return; }
        int e = g->n, len = e - a; for (int i = 0; i < lo; i++) copyrange(g, a, e); if (hi < 0) { int b = g->n; copyrange(g, a, e); r_star(g, b); } else { int starts[64]; int k = 0; for (int i = lo; i < hi && k < 64; i++) { starts[k++] = emit(g, R_SPLIT, g->n + 1, 0, 0); copyrange(g, a, e); } for (int i = 0; i < k; i++) g->in[starts[i]].y = g->n; }
        for (int i = a; i < e; i++) { free(g->in[i].set); g->in[i].set = 0; } g->in[a].op = R_JMP; g->in[a].x = e; for (int i = a + 1; i < e; i++) { g->in[i].op = R_JMP; g->in[i].x = e; } (void)len; }
      else break; }
  }
}
static void r_alt(struct rparse *r) { struct rprog *g = r->g; int a = g->n; r_cat(r); while (*r->p == '|' && !r->err) { g->alt = 1; r->p++; shift(g, a, 1); g->in[a].op = R_SPLIT; g->in[a].x = a + 1; int j = emit(g, R_JMP, 0, 0, 0); g->in[a].y = g->n; r_alt(r); g->in[j].x = g->n; } }
static void r_free(struct rprog *g) { for (int i = 0; i < g->n; i++) free(g->in[i].set); free(g->in); free(g); }
/* a basic expression as an extended one */
static char *bre(const char *p) { char *o = malloc(2 * strlen(p) + 1); size_t k = 0; for (int first = 1; *p; p++) { if (*p == '[') { const char *b = p; o[k++] = *p++; if (*p == '^') o[k++] = *p++; if (*p == ']') o[k++] = *p++; while (*p && *p != ']') o[k++] = *p++; if (!*p) break; o[k++] = *p; (void)b; first = 0; continue; }
  if (*p == '\\' && p[1]) { p++; if (*p == '(' || *p == '{' || *p == '+' || *p == '?' || *p == '|') { o[k++] = *p; first = *p == '(' || *p == '|'; continue; } if (*p == ')' || *p == '}') { o[k++] = *p; first = 0; continue; } o[k++] = '\\'; o[k++] = *p; first = 0; continue; }
  if (*p == '(' || *p == ')' || *p == '{' || *p == '}' || *p == '+' || *p == '?' || *p == '|' || (*p == '*' && first) || (*p == '^' && !first) || (*p == '$' && p[1] && !(p[1] == '\\' && (p[2] == ')' || p[2] == '|')))) o[k++] = '\\'; int c = *p == '^' && first; o[k++] = *p; first = c; }
  o[k] = 0; return o; }
int regcomp(regex_t *re, const char *pat, int flags) {
  struct rprog *g = calloc(1, sizeof *g); if (!g) return REG_ESPACE; /* all or nothing: counts as one allocation, like in the native replay */
  int64_t fa = sym_fail_at(-1); struct rparse r = {pat, g, 0, (flags & REG_ICASE) != 0};
  memset(re, 0, sizeof *re);
  g->nl = (flags & REG_NEWLINE) != 0; char *ere = flags & REG_EXTENDED ? 0 : bre(pat); if (ere) r.p = ere;
  r_alt(&r); if (!r.err) emit(g, R_MATCH, 0, 0, 0); if (!r.err && *r.p == ')') r.err = REG_EPAREN; free(ere); sym_fail_at(fa);
  if (r.err) { r_free(g); return r.err; }
  re->re_nsub = g->ngroups; *(struct rprog **)re = g; re->no_sub = (flags & REG_NOSUB) != 0; return 0;
}
void regfree(regex_t *re) { struct rprog *g = *(struct rprog **)re; if (g) r_free(g); *(struct rprog **)re = 0; }
size_t regerror(int e, const regex_t *re, char *b, size_t n) { (void)e; (void)re; if (n) b[0] = 0; return 1; }
#define MAXG 16
struct rstk { int pc; long pos; long which, old; };
int regexec(const regex_t *re, const char *s, size_t nm, regmatch_t *pm, int ef) {
  struct rprog *g = *(struct rprog *const *)re; long len = -1; struct rins *in = g->in; long sv[2 * MAXG], best[2 * MAXG], mk[16]; int found = 0; 
  int cap = 0; struct rstk *st = 0; int64_t fa; int anch = in[0].op == R_BOL && !g->nl, first = in[0].op == R_CHAR ? in[0].x : -1;
  if (g->ngroups >= MAXG || g->nmark > 16) return REG_ESPACE;
  fa = sym_fail_at(-1);
  for (long start = 0; !found; start++) {
    if (start && anch) break;
    if (first >= 0) { while (s[start] && (unsigned char)s[start] != first) start++; }
    if (first >= 0 && !s[start]) break;
    for (int i = 0; i < 2 * MAXG; i++) sv[i] = -1;
    int sp = 0, pc = 0; long pos = start;
    for (;;) {
      int fail = 0; struct rins *q = &in[pc];
      switch (q->op) {
        case R_CHAR: if ((unsigned char)s[pos] == q->x) { pos++; pc++; } else fail = 1; break;
        case R_ANY: if (s[pos] && !(g->nl && s[pos] == '\n')) { pos++; pc++; } else fail = 1; break;
        case R_SET: { unsigned char c = s[pos]; struct rset *z = q->set; int m = 0; for (int i = 0; i < z->n; i++) m |= (c >= z->lo[i]) & (c <= z->hi[i]); m = (m != z->neg) & (c != 0); if (g->nl && z->neg) m &= c != '\n'; if (m) { pos++; pc++; } else fail = 1; break; }
        case R_BOL: if ((pos == 0 && !(ef & REG_NOTBOL)) || (g->nl && pos > 0 && s[pos - 1] == '\n')) pc++; else fail = 1; break;
        case R_EOL: if ((s[pos] == 0 && !(ef & REG_NOTEOL)) || (g->nl && s[pos] == '\n')) pc++; else fail = 1; break;
        case R_JMP: pc = q->x; break;
        case R_SPLIT: if (sp + 2 >= cap) { cap = cap ? cap * 2 : 256; st = realloc(st, cap * sizeof *st); } st[sp].pc = q->y; st[sp].pos = pos; st[sp].which = -1; sp++; pc = q->x; break;
        case R_SAVE: if (sp + 2 >= cap) { cap = cap ? cap * 2 : 256; st = realloc(st, cap * sizeof *st); } st[sp].which = q->x; st[sp].old = sv[q->x]; sp++; sv[q->x] = pos; pc++; break;
        case R_MARK: mk[q->x] = pos; pc++; break;
        case R_PROG: if (mk[q->x] == pos) fail = 1; else pc++; break;
        case R_MATCH: if (!found || pos > best[1]) { memcpy(best, sv, sizeof sv); best[0] = start; best[1] = pos; found = 1; } fail = g->alt ? 1 : 2; break;
      }
      if (fail == 2) break;
      if (fail) { for (;;) { if (!sp) break; sp--; if (st[sp].which >= 0) { sv[st[sp].which] = st[sp].old; continue; } pc = st[sp].pc; pos = st[sp].pos; sp++; break; } if (!sp) break; sp--; }
    }
    if (!found && !s[start]) break;
  }
  (void)len; free(st); sym_fail_at(fa);
  if (!found) return REG_NOMATCH;
  if (!re->no_sub) for (size_t i = 0; i < nm; i++) { if (i <= (size_t)g->ngroups) { pm[i].rm_so = (regoff_t)best[2 * i]; pm[i].rm_eo = (regoff_t)best[2 * i + 1]; if (best[2 * i + 1] < 0 || best[2*i] < 0) pm[i].rm_so = pm[i].rm_eo = -1; } else pm[i].rm_so = pm[i].rm_eo = -1; }
  return 0;
}
// ---- threads of the model (see sym.h)
void sym_thread(int); int sym_tid(void);
void *sym_run(void *(*fn)(void *), void *arg, int id) { int o = sym_tid(); sym_thread(id); void *r = fn(arg); sym_thread(o); return r; }
