// Models of the C library functions the code under test calls (engine side only; names vsm_<function>).
// "C" locale, as in the test programs and translated programs (no setlocale call in the repository).
#include <stddef.h>
#include <stdint.h>
#include <wchar.h>
typedef unsigned u;
void vs_fail_engine(const char *);
uint64_t vs_sym(const char *name, int bits);
#define BETW(c, a, b) (((u)(c) >= (u)(a)) & ((u)(c) <= (u)(b)))
int vsm_iswspace(wint_t c) { return BETW(c, 9, 13) | (c == 32); }
int vsm_iswdigit(wint_t c) { return BETW(c, '0', '9'); }
int vsm_iswxdigit(wint_t c) { return BETW(c, '0', '9') | BETW(c, 'a', 'f') | BETW(c, 'A', 'F'); }
int vsm_iswupper(wint_t c) { return BETW(c, 'A', 'Z'); }
int vsm_iswlower(wint_t c) { return BETW(c, 'a', 'z'); }
int vsm_iswalpha(wint_t c) { return BETW(c, 'a', 'z') | BETW(c, 'A', 'Z'); }
int vsm_iswalnum(wint_t c) { return BETW(c, 'a', 'z') | BETW(c, 'A', 'Z') | BETW(c, '0', '9'); }
int vsm_iswcntrl(wint_t c) { return BETW(c, 0, 31) | (c == 127); }
int vsm_iswpunct(wint_t c) { return BETW(c, 33, 47) | BETW(c, 58, 64) | BETW(c, 91, 96) | BETW(c, 123, 126); }
int vsm_iswprint(wint_t c) { return BETW(c, 32, 126); }
int vsm_iswgraph(wint_t c) { return BETW(c, 33, 126); }
int vsm_iswblank(wint_t c) { return (c == 9) | (c == 32); }
wint_t vsm_towupper(wint_t c) { return c - 32u * (u)BETW(c, 'a', 'z'); }
wint_t vsm_towlower(wint_t c) { return c + 32u * (u)BETW(c, 'A', 'Z'); }
int vsm_isspace(int c) { return vsm_iswspace(c); } int vsm_isdigit(int c) { return vsm_iswdigit(c); } int vsm_isalpha(int c) { return vsm_iswalpha(c); } int vsm_isupper(int c) { return vsm_iswupper(c); } int vsm_islower(int c) { return vsm_iswlower(c); } int vsm_isalnum(int c) { return vsm_iswalnum(c); } int vsm_toupper(int c) { return (int)vsm_towupper(c); } int vsm_tolower(int c) { return (int)vsm_towlower(c); }
size_t vsm_wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t vsm_wcsnlen(const wchar_t *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t vsm_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int vsm_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int vsm_wcscmp(const wchar_t *a, const wchar_t *b) { for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } }
int vsm_wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; } return 0; }
int vsm_wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) { for (; n; n--, a++, b++) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int vsm_wcscasecmp(const wchar_t *a, const wchar_t *b) { for (;; a++, b++) { wint_t x = vsm_towlower(*a), y = vsm_towlower(*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
wchar_t *vsm_wcschr(const wchar_t *s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t *)s; if (!*s) return 0; } }
wchar_t *vsm_wcsrchr(const wchar_t *s, wchar_t c) { wchar_t *r = 0; for (;; s++) { if (*s == c) r = (wchar_t *)s; if (!*s) return r; } }
wchar_t *vsm_wmemchr(const wchar_t *s, wchar_t c, size_t n) { for (; n; n--, s++) if (*s == c) return (wchar_t *)s; return 0; }
void *vsm_memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; n--, s++) if (*s == (unsigned char)c) return (void *)s; return 0; }
wchar_t *vsm_wcscpy(wchar_t *d, const wchar_t *s) { wchar_t *r = d; while ((*d++ = *s++)) ; return r; }
wchar_t *vsm_wcsncpy(wchar_t *d, const wchar_t *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
wchar_t *vsm_wcscat(wchar_t *d, const wchar_t *s) { vsm_wcscpy(d + vsm_wcslen(d), s); return d; }
wchar_t *vsm_wcsstr(const wchar_t *h, const wchar_t *n) {
  if (!*n) return (wchar_t *)h;
  for (; *h; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (wchar_t *)h; }
  return 0;
}
int vsm_abs(int x) { return x < 0 ? -x : x; }
long vsm_labs(long x) { return x < 0 ? -x : x; }
long long vsm_llabs(long long x) { return x < 0 ? -x : x; }
// ---- printf family ----------------------------------------------------------
// writes to out (wide) with capacity n (including NUL); returns length or -1 when it does not fit
struct sink { wchar_t *w; char *c; size_t n, len; };
static void put(struct sink *s, wchar_t ch) { if (s->n && s->len < s->n - 1) { if (s->w) s->w[s->len] = ch; else s->c[s->len] = (char)ch; } s->len++; }
static void putnum(struct sink *s, uint64_t v, int neg, unsigned base, int upper, int width, int zero, int left, int plus) {
  wchar_t tmp[24]; int k = 0;
  do { unsigned d = (unsigned)(v % base); v /= base; tmp[k++] = base == 10 ? (wchar_t)('0' + d) : (wchar_t)(d + '0' + (d > 9) * ((upper ? 'A' : 'a') - '0' - 10)); } while (v);
  int sign = neg ? '-' : plus ? '+' : 0; int tot = k + (sign != 0); int pad = width > tot ? width - tot : 0;
  if (!left && !zero) for (int i = 0; i < pad; i++) put(s, ' ');
  if (sign) put(s, sign);
  if (!left && zero) for (int i = 0; i < pad; i++) put(s, '0');
  while (k) put(s, tmp[--k]);
  if (left) for (int i = 0; i < pad; i++) put(s, ' ');
}
static long fmtcore(struct sink *s, const void *fmt, int wide, int nargs, const uint64_t *args) {
  int a = 0; size_t i = 0;
#define FC(i) (wide ? ((const wchar_t *)fmt)[i] : (wchar_t)((const char *)fmt)[i])
  for (;;) {
    wchar_t c = FC(i); i++; if (!c) break;
    if (c != '%') { put(s, c); continue; }
    int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (;; i++) { c = FC(i); if (c == '-') left = 1; else if (c == '0') zero = 1; else if (c == '+') plus = 1; else if (c == ' ' || c == '#') ; else break; }
    if (FC(i) == '*') { width = (int)args[a++]; i++; } else while (FC(i) >= '0' && FC(i) <= '9') { width = width * 10 + (FC(i) - '0'); i++; }
    if (FC(i) == '.') { i++; prec = 0; if (FC(i) == '*') { prec = (int)args[a++]; i++; } else while (FC(i) >= '0' && FC(i) <= '9') { prec = prec * 10 + (FC(i) - '0'); i++; } }
    for (;; i++) { c = FC(i); if (c == 'l') lng++; else if (c == 'h') lng--; else if (c == 'z' || c == 'j' || c == 't') lng = 2; else break; }
    c = FC(i); i++;
    if (c == '%') { put(s, '%'); continue; }
    if (a >= nargs && c) { vs_fail_engine("format consumes more arguments than given"); return -1; }
    if (prec >= 0 && (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X')) { zero = 1; if (prec > width) width = prec; else if (width > prec) vs_fail_engine("format with width and precision"); }
    if (c == 'd' || c == 'i') { int64_t v = (int64_t)args[a++]; if (lng <= 0) v = (int32_t)v; if (lng == -1) v = (int16_t)v; if (lng <= -2) v = (int8_t)v; int neg = v < 0; if (prec >= 0 && neg) width++; putnum(s, neg ? 0 - (uint64_t)v : (uint64_t)v, neg, 10, 0, width, zero, left, plus); }
    else if (c == 'u' || c == 'x' || c == 'X') { uint64_t v = args[a++]; if (lng <= 0) v = (uint32_t)v; if (lng == -1) v = (uint16_t)v; if (lng <= -2) v = (uint8_t)v; putnum(s, v, 0, c == 'u' ? 10 : 16, c == 'X', width, zero, left, 0); }
    else if (c == 'c') { put(s, (wchar_t)args[a++]); }
    else if (c == 's' || c == 'S') { const void *p = (const void *)args[a++]; int ws = (lng == 1) || c == 'S'; for (size_t k = 0; prec < 0 || k < (size_t)prec; k++) { wchar_t ch = ws ? ((const wchar_t *)p)[k] : (wchar_t)((const char *)p)[k]; if (!ch) break; put(s, ch); } }
    else if (c == 'g' || c == 'G' || c == 'f' || c == 'F' || c == 'e' || c == 'E') { // whole numbers below one million have exact text with %g/%G; the text of any other real number is unknown
      union { uint64_t u; double d; } x; x.u = args[a++];
      if ((c == 'g' || c == 'G') && prec < 0 && !width && x.d > -1000000.0 && x.d < 1000000.0 && x.d == (double)(int)x.d) { int neg = (int)(x.u >> 63), w = (int)x.d; putnum(s, (uint64_t)(w < 0 ? -w : w), neg, 10, 0, 0, 0, 0, plus); continue; }
      unsigned n = (unsigned)vs_sym("real.text.length", 4); unsigned m = 1 + (n % 12); for (unsigned k = 0; k < m; k++) put(s, (wchar_t)(33 + (vs_sym("real.text.char", 6)))); }
    else { vs_fail_engine("format conversion"); return -1; }
  }
  return (long)s->len;
}
int vsm_swprintf(wchar_t *out, size_t n, const wchar_t *fmt, int nargs, const uint64_t *args) {
  struct sink s = {out, 0, n, 0}; long r = fmtcore(&s, fmt, 1, nargs, args); if (n == 0) return -1;
  if ((size_t)r >= n) { out[n - 1] = 0; return -1; } out[r] = 0; return (int)r;
}
int vsm_snprintf(char *out, size_t n, const char *fmt, int nargs, const uint64_t *args) { struct sink s = {0, out, n, 0}; long r = fmtcore(&s, fmt, 0, nargs, args); if (n) out[(size_t)r < n ? (size_t)r : n - 1] = 0; return (int)r; }
int vsm_sprintf(char *out, const char *fmt, int nargs, const uint64_t *args) { return vsm_snprintf(out, (size_t)1 << 30, fmt, nargs, args); }
// ---- standard output: the harness reads it back (one stream; ASCII text)
static wchar_t console[512]; static size_t consoleLen;
static int emit(const void *fmt, int wide, int nargs, const uint64_t *args) { struct sink s = {console + consoleLen, 0, 512 - consoleLen, 0}; long r = fmtcore(&s, fmt, wide, nargs, args); if (r < 0 || consoleLen + (size_t)r >= 511) { vs_fail_engine("console"); return -1; } consoleLen += (size_t)r; return (int)r; }
int vsm_printf(const char *fmt, int nargs, const uint64_t *args) { return emit(fmt, 0, nargs, args); }
int vsm_wprintf(const wchar_t *fmt, int nargs, const uint64_t *args) { return emit(fmt, 1, nargs, args); }
int vsm_putchar(int c) { console[consoleLen++] = (wchar_t)(unsigned char)c; return c; }
wchar_t vsm_putwchar(wchar_t c) { console[consoleLen++] = c; return c; }
int vsm_fputs(const char *t, void *f) { while (*t) vsm_putchar(*t++); return 1; }
int vsm_fputws(const wchar_t *t, void *f) { while (*t) vsm_putwchar(*t++); return 1; }
int vsm_puts(const char *t) { vsm_fputs(t, 0); vsm_putchar('\n'); return 1; }
int vsm_fputc(int c, void *f) { return vsm_putchar(c); }
wchar_t vsm_fputwc(wchar_t c, void *f) { return vsm_putwchar(c); }
int vs_outlen(void) { return (int)consoleLen; }
int vs_outchar(int i) { return i >= 0 && (size_t)i < consoleLen ? (int)console[i] : -1; }
void vs_outreset(void) { consoleLen = 0; }
// ---- scanf: real-number conversions only; outcome arbitrary ---------------------
int vsm_swscanf_real(const wchar_t *s, double *out) __attribute__((weak));
int vsm_swscanf(const wchar_t *str, const wchar_t *fmt, int nargs, const uint64_t *args) {
  size_t i = 0; if (fmt[i++] != '%') { vs_fail_engine("scanf format"); return -1; }
  int lng = 0; while (fmt[i] == 'l') { lng++; i++; }
  wchar_t c = fmt[i]; if (!(c == 'G' || c == 'g' || c == 'f' || c == 'F' || c == 'e' || c == 'E') || fmt[i + 1]) { vs_fail_engine("scanf format"); return -1; }
  vsm_wcslen(str); // the platform reads the text up to its terminator at most
  if (!vsm_swscanf_real) { vs_fail_engine("scanf outcome model missing"); return -1; }
  double d; int r = vsm_swscanf_real(str, &d);
  if (r == 1) { if (lng) *(double *)args[0] = d; else *(float *)args[0] = (float)d; }
  return r;
}

// exponents of doubles (glibc: FP_ILOGB0 = FP_ILOGBNAN = INT_MIN)
static int exponentOf(double x) { union { double d; unsigned long long b; } v; v.d = x; unsigned long long m = v.b & 0xfffffffffffffull; int e = (int)(v.b >> 52 & 0x7ff); if (e) return e - 1023; e = -1023; while (!(m & 0x8000000000000ull)) { m <<= 1; e--; } return e; }
int vsm_ilogb(double x) { if (x != x || x == 0) return -2147483647 - 1; if (__builtin_isinf(x)) return 2147483647; return exponentOf(x); }
double vsm_logb(double x) { if (x != x) return x; if (x == 0) return -__builtin_inf(); if (__builtin_isinf(x)) return __builtin_inf(); return exponentOf(x); }
