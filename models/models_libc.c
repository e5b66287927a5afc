// Models of libc functions (C, compiled with -fno-builtin), executed symbolically.
#include <stddef.h>
#include <stdint.h>
#define EINVAL 22
#define ERANGE 34
void* malloc(size_t); void* memcpy(void*, const void*, size_t);
void sym_unmodelled(const char*); uint64_t sym_u64(const char*); void sym_assume(int);
static double sym_double(const char* n) { uint64_t u = sym_u64(n); double d; memcpy(&d, &u, 8); return d; }
size_t strlen(const char* s) { size_t n = 0; while (s[n] != '\0') ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n] != '\0') ++n; return n; }
char* strchr(const char* s, int c) {
  for (;; ++s) { if (*s == (char)c) return (char*)(s); if (*s == '\0') return NULL; }
}
char* strrchr(const char* s, int c) {
  const char* r = NULL;
  for (;; ++s) { if (*s == (char)c) r = s; if (*s == '\0') return (char*)(r); }
}
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)(p);
  for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (unsigned char*)(s + i);
  return NULL;
}
void* memrchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)(p);
  while (n-- > 0) if (s[n] == (unsigned char)c) return (unsigned char*)(s + n);
  return NULL;
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char* strcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
char* strdup(const char* s) { size_t n = strlen(s); char* r = (char*)(malloc(n + 1)); memcpy(r, s, n + 1); return r; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int tolower(int c) { return (unsigned)c - 'A' < 26u ? c + 32 : c; }
int toupper(int c) { return (unsigned)c - 'a' < 26u ? c - 32 : c; }
static int the_errno;
int* __errno_location() { return &the_errno; }

// ---- integer parsing (glibc semantics, "C" locale)
static unsigned long long parse_int(const char* s, char** end, int base, _Bool sgn) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  _Bool neg = 0;
  if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  if (base != 10 && base != 16 && base != 0) sym_unmodelled("strtol base");
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
    char h = p[2];
    if ((unsigned)h - '0' < 10u || (unsigned)(h | 32) - 'a' < 6u) { p += 2; base = 16; }
  }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char* start = p;
  unsigned long long v = 0; _Bool ovf = 0;
  for (;; ++p) {
    unsigned c = (unsigned char)*p, dig;
    if (c - '0' < 10u) dig = c - '0';
    else if ((c | 32) - 'a' < 26u && base > 10) dig = (c | 32) - 'a' + 10;
    else break;
    if ((int)dig >= base) break;
    unsigned long long nv = v * base + dig;
    if (p - start >= 15) {   // cannot overflow earlier
      if (v > (~0ull - dig) / base) ovf = 1;
    }
    v = nv;
  }
  if (p == start) { if (end) *end = (char*)(s); return 0; }
  if (end) *end = (char*)(p);
  if (sgn) {
    if (ovf || v > (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull)) { the_errno = ERANGE; return neg ? 0x8000000000000000ull : 0x7fffffffffffffffull; }
    return neg ? 0 - v : v;
  }
  if (ovf) { the_errno = ERANGE; return ~0ull; }
  return neg ? 0 - v : v;
}
// a harness may decide what a text means as a number (every value, without spelling it)
double (*vp_strtod_hook)(const char*, char**); long long (*vp_strtoll_hook)(const char*, char**); unsigned long long (*vp_strtoull_hook)(const char*, char**);
long long __isoc23_strtoll(const char* s, char** e, int b) { if (vp_strtoll_hook) return vp_strtoll_hook(s, e); return (long long)parse_int(s, e, b, 1); }
long __isoc23_strtol(const char* s, char** e, int b) { return (long)parse_int(s, e, b, 1); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { if (vp_strtoull_hook) return vp_strtoull_hook(s, e); return parse_int(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return parse_int(s, e, b, 0); }
long long strtoll(const char* s, char** e, int b) { if (vp_strtoll_hook) return vp_strtoll_hook(s, e); return (long long)parse_int(s, e, b, 1); }
unsigned long long strtoull(const char* s, char** e, int b) { if (vp_strtoull_hook) return vp_strtoull_hook(s, e); return parse_int(s, e, b, 0); }
long strtol(const char* s, char** e, int b) { return (long)parse_int(s, e, b, 1); }
int atoi(const char* s) { return (int)parse_int(s, NULL, 10, 1); }

// ---- strtod: exact for decimal inputs with <= 19 significant digits whose value is an integer below 2^53
// times/divided by a power of ten <= 22 (Clinger's fast path, exact by IEEE division); otherwise the
// value is an arbitrary double of the right sign (the end pointer is always exact).
static const double kPow10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
// the same text at the same place parses to the same number
static struct { const char* at; int n; char text[24]; double v; } kOther[4]; static int nOther;
int sym_and(int, int);
static double other(const char* s, const char* e) {
  for (int i = 0; i < nOther; ++i) if (kOther[i].at == s && kOther[i].n == (int)(e - s)) { int eq = 1; for (int k = 0; k < kOther[i].n && k < 24; ++k) eq = sym_and(eq, kOther[i].text[k] == s[k]); if (eq) return kOther[i].v; }
  double r = sym_double("~strtod_other"); sym_assume(r >= 0);
  if (nOther < 4) { kOther[nOther].at = s; kOther[nOther].n = (int)(e - s); for (int k = 0; k < (int)(e - s) && k < 24; ++k) kOther[nOther].text[k] = s[k]; kOther[nOther].v = r; ++nOther; }
  return r;
}
static _Bool ci(const char* p, const char* w) {   // case-insensitive prefix, w lower case
  for (; *w; ++p, ++w) if ((*p | 32) != *w) return 0;
  return 1;
}
// one path per position
unsigned long sym_concretize(unsigned long);
static const char* at(const char* s, const char* p) { return s + sym_concretize((unsigned long)(p - s)); }
double strtod(const char* s, char** end) {
  if (vp_strtod_hook) return vp_strtod_hook(s, end);
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  _Bool neg = 0;
  if (*p == '-') { neg = 1; ++p; } else if (*p == '+') ++p;
  p = at(s, p);
  double r = 0;
  if ((*p | 32) == 'i') {
    if (!ci(p, "inf")) { if (end) *end = (char*)(s); return 0; }
    p += 3;
    if (ci(p, "inity")) p += 5;
    if (end) *end = (char*)(p);
    return neg ? -__builtin_inf() : __builtin_inf();
  }
  if ((*p | 32) == 'n') {
    if (!ci(p, "nan")) { if (end) *end = (char*)(s); return 0; }
    p += 3;
    if (*p == '(') {
      const char* q = p + 1;
      while (isdigit((unsigned char)*q) || ((unsigned)(*q | 32) - 'a') < 26u || *q == '_') ++q;
      if (*q == ')') p = q + 1;
    }
    if (end) *end = (char*)(p);
    return __builtin_nan("");
  }
  if (p[0] == '0' && (p[1] | 32) == 'x') {
    const char* q = p + 2;
    unsigned long long m = 0; int nd = 0, frac = 0; _Bool dot = 0, big = 0;
    for (;; ++q) {
      unsigned c = (unsigned char)*q, d;
      if (c - '0' < 10u) d = c - '0'; else if ((c | 32) - 'a' < 6u) d = (c | 32) - 'a' + 10;
      else if (c == '.' && !dot) { dot = 1; continue; }
      else break;
      ++nd; if (nd > 13) big = 1; else m = m * 16 + d;
      if (dot) ++frac;
    }
    if (nd > 0) {
      int ex = 0;
      if ((*q | 32) == 'p') {
        const char* t = q + 1; _Bool en = 0;
        if (*t == '-') { en = 1; ++t; } else if (*t == '+') ++t; t = at(s, t);
        if (isdigit((unsigned char)*t)) { while (isdigit((unsigned char)*t)) { if (ex < 5000) ex = ex * 10 + (*t - '0'); ++t; } if (en) ex = -ex; q = t; }
      }
      q = at(s, q); if (end) *end = (char*)(q);
      int e2 = ex - 4 * frac;
      if (big || e2 < -900 || e2 > 900) r = other(s, q);
      else { r = (double)m; for (; e2 > 0; --e2) r *= 2.0; for (; e2 < 0; ++e2) r *= 0.5; }
      return neg ? -r : r;
    }
    if (end) *end = (char*)(p + 1);   // just the "0"
    return neg ? -0.0 : 0.0;
  }
  unsigned long long m = 0; int nd = 0, sig = 0, exp10 = 0; _Bool dot = 0;
  for (;; ++p) {
    unsigned c = (unsigned char)*p;
    if (c - '0' < 10u) { ++nd; if (sig < 15) { m = m * 10 + (c - '0'); ++sig; if (dot) --exp10; } else { sig = 99; } }
    else if (c == '.' && !dot) { dot = 1; }
    else break;
  }
  if (nd == 0) { if (end) *end = (char*)(s); return 0; }
  if ((*p | 32) == 'e') {
    const char* t = p + 1; _Bool en = 0; int ex = 0;
    if (*t == '-') { en = 1; ++t; } else if (*t == '+') ++t; t = at(s, t);
    if (isdigit((unsigned char)*t)) { while (isdigit((unsigned char)*t)) { if (ex < 5000) ex = ex * 10 + (*t - '0'); ++t; } exp10 += en ? -ex : ex; p = t; }
  }
  p = at(s, p); exp10 = (int)sym_concretize((unsigned long)(long)exp10); neg = sym_concretize(neg); if (end) *end = (char*)(p);
  if (sig == 99 || exp10 > 22 || exp10 < -22) {
    if (sig != 99 && m == 0) r = 0;
    else r = other(s, p);
  } else if (exp10 >= 0) r = (double)m * kPow10[exp10];
  else r = (double)m / kPow10[-exp10];
  return neg ? -r : r;
}
double __isoc23_strtod(const char* s, char** e) { return strtod(s, e); }
int pthread_mutex_lock(void* m) { void sym_mutex_lock(void*); sym_mutex_lock(m); return 0; }
int pthread_mutex_unlock(void* m) { void sym_mutex_unlock(void*); sym_mutex_unlock(m); return 0; }
int pthread_mutex_trylock(void* m) { int sym_mutex_trylock(void*); return sym_mutex_trylock(m) ? 0 : 16; }
int vp_cond_wait(void*, void*, const void*);
int pthread_cond_clockwait(void* c, void* m, int k, const void* t) { return vp_cond_wait(c, m, t); }
int pthread_cond_timedwait(void* c, void* m, const void* t) { return vp_cond_wait(c, m, t); }
int pthread_cond_wait(void* c, void* m) { return vp_cond_wait(c, m, 0); }
int pthread_mutex_destroy(void* m) { return 0; }
int pthread_cond_destroy(void* m) { return 0; }
char __libc_single_threaded = 0;
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*) { return 0; }

__attribute__((weak)) void env_sleep(long ns) {}
int nanosleep(const void* req, void* rem) { const long* t = req; env_sleep(t[0] * 1000000000l + t[1]); return 0; }
