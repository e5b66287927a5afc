// Number parsing that shows the sanitizer which bytes it looks at (libc itself is not instrumented).
#include <cstddef>
extern "C" {
double __strtod_internal(const char*, char**, int); long __strtol_internal(const char*, char**, int, int); unsigned long __strtoul_internal(const char*, char**, int, int);
double (*vp_strtod_hook)(const char*, char**); long long (*vp_strtoll_hook)(const char*, char**); unsigned long long (*vp_strtoull_hook)(const char*, char**);
static void touch(const char* s, const char* e) {   // leading blanks, the number, and the character that ended it
  volatile char c; const char* p = s;
  while ((c = *p) == ' ' || (c >= 9 && c <= 13)) ++p;
  for (; p < e; ++p) c = *p;
  c = *p; (void)c;
}
#define W(T, N, IN, H) T N(const char* s, char** e, int b) { if (H) return (T)H(s, e); char* x; touch(s, s); T r = IN(s, &x, b, 0); touch(s, x); if (e) *e = x; return r; }
double strtod(const char* s, char** e) { if (vp_strtod_hook) return vp_strtod_hook(s, e); char* x; touch(s, s); double r = __strtod_internal(s, &x, 0); touch(s, x); if (e) *e = x; return r; }
W(long, strtol, __strtol_internal, vp_strtoll_hook) W(long long, strtoll, __strtol_internal, vp_strtoll_hook) W(unsigned long, strtoul, __strtoul_internal, vp_strtoull_hook) W(unsigned long long, strtoull, __strtoul_internal, vp_strtoull_hook)
W(long, __isoc23_strtol, __strtol_internal, vp_strtoll_hook) W(long long, __isoc23_strtoll, __strtol_internal, vp_strtoll_hook) W(unsigned long, __isoc23_strtoul, __strtoul_internal, vp_strtoull_hook) W(unsigned long long, __isoc23_strtoull, __strtoul_internal, vp_strtoull_hook)
}
