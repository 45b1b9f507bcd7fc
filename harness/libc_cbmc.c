/* libc functions CBMC has no (usable) body for; solver mode only, the native replay
 * uses the real libc. Written from the C/POSIX contracts, with glibc's choices where
 * the contract leaves one (strptime number parsing). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <time.h>
#include <stdio.h>
#include <string.h>

#include "v.h"
#ifdef VERIF_SX
/* the symbolic executor provides the memory and text primitives itself */
void v_bound(const char *t);
#define __CPROVER_assert(c, t) do { if (!(c)) v_bound(t); } while (0)
#define __CPROVER_assume(c) do { if (!(c)) v_vacuous(__FILE__, __LINE__); } while (0)
#else
/* ---- text lengths --------------------------------------------------------
 * A text in a capacity object carries its terminator's offset as a ghost in the
 * object's slack, so that lengths stay constants of the symbolic execution. The
 * ghost is only a hint: every use asserts that it is the real length. */
static bool ghost(const char *s, size_t *out) {
#ifndef V_NOGHOST
  if (V_HAVE_CAP && s != NULL && __CPROVER_OBJECT_SIZE(s) == V_CAPSZ) {
    size_t off = __CPROVER_POINTER_OFFSET(s);
    const uint8_t *b = (const uint8_t *)s - off;
    size_t e = (size_t)b[0] | (size_t)b[1] << 8;
    if (e != 0 && e >= off) {
      size_t l = e - off;
      bool ok = s[l] == 0;
      for (size_t i = 0; i < l; i++) if (s[i] == 0) ok = false;
      __CPROVER_assert(ok, "GHOST text length is exact");
      *out = l;
      return true;
    }
  }
#endif
  return false;
}
void v_text_end(const char *d, size_t l) {
#ifndef V_NOGHOST
  if (V_HAVE_CAP && d != NULL && __CPROVER_OBJECT_SIZE(d) == V_CAPSZ) {
    size_t off = __CPROVER_POINTER_OFFSET(d);
    uint8_t *b = (uint8_t *)d - off;
    b[0] = (uint8_t)(off + l); b[1] = (uint8_t)((off + l) >> 8);
  }
#endif
}
size_t strlen(const char *s) {
  size_t l;
  if (ghost(s, &l)) return l;
  for (l = 0; s[l]; l++);
  return l;
}
size_t strnlen(const char *s, size_t n) {
  size_t l;
  if (ghost(s, &l)) return l < n ? l : n;
  for (l = 0; l < n && s[l]; l++);
  return l;
}
char *strcpy(char *d, const char *s) {
  size_t l = strlen(s);
  for (size_t i = 0; i < l; i++) d[i] = s[i];
  d[l] = 0;
  v_text_end(d, l);
  return d;
}
char *strncpy(char *d, const char *s, size_t n) {
  size_t l = strnlen(s, n);
  for (size_t i = 0; i < l; i++) d[i] = s[i];
  for (size_t i = l; i < n; i++) d[i] = 0;
  if (l < n) v_text_end(d, l);
  else if (__CPROVER_OBJECT_SIZE(d) == V_CAPSZ && V_HAVE_CAP && __CPROVER_POINTER_OFFSET(d) + n < V_CAPSZ && d[n] == 0)
    v_text_end(d, n); /* the byte after is already zero (zeroed allocation) */
  return d;
}
char *strcat(char *d, const char *s) {
  size_t a = strlen(d), l = strlen(s);
  for (size_t i = 0; i < l; i++) d[a + i] = s[i];
  d[a + l] = 0;
  v_text_end(d, a + l);
  return d;
}
int strcmp(const char *a, const char *b) {
  size_t la, lb;
  if (ghost(a, &la) && ghost(b, &lb)) {
    size_t m = la < lb ? la : lb;
    int r = 0;
    for (size_t i = 0; i <= m; i++) if (r == 0) r = (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    return r;
  }
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && a[i] == b[i]) i++;
  return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}

#endif
/* ---- formatted output -------------------------------------------------- */
struct sink { char *p; size_t cap; size_t n; };
static void put(struct sink *s, char c) {
  if (s->cap == (size_t)-1 || s->n + 1 < s->cap) s->p[s->n] = c;
  s->n++;
}
static void put_num(struct sink *s, unsigned long long v, unsigned base, bool upper, bool neg, int width, bool zero,
                    bool left, int prec) {
  char t[24];
  int n = 0;
  do {
    unsigned d = (unsigned)(v % base);
    t[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10));
    v /= base;
  } while (v != 0);
  while (n < prec && n < 22) t[n++] = '0';
  int len = n + (neg ? 1 : 0);
  if (!left && !zero) for (int i = len; i < width; i++) put(s, ' ');
  if (neg) put(s, '-');
  if (!left && zero) for (int i = len; i < width; i++) put(s, '0');
  while (n > 0) put(s, t[--n]);
  if (left) for (int i = len; i < width; i++) put(s, ' ');
}
static int vfmt(char *buf, size_t cap, const char *f, va_list ap) {
  struct sink s = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&s, *f); continue; }
    f++;
    bool zero = false, left = false;
    int width = 0, prec = -1, lm = 0;
    while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') {
      if (*f == '0') zero = true;
      if (*f == '-') left = true;
      f++;
    }
    if (*f == '*') { width = va_arg(ap, int); f++; }
    else while (*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); f++; }
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (*f >= '0' && *f <= '9') { prec = prec * 10 + (*f - '0'); f++; }
    }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lm = 1;
      if (*f == 'h') lm--;
      f++;
    }
    switch (*f) {
      case '%': put(&s, '%'); break;
      case 'c': put(&s, (char)va_arg(ap, int)); break;
      case 's': {
        const char *a = va_arg(ap, const char *);
        if (a == NULL) a = "(null)";
        size_t l = prec < 0 ? strlen(a) : strnlen(a, (size_t)prec);
        if (!left) for (int i = (int)l; i < width; i++) put(&s, ' ');
        for (size_t i = 0; i < l; i++) put(&s, a[i]);
        if (left) for (int i = (int)l; i < width; i++) put(&s, ' ');
        break;
      }
      case 'd': case 'i': {
        long long v = lm > 0 ? va_arg(ap, long long) : (long long)va_arg(ap, int);
        bool neg = v < 0;
        put_num(&s, neg ? -(unsigned long long)v : (unsigned long long)v, 10, false, neg, width, zero && prec < 0, left, prec);
        break;
      }
      case 'u': case 'x': case 'X': {
        unsigned long long v = lm > 0 ? va_arg(ap, unsigned long long) : (unsigned long long)va_arg(ap, unsigned);
        if (lm == -2) v = (unsigned char)v;
        if (lm == -1) v = (unsigned short)v;
        put_num(&s, v, *f == 'u' ? 10 : 16, *f == 'X', false, width, zero && prec < 0, left, prec);
        break;
      }
      case 'p': { uintptr_t v = (uintptr_t)va_arg(ap, void *); put_num(&s, v, 16, false, false, width, false, left, -1); break; }
      default: __CPROVER_assert(0, "BOUND format directive outside the model");
    }
  }
  if (cap == (size_t)-1) { buf[s.n] = 0; v_text_end(buf, s.n); }
  else if (cap > 0) buf[s.n < cap ? s.n : cap - 1] = 0;
  return (int)s.n;
}
int vsnprintf(char *b, size_t n, const char *f, va_list ap) { return vfmt(b, n, f, ap); }
int snprintf(char *b, size_t n, const char *f, ...) {
  va_list ap; va_start(ap, f);
  int r = vfmt(b, n, f, ap);
  va_end(ap);
  return r;
}
int vsprintf(char *b, const char *f, va_list ap) { return vfmt(b, (size_t)-1, f, ap); }
int sprintf(char *b, const char *f, ...) {
  va_list ap; va_start(ap, f);
  int r = vfmt(b, (size_t)-1, f, ap);
  va_end(ap);
  return r;
}

/* ---- calendar text ------------------------------------------------------ */
static bool two(char *s, size_t max, size_t *n, int v) {
  if (v < 0 || v > 99) { __CPROVER_assert(0, "BOUND calendar field outside the model"); __CPROVER_assume(0); }
  if (*n + 2 >= max) return false;
  s[(*n)++] = (char)('0' + v / 10);
  s[(*n)++] = (char)('0' + v % 10);
  return true;
}
static bool lit(char *s, size_t max, size_t *n, char c) {
  if (*n + 1 >= max) return false;
  s[(*n)++] = c;
  return true;
}
size_t strftime(char *s, size_t max, const char *f, const struct tm *tm) {
  size_t n = 0;
  for (; *f; f++) {
    bool ok = true;
    if (*f != '%') ok = lit(s, max, &n, *f);
    else switch (*++f) {
      case 'Y': {
        int y = tm->tm_year + 1900;
        if (y < 1000 || y > 9999) { __CPROVER_assert(0, "BOUND year outside the model"); __CPROVER_assume(0); }
        ok = two(s, max, &n, y / 100) && two(s, max, &n, y % 100);
        break;
      }
      case 'm': ok = two(s, max, &n, tm->tm_mon + 1); break;
      case 'd': ok = two(s, max, &n, tm->tm_mday); break;
      case 'H': ok = two(s, max, &n, tm->tm_hour); break;
      case 'I': ok = two(s, max, &n, tm->tm_hour % 12 == 0 ? 12 : tm->tm_hour % 12); break;
      case 'M': ok = two(s, max, &n, tm->tm_min); break;
      case 'S': ok = two(s, max, &n, tm->tm_sec); break;
      case 'y': ok = two(s, max, &n, (tm->tm_year + 1900) % 100); break;
      case 'F': {
        int y = tm->tm_year + 1900;
        if (y < 1000 || y > 9999) { __CPROVER_assert(0, "BOUND year outside the model"); __CPROVER_assume(0); }
        ok = two(s, max, &n, y / 100) && two(s, max, &n, y % 100) && lit(s, max, &n, '-') &&
             two(s, max, &n, tm->tm_mon + 1) && lit(s, max, &n, '-') && two(s, max, &n, tm->tm_mday);
        break;
      }
      case 'T':
        ok = two(s, max, &n, tm->tm_hour) && lit(s, max, &n, ':') && two(s, max, &n, tm->tm_min) && lit(s, max, &n, ':') &&
             two(s, max, &n, tm->tm_sec);
        break;
      case '%': ok = lit(s, max, &n, '%'); break;
      default: __CPROVER_assert(0, "BOUND strftime directive outside the model");
    }
    if (!ok) return 0;
  }
  if (n >= max) return 0;
  s[n] = 0;
  return n;
}
static const char *num(const char *p, int lo, int hi, int digits, int *out) {
  while (*p == ' ') p++;
  if (*p < '0' || *p > '9') return NULL;
  int v = 0;
  for (int i = 0; i < digits && *p >= '0' && *p <= '9'; i++) v = v * 10 + (*p++ - '0');
  if (v < lo || v > hi) return NULL;
  *out = v;
  return p;
}
static const int mdays[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
char *strptime(const char *p, const char *f, struct tm *tm) {
  bool y = false, m = false, d = false;
  int v;
  for (; *f; f++) {
    if (*f == ' ') { while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; continue; }
    if (*f != '%') { if (*p != *f) return NULL; p++; continue; }
    switch (*++f) {
      case 'Y': if (!(p = num(p, 0, 9999, 4, &v))) return NULL; tm->tm_year = v - 1900; y = true; break;
      case 'm': if (!(p = num(p, 1, 12, 2, &v))) return NULL; tm->tm_mon = v - 1; m = true; break;
      case 'd': if (!(p = num(p, 1, 31, 2, &v))) return NULL; tm->tm_mday = v; d = true; break;
      case 'H': if (!(p = num(p, 0, 23, 2, &v))) return NULL; tm->tm_hour = v; break;
      case 'M': if (!(p = num(p, 0, 59, 2, &v))) return NULL; tm->tm_min = v; break;
      case 'S': if (!(p = num(p, 0, 61, 2, &v))) return NULL; tm->tm_sec = v; break;
      case 'F':
        if (!(p = num(p, 0, 9999, 4, &v))) return NULL; tm->tm_year = v - 1900; y = true;
        if (*p++ != '-') return NULL;
        if (!(p = num(p, 1, 12, 2, &v))) return NULL; tm->tm_mon = v - 1; m = true;
        if (*p++ != '-') return NULL;
        if (!(p = num(p, 1, 31, 2, &v))) return NULL; tm->tm_mday = v; d = true;
        break;
      case 'T':
        if (!(p = num(p, 0, 23, 2, &v))) return NULL; tm->tm_hour = v;
        if (*p++ != ':') return NULL;
        if (!(p = num(p, 0, 59, 2, &v))) return NULL; tm->tm_min = v;
        if (*p++ != ':') return NULL;
        if (!(p = num(p, 0, 61, 2, &v))) return NULL; tm->tm_sec = v;
        break;
      default: __CPROVER_assert(0, "BOUND strptime directive outside the model");
    }
  }
  if (y && m && d) {
    int yr = tm->tm_year, mon = tm->tm_mon;
    bool leap = ((yr + 1900) % 4 == 0 && ((yr + 1900) % 100 != 0 || (yr + 1900) % 400 == 0));
    int cy = yr + 1900;
    int yy = mon < 2 ? cy - 1 : cy;
    int t = (int[]){0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4}[mon];
    tm->tm_wday = (yy + (yy >= 0 ? yy / 4 - yy / 100 + yy / 400 : -1) + t + tm->tm_mday + 7) % 7;
    tm->tm_yday = mdays[mon] + (leap && mon > 1) + tm->tm_mday - 1;
  }
  return (char *)p;
}

/* ---- memory and text ----------------------------------------------------- */
void *memccpy(void *d, const void *s, int c, size_t n) {
  unsigned char *dd = d;
  const unsigned char *ss = s;
  for (size_t i = 0; i < n; i++) {
    dd[i] = ss[i];
    if (ss[i] == (unsigned char)c) return dd + i + 1;
  }
  return NULL;
}
#ifndef VERIF_SX
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (size_t i = 0; i < n; i++)
    if (p[i] == (unsigned char)c) return (void *)(p + i);
  return NULL;
}
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (size_t i = 0; i < n; i++)
    if (p[i] != q[i]) return (int)p[i] - (int)q[i];
  return 0;
}
void *memcpy(void *d, const void *s, size_t n) {
  unsigned char *p = d;
  const unsigned char *q = s;
  for (size_t i = 0; i < n; i++) p[i] = q[i];
  return d;
}
#endif
size_t strspn(const char *s, const char *a) {
  size_t i = 0;
  for (; s[i]; i++) {
    size_t j = 0;
    while (a[j] && a[j] != s[i]) j++;
    if (!a[j]) break;
  }
  return i;
}
size_t strcspn(const char *s, const char *a) {
  size_t i = 0;
  for (; s[i]; i++) {
    size_t j = 0;
    while (a[j] && a[j] != s[i]) j++;
    if (a[j]) break;
  }
  return i;
}
