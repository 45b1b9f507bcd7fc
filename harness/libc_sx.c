/* further C library functions for the symbolic executor, from their contracts */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include "v.h"
void v_bound(const char *t);
char *stpcpy(char *d, const char *s) { size_t l = strlen(s); memcpy(d, s, l + 1); return d + l; }
char *strncat(char *d, const char *s, size_t n) {
  size_t a = strlen(d), l = strnlen(s, n);
  memcpy(d + a, s, l);
  d[a + l] = 0;
  return d;
}
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && lo((unsigned char)a[i]) == lo((unsigned char)b[i])) i++;
  return lo((unsigned char)a[i]) - lo((unsigned char)b[i]);
}
int strncasecmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && lo((unsigned char)a[i]) == lo((unsigned char)b[i])) i++;
  return i == n ? 0 : lo((unsigned char)a[i]) - lo((unsigned char)b[i]);
}
char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  if (l == 0) return (char *)h;
  for (; *h; h++) if (strncmp(h, n, l) == 0) return (char *)h;
  return NULL;
}
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strtok_r(char *s, const char *d, char **p) {
  if (s == NULL) s = *p;
  s += strspn(s, d);
  if (*s == 0) { *p = s; return NULL; }
  char *e = s + strcspn(s, d);
  if (*e) *e++ = 0;
  *p = e;
  return s;
}
void *memrchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  while (n-- > 0) if (p[n] == (unsigned char)c) return (void *)(p + n);
  return NULL;
}
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isprint(int c) { return c >= 32 && c <= 126; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static long long tol(const char *s, char **e, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  bool neg = false, any = false, ovf = false;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, lim = 0x7fffffffffffffffull;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0';
    else if (lo(c) >= 'a' && lo(c) <= 'z') d = lo(c) - 'a' + 10;
    else break;
    if (d >= base) break;
    any = true;
    if (v > lim / (unsigned)base || (v == lim / (unsigned)base && (unsigned)d > lim % (unsigned)base)) ovf = true;
    else v = v * (unsigned)base + (unsigned)d;
  }
  if (e) *e = (char *)(any ? p : s);
  if (ovf) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? -(long long)v : (long long)v;
}
long strtol(const char *s, char **e, int b) { return tol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return tol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)tol(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return tol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return tol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)tol(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return (unsigned long long)tol(s, e, b); }
int atoi(const char *s) { return (int)tol(s, NULL, 10); }
long atol(const char *s) { return tol(s, NULL, 10); }
/* <ctype.h> macros of glibc */
static unsigned short ctab[384];
static int ltab[384], utab[384];
static const unsigned short *cp = ctab + 128;
static const int *lp = ltab + 128, *up = utab + 128;
static void fill(void) {
  if (ltab[128 + 'a'] != 0) return;
  for (int c = -128; c < 256; c++) {
    ltab[c + 128] = c >= 0 && c < 128 ? lo(c) : c;
    utab[c + 128] = c >= 'a' && c <= 'z' ? c - 32 : c;
    unsigned short m = 0;
    if (c >= 0 && c < 128) {
      if (isupper(c)) m |= 1 << 8;
      if (islower(c)) m |= 1 << 9;
      if (isalpha(c)) m |= 1 << 10;
      if (isdigit(c)) m |= 1 << 11;
      if (isxdigit(c)) m |= 1 << 12;
      if (isspace(c)) m |= 1 << 13;
      if (isprint(c)) m |= 1 << 14;
      if (isprint(c) && c != ' ') m |= 1 << 15;
      if (c == ' ' || c == '\t') m |= 1;
      if (iscntrl(c)) m |= 2;
      if (isprint(c) && !isalnum(c) && c != ' ') m |= 4;
      if (isalnum(c)) m |= 8;
    }
    ctab[c + 128] = m;
  }
}
const unsigned short **__ctype_b_loc(void) { fill(); return &cp; }
const int **__ctype_tolower_loc(void) { fill(); return &lp; }
const int **__ctype_toupper_loc(void) { fill(); return &up; }
char *basename(const char *s) { const char *b = s; for (; *s; s++) if (*s == '/') b = s + 1; return (char *)b; }
char *__xpg_basename(char *s) { return basename(s); }
