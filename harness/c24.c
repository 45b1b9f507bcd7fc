/* C24: memory and text helpers */
#include <string.h>
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#include "v.h"
#define calloc v_calloc
#include "utils/os.h"
static void *exact(size_t n) { return u_malloc(n); }
/* every text of 0..6 characters, every destination of 0..6 bytes */
void h_strlcpy(void) {
  size_t l = nd_pick(0, MAXL), siz = nd_pick(0, MAXL), extra = nd_pick(0, 1);
  char *s = nd_text(l);
  uint8_t *d = (uint8_t *)nd_buf(siz + extra), last = extra ? d[siz] : 0;
  size_t r = sys_strlcpy((char *)d, s, siz);
  VASSERT(r == l, "bounded copy reports the length of the source");
  size_t k = siz == 0 ? 0 : l < siz ? l : siz - 1;
  for (size_t i = 0; i < k; i++) VASSERT(d[i] == (uint8_t)s[i], "bounded copy copies the leading characters");
  if (siz > 0) VASSERT(d[k] == 0, "bounded copy terminates the copy");
  if (extra) VASSERT(d[siz] == last, "nothing is written behind the destination");
  if (l >= siz && siz) VWITNESS("cut");
  if (l < siz) VWITNESS("fits");
}
/* text in a buffer of n bytes, terminated or not, any bound up to the buffer or beyond its terminator */
void h_strnlen(void) {
  size_t n = nd_pick(0, MAXL), b = nd_pick(0, MAXL + 2);
  char *s = (char *)nd_buf(n);
  size_t l = 0;
  while (l < n && s[l]) l++;
  VASSUME(l < n || b <= n);
  size_t r = sys_strnlen_s(s, b);
  VASSERT(r == (l < b ? l : b), "bounded length is the length, at most the bound");
  if (r == b) VWITNESS("bound"); else VWITNESS("length");
}
void h_strndup(void) {
  size_t n = nd_pick(0, MAXL), b = nd_pick(0, MAXL + 2);
  char *s = (char *)nd_buf(n);
  size_t l = 0;
  while (l < n && s[l]) l++;
  VASSUME(l < n || b <= n);
#ifdef OOM
  v_oom_at = (int)nd_range(1, 2);
#endif
  char *d = sys_strndup(s, b);
  VASSERT((d == NULL) == v_oom_hit, "a copy is given exactly when there is memory");
  if (d == NULL) { VASSERT(v_live == 0, "nothing allocated"); VWITNESS("out of memory"); return; }
  size_t k = l < b ? l : b;
  VASSERT(strlen(d) == k && memcmp(d, s, k) == 0 && d != s, "the copy is the text up to the bound");
  VWITNESS("copied");
  d[0] = 0;
  v_free(d);
  VASSERT(v_live == 0, "one allocation");
}
void h_strdup(void) {
  size_t n = nd_pick(0, MAXL);
  char *s = nd_text(n);
#ifdef OOM
  v_oom_at = (int)nd_range(1, 2);
#endif
  char *d = sys_strdup(s);
  VASSERT((d == NULL) == v_oom_hit, "a copy is given exactly when there is memory");
  if (d == NULL) { VASSERT(v_live == 0, "nothing allocated"); VWITNESS("out of memory"); return; }
  VASSERT(strcmp(d, s) == 0 && d != s, "the copy is equal");
  VWITNESS("copied");
  v_free(d);
  VASSERT(v_live == 0, "one allocation");
}
void h_memdup(void) {
  size_t n = nd_pick(1, MAXL);
  bool none = nd_bool();
  uint8_t *s = none ? NULL : nd_buf(n);
#ifdef OOM
  v_oom_at = (int)nd_range(1, 2);
#endif
  uint8_t *d = sys_memdup(s, n);
  if (none) { VASSERT(d == NULL && v_live == 0, "no source, no copy"); return; }
  VASSERT((d == NULL) == v_oom_hit, "a copy is given exactly when there is memory");
  if (d == NULL) { VASSERT(v_live == 0, "nothing allocated"); VWITNESS("out of memory"); return; }
  VASSERT(memcmp(d, s, n) == 0, "the copy is equal");
  d[n - 1]++;
  VASSERT((uint8_t)(d[n - 1] - 1) == s[n - 1], "the copy is independent");
  VWITNESS("copied");
  v_free(d);
  VASSERT(v_live == 0, "one allocation");
}
void h_zalloc(void) {
  size_t n = nd_pick(1, MAXL);
#ifdef OOM
  v_oom_at = (int)nd_range(1, 2);
#endif
  uint8_t *d = sys_zalloc(n);
  VASSERT((d == NULL) == v_oom_hit, "memory is given exactly when there is some");
  if (d == NULL) { VWITNESS("out of memory"); return; }
  for (size_t i = 0; i < n; i++) VASSERT(d[i] == 0, "new memory is zero");
  VWITNESS("copied");
  v_free(d);
}
/* growing: the allocator is asked for exactly the product, never for a product that wrapped around */
static size_t asked;
static void *from, *answer;
static int calls;
void *x_realloc(void *p, size_t n) { calls++; asked = n; VASSERT(p == from, "the given memory is grown"); return answer; }
void *x_reallocarray(void *p, size_t n, size_t m) { __uint128_t w = (__uint128_t)n * m; return w >> 64 ? NULL : x_realloc(p, (size_t)w); }
static void grow(size_t n, size_t m) {
  static char a, b;
  from = nd_bool() ? &a : NULL;
  answer = nd_bool() ? &b : NULL;
  void *r = sys_realloc_array(from, n, m);
  bool over = m != 0 && n > SIZE_MAX / m;
  if (over) { VASSERT(r == NULL && calls == 0, "a size that overflows is refused"); VWITNESS("refused"); return; }
  VASSERT(calls == 1 && asked == n * m && r == answer, "memory of exactly the product of both sizes");
  VWITNESS("grown");
}
void h_grow(void) {
  static const size_t sizes[] = {0, 1, 2, 3, 4, 7, 8, 16, 24, 100, 4096, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 33,
    (size_t)1 << 62, (size_t)1 << 63, SIZE_MAX - 1, SIZE_MAX};
  size_t k = nd_pick(0, 63 + sizeof sizes / sizeof *sizes), n = nd_size();
  size_t m = k < 64 ? k : sizes[k - 64];
  grow(n, m);
}
/* the current time */
static struct tm TM;
static bool t_fail;
static int t_asked;
time_t x_time(time_t *t) { t_asked++; if (t) *t = 1234567; return 1234567; }
struct tm *x_localtime(const time_t *t) { VASSERT(t_asked > 0 && *t == 1234567, "the current time is converted"); return t_fail ? NULL : &TM; }
struct tm *x_localtime_r(const time_t *t, struct tm *o) { VASSERT(t_asked > 0 && *t == 1234567, "the current time is converted"); if (t_fail) return NULL; *o = TM; return o; }
void h_now(void) {
  struct tm c;
  memset(&c, 7, sizeof c);
  TM.tm_year = nd_int(); TM.tm_mon = nd_int(); TM.tm_mday = nd_int(); TM.tm_hour = nd_int(); TM.tm_min = nd_int(); TM.tm_sec = nd_int(); TM.tm_wday = nd_int(); TM.tm_yday = nd_int(); TM.tm_isdst = nd_int();
  t_fail = nd_bool();
  bool none = nd_bool();
  int r = get_localtime(none ? NULL : &c);
  VASSERT(r == (none || t_fail ? -1 : 0), "the time is given exactly when it is known and there is a place for it");
  if (r == 0) {
    VASSERT(c.tm_year == TM.tm_year && c.tm_mon == TM.tm_mon && c.tm_mday == TM.tm_mday && c.tm_hour == TM.tm_hour && c.tm_min == TM.tm_min && c.tm_sec == TM.tm_sec && c.tm_wday == TM.tm_wday &&
              c.tm_yday == TM.tm_yday && c.tm_isdst == TM.tm_isdst, "the time is the current local time");
    VWITNESS("time");
  } else VWITNESS("no time");
}
