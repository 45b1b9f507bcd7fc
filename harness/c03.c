#include "v.h"
#ifdef ONE /* one length per path */
#define EACH_N(n) for (size_t n = nd_pick(NMIN, NMAX), once_ = 1; once_; once_ = 0)
#else
#define EACH_N(n) for (size_t n = NMIN; n <= NMAX; n++)
#endif
#include <string.h>
#include <time.h>
#ifndef NMIN
#define NMIN 0
#define NMAX 0
#endif
#include "voucher/serialize.h"

static bool ci(const char *s, size_t n, const char *w) {
  size_t l = 0;
  while (w[l]) l++;
  if (n != l) return false;
  bool eq = true;
  for (size_t i = 0; i < n; i++) {
    uint8_t c = (uint8_t)s[i];
    if (c >= 'A' && c <= 'Z') c += 32;
    if (c != (uint8_t)w[i]) eq = false;
  }
  return eq;
}
/* every byte string of NMIN..NMAX bytes in a buffer of exactly that size */
void h_bool_read(void) {
  EACH_N(n) {
    char *s = (char *)nd_buf(n);
    int want = -1;
    if (ci(s, n, "true") || (n == 1 && s[0] == '1')) want = 1;
    if (ci(s, n, "false") || (n == 1 && s[0] == '0')) want = 0;
    int r = serialize_str2bool(s, n);
    if (want < 0) VASSERT(r < 0, "a text that is no boolean is an error");
    else VASSERT(r == want, "boolean text read exactly");
    VASSERT(v_live == 0, "nothing allocated");
    if (n == 4 && r == 1) VWITNESS("true read");
    if (n == 5 && r == 0) VWITNESS("false read");
    if (n == 5 && r < 0) VWITNESS("rejected");
    u_free(s);
  }
  VASSERT(serialize_str2bool(NULL, 4) < 0, "missing text is an error");
}
void h_bool_write(void) {
  bool b = nd_bool();
  char *t = serialize_bool2str(b);
  VASSERT(t != NULL, "boolean written");
  if (b) VASSERT(strcmp(t, "true") == 0, "true is written as true");
  else VASSERT(strcmp(t, "false") == 0, "false is written as false");
  VASSERT(serialize_str2bool(t, strlen(t)) == (b ? 1 : 0), "boolean text reads back");
  v_free(t);
  VASSERT(v_live == 0, "only the text allocated");
  v_alloc_n = 0; v_oom_at = 1;
  VASSERT(serialize_bool2str(b) == NULL && v_live == 0, "no memory gives no text");
  VWITNESS("boolean");
}
static void d2(const char *p, int v, const char *t) {
  (void)t;
  VASSERT(p[0] == '0' + v / 10 && p[1] == '0' + v % 10, "two-digit field");
}
void h_time_roundtrip(void) {
  struct tm tm, back;
  memset(&tm, 0, sizeof tm);
  int y = nd_int(), mo = nd_int(), d = nd_int(), h = nd_int(), mi = nd_int(), s = nd_int();
  VASSUME(y >= 1000 && y <= 9999 && mo >= 0 && mo <= 11 && d >= 1 && d <= 31 && h >= 0 && h <= 23 && mi >= 0 && mi <= 59 && s >= 0 && s <= 60);
  tm.tm_year = y - 1900; tm.tm_mon = mo; tm.tm_mday = d; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = s;
  tm.tm_isdst = nd_int();
  char *t = serialize_time2str(&tm);
  VASSERT(t != NULL, "a four-digit year time is written");
  VASSERT(strlen(t) == 20, "time text has twenty characters");
  d2(t, y / 100, ""); d2(t + 2, y % 100, ""); VASSERT(t[4] == '-', "separator");
  d2(t + 5, mo + 1, ""); VASSERT(t[7] == '-', "separator");
  d2(t + 8, d, ""); VASSERT(t[10] == 'T', "separator");
  d2(t + 11, h, ""); VASSERT(t[13] == ':', "separator");
  d2(t + 14, mi, ""); VASSERT(t[16] == ':', "separator");
  d2(t + 17, s, ""); VASSERT(t[19] == 'Z', "terminator");
  uint8_t junk = nd_u8();
  memset(&back, junk, sizeof back);
  /* the text just asserted, in a buffer of exactly its size */
  char *u = u_malloc(21);
  int f[6] = {y / 100, y % 100, mo + 1, d, h, mi}, at[6] = {0, 2, 5, 8, 11, 14};
  for (int i = 0; i < 6; i++) { u[at[i]] = (char)('0' + f[i] / 10); u[at[i] + 1] = (char)('0' + f[i] % 10); }
  u[17] = (char)('0' + s / 10); u[18] = (char)('0' + s % 10);
  u[4] = u[7] = '-'; u[10] = 'T'; u[13] = u[16] = ':'; u[19] = 'Z'; u[20] = 0;
  VASSERT(serialize_str2time(u, &back) == 0, "the written time reads back");
  VASSERT(back.tm_year == tm.tm_year && back.tm_mon == mo && back.tm_mday == d && back.tm_hour == h && back.tm_min == mi && back.tm_sec == s,
          "calendar fields are the same");
  VASSERT(back.tm_isdst == 0, "no field keeps an old value");
  v_free(t); u_free(u);
  VASSERT(v_live == 0, "only the text allocated");
  VWITNESS("time round trip");
}
/* any text of NMIN..NMAX characters in a buffer of exactly that size: no read beyond it,
 * and accepted only with the literal separators in place */
void h_time_read(void) {
  EACH_N(n) {
    char *t = nd_text(n);
    struct tm back;
    int r = serialize_str2time(t, &back);
    VASSERT(r == 0 || r < 0, "time read gives success or error");
    /* canonical form: digits and separators in place */
    bool canon = n >= 20;
    for (size_t i = 0; i < 20 && i < n; i++) {
      char c = t[i];
      if (i == 4 || i == 7) canon = canon && c == '-';
      else if (i == 10) canon = canon && c == 'T';
      else if (i == 13 || i == 16) canon = canon && c == ':';
      else if (i == 19) canon = canon && c == 'Z';
      else canon = canon && c >= '0' && c <= '9';
    }
    if (canon) {
      int mo = (t[5] - '0') * 10 + t[6] - '0', d = (t[8] - '0') * 10 + t[9] - '0', h = (t[11] - '0') * 10 + t[12] - '0',
          mi = (t[14] - '0') * 10 + t[15] - '0', s = (t[17] - '0') * 10 + t[18] - '0';
      int y = (t[0] - '0') * 1000 + (t[1] - '0') * 100 + (t[2] - '0') * 10 + t[3] - '0';
      bool valid = mo >= 1 && mo <= 12 && d >= 1 && d <= 31 && h <= 23 && mi <= 59 && s <= 60;
      if (valid) {
        VASSERT(r == 0, "a valid time text is read");
        VASSERT(back.tm_year == y - 1900 && back.tm_mon == mo - 1 && back.tm_mday == d && back.tm_hour == h && back.tm_min == mi && back.tm_sec == s,
                "fields read exactly");
#if NMAX >= 20
        VWITNESS("time accepted");
#endif
      } else if (mo > 12 || mo == 0 || d > 31 || d == 0 || h > 24 || mi > 59 || s > 61) {
        VASSERT(r < 0, "an impossible time is an error");
      }
    }
    /* whatever is accepted has the date/time shape */
    bool z = false, tt = false;
    int minus = 0, colon = 0, digits = 0;
    for (size_t i = 0; i < n; i++) {
      if (t[i] == 'Z') z = true;
      if (t[i] == 'T') tt = true;
      if (t[i] == '-') minus++;
      if (t[i] == ':') colon++;
      if (t[i] >= '0' && t[i] <= '9') digits++;
    }
    if (r == 0) VASSERT(z && tt && minus >= 2 && colon >= 2 && digits >= 6, "an accepted text has the form of a time");
    VASSERT(v_live == 0, "nothing allocated");
    u_free(t);
  }
  VASSERT(serialize_str2time(NULL, &(struct tm){0}) < 0, "missing text is an error");
  VWITNESS("all lengths");
}
void h_time_oom(void) {
  struct tm tm = {.tm_year = 123, .tm_mday = 1};
  v_oom_at = 1;
  VASSERT(serialize_time2str(&tm) == NULL && v_live == 0, "no memory gives no text");
  VWITNESS("oom");
}
