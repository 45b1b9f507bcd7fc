/* C25: logging */
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include "v.h"
#include "utils/log.h"
static struct stream { int open; size_t n; char t[400]; } ERR = {1}, OUT = {1}, LOGF;
FILE *x_stderr = (FILE *)&ERR, *x_stdout = (FILE *)&OUT;
static int locked, locks, unlocks, flushed;
static bool have_lock;
static bool lock_order = true;
static void the_lock(bool on) { if (on) { lock_order &= !locked; locked = 1; locks++; } else { lock_order &= locked; locked = 0; unlocks++; } errno = 91; }
static void wr(FILE *f, const char *s, size_t n) {
  struct stream *o = (struct stream *)f;
  VASSERT(o == &ERR || o == &OUT || o == &LOGF, "a stream is written to");
  VASSERT(o->open == 1, "an open stream is written to");
  VASSERT(!have_lock || locked, "writing happens under the registered lock");
  VASSUME(o->n + n < sizeof o->t);
  memcpy(o->t + o->n, s, n);
  o->n += n;
  errno = 92;
}
int x_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[200]; int n = vsnprintf(b, sizeof b, fmt, ap); VASSERT(n >= 0 && n < (int)sizeof b, "harness: text fits"); wr(f, b, (size_t)n); return n; }
int x_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = x_vfprintf(f, fmt, ap); va_end(ap); return n; }
int x_fputs(const char *s, FILE *f) { wr(f, s, strlen(s)); return 1; }
int x_fputc(int c, FILE *f) { char b = (char)c; wr(f, &b, 1); return c; }
size_t x_fwrite(const void *p, size_t s, size_t n, FILE *f) { wr(f, p, s * n); return n; }
int x_fflush(FILE *f) { (void)f; flushed++; errno = 93; return 0; }
void x_setbuf(FILE *f, char *b) { (void)f; (void)b; }
int x_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
static mode_t mask = 022;
mode_t x_umask(mode_t m) { mode_t o = mask; mask = m; return o; }
static bool can_open;
FILE *x_fopen(const char *f, const char *m) { VASSERT(strcmp(f, "log") == 0 && m[0] == 'a', "the log file is appended to"); VASSERT((mask & 077) == 077, "a log file is private"); if (!can_open) return NULL; LOGF.open++; return (FILE *)&LOGF; }
int x_fclose(FILE *f) { VASSERT((struct stream *)f == &LOGF && LOGF.open == 1, "an open log file is closed once"); LOGF.open--; return 0; }
char *x_strerror(int e) { (void)e; errno = 94; return "why"; }
static struct tm TM;
int x_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = 5; tv->tv_usec = nd_u32(); VASSUME(tv->tv_usec >= 0 && tv->tv_usec < 1000000); errno = 95; return 0; }
struct tm *x_localtime(const time_t *t) { (void)t; return &TM; }
struct tm *x_localtime_r(const time_t *t, struct tm *o) { (void)t; *o = TM; return o; }
static bool ends(const struct stream *s, const char *t) { size_t l = strlen(t); return s->n >= l && memcmp(s->t + s->n - l, t, l) == 0; }
static bool has(const struct stream *s, const char *t) { size_t l = strlen(t); for (size_t i = 0; i + l <= s->n; i++) if (memcmp(s->t + i, t, l) == 0) return true; return false; }
static void setup_time(void) {
  TM.tm_year = 123; TM.tm_mon = 1; TM.tm_mday = 9; TM.tm_hour = 10; TM.tm_min = 59; TM.tm_sec = 3;
}
/* -DFILTER: every level against every configured level, silenced or not, with and without lock; otherwise every form of header, to stderr
 * or a file, any message */
void h_emit(void) {
  setup_time();
#ifdef FILTER
  unsigned level = (unsigned)nd_pick(0, 4), min = nd_u8();
  bool quiet = nd_bool();
  bool meta = true, color = false, file = false;
  bool with_errno = nd_bool();
  have_lock = nd_bool();
  char *msg = nd_text(1);
  int e = nd_bool() ? 13 : 0;
#else
  unsigned min = 2, level = (unsigned)nd_pick(1, 4);
  bool quiet = false;
  bool meta = nd_bool();
  bool color = nd_bool();
  bool file = nd_bool();
  have_lock = true;
  size_t l = nd_pick(0, 2);
  char *msg = nd_text(l);
  bool with_errno = nd_bool();
  int e = (int)nd_pick(0, 1) * 1000;
#endif
  log_set_level((uint8_t)min);
  log_set_quiet(quiet);
  log_set_color(color);
  log_set_meta(meta);
  if (file) { can_open = true; VASSERT(log_open_file("log") == 0, "the log file is opened"); VASSERT(mask == 022, "the file mask is restored"); }
  if (have_lock) log_set_lock(the_lock);
  errno = e;
  if (with_errno) log_errno_error((uint8_t)level, "file.c", 321, "msg %s %d", msg, 42);
  else log_levels((uint8_t)level, "file.c", 321, "msg %s %d", msg, 42);
  int after = errno;
  struct stream *to = file ? &LOGF : &ERR;
  bool emitted = level >= min && !quiet;
  VASSERT(OUT.n == 0 && (file ? ERR.n : LOGF.n) == 0, "nothing is written elsewhere");
  if (emitted) {
    char want[20];
    snprintf(want, sizeof want, "msg %s 42\n", msg);
    VASSERT(ends(to, want), "the message is emitted and ends its line");
    if (meta) {
      static const char *const names[] = LEVEL_NAMES;
      VASSERT(has(to, names[level]) && has(to, "file.c:321"), "a message shows its level and place");
      VASSERT(has(to, "2023-02-09 10:59:03."), "a message shows its time");
    }
    if (with_errno && e > 0) VASSERT(has(to, "why"), "the error is shown");
    VWITNESS("emitted");
  } else { VASSERT(to->n == 0, "a message below the configured level, or silenced, is not emitted"); VWITNESS("not emitted"); }
  if (have_lock) {
    VASSERT(lock_order && locks == unlocks && !locked, "the lock is taken and released in turn");
    VASSERT(emitted ? locks == 1 : locks <= 1, "the lock is taken once for an emission");
  }
  if (with_errno) VASSERT(after == e, "errno is preserved");
  log_close_file();
  VASSERT(LOGF.open == 0, "the log file is closed");
  log_close_file();
}
void h_open(void) {
  can_open = nd_bool();
  int r = log_open_file("log");
  VASSERT((r == 0) == can_open && mask == 022, "opening the log file reports the result and restores the file mask");
  setup_time();
  log_levels(LOGC_ERROR, "f", 1, "m");
  VASSERT(can_open ? LOGF.n > 0 && ERR.n == 0 : ERR.n > 0, "a message goes to the log file, or to stderr without one");
  log_close_file();
  size_t n = ERR.n;
  log_levels(LOGC_ERROR, "f", 1, "m");
  VASSERT(ERR.n > n, "after closing the log file messages go to stderr");
  if (r == 0) VWITNESS("opened"); else VWITNESS("not opened");
}
/* any valid time; message numbers */
void h_time(void) {
  int y = 2023, mo = 1, d = 2, h = 3, mi = 4, s = 5, v = nd_int();
  switch (nd_pick(0, 5)) {
    case 0: y = v; break; case 1: mo = v; break; case 2: d = v; break; case 3: h = v; break; case 4: mi = v; break; case 5: s = v; break;
  }
  VASSUME(y >= 0 && y <= 9999 && mo >= 0 && mo < 12 && d >= 1 && d <= 31 && h >= 0 && h < 24 && mi >= 0 && mi < 60 && s >= 0 && s <= 60);
  TM.tm_year = y - 1900; TM.tm_mon = mo; TM.tm_mday = d; TM.tm_hour = h; TM.tm_min = mi; TM.tm_sec = s;
  log_set_color(false);
  log_levels(LOGC_ERROR, "f", 1, "m");
  VASSERT(ERR.n > 23, "there is a message");
  char w[40];
  snprintf(w, sizeof w, "%04d-%02d-%02d %02d:%02d:%02d.", y, mo + 1, d, h, mi, s);
  VASSERT(memcmp(ERR.t, w, 20) == 0, "the date and time are shown");
  VWITNESS("time");
}
/* hex text: any data of 0..4 bytes, any buffer of 0..10 bytes */
void h_hex(void) {
  size_t n = nd_pick(0, MAXN), b = nd_pick(0, MAXN * 2 + 2);
  int up = nd_bool() ? 1 : 0, none = (int)nd_pick(0, 2);
  uint8_t *d = nd_buf(n), first[10];
  char *t = (char *)nd_buf(b);
  if (b) memcpy(first, t, b);
  size_t r = printf_hex(none == 1 ? NULL : t, b, none == 2 ? NULL : d, n, up);
  if (none || b == 0) { VASSERT(r == 0, "no text without data or buffer"); return; }
  size_t whole = n * 2 < b ? n : (b - 1) / 2, l = 0;
  while (l < b && t[l]) l++;
  VASSERT(l < b, "the text is terminated inside the buffer");
  VASSERT(r == whole * 2, "the length of the whole bytes written is reported");
  VASSERT(l >= whole * 2 && l <= (n * 2 < b ? n * 2 : b - 1), "all leading bytes that fit are written");
  for (size_t i = 0; i < l; i++) {
    int x = i % 2 ? d[i / 2] & 15 : d[i / 2] >> 4;
    VASSERT(t[i] == (x < 10 ? '0' + x : (up ? 'A' : 'a') + x - 10), "the text is the two-digit form of the bytes in the requested case");
  }
  if (whole < n) VWITNESS("cut"); else VWITNESS("fits");
}
