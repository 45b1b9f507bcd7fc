/* C06: parsing arbitrary text: only voucher objects are accepted, with exactly their values; nothing else is read, nothing is leaked */
#include "vmodel.h"
#include "voucher/serialize.h"
#define JSMN_STATIC
#include <jsmn.h>
#ifndef NMIN
#define NMIN 0
#define NMAX 3
#endif
#ifndef TPL
#define TPL {""}
#endif
#define ROOT "ietf-voucher:voucher"
#define MAXT 40
static const char *NAMES[NATTR] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert",
  "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
static const char *ANAMES[4] = {"", "verified", "logged", "proximity"};
static int ti(int a) { for (int i = 0; i < 3; i++) if ((int)TA[i] == a) return i; return -1; }
static int ai(int a) { for (int i = 0; i < 5; i++) if ((int)AA[i] == a) return i; return -1; }
static bool is_word(const uint8_t *p, size_t n, const char *w) { return strlen(w) == n && memcmp(p, w, n) == 0; }
/* the value text of attribute a, or false; the scalar readers are decided by C02 and C03 */
static bool value(struct vm *m, int a, const uint8_t *p, size_t n) {
  int i;
  if ((i = ti(a)) >= 0) {
    char b[64];
    if (n > 63) n = 63;
    memcpy(b, p, n); b[n] = 0;
    if (serialize_str2time(b, &m->t[i]) < 0) return false;
    m->tset[i] = true;
    return true;
  }
  if ((i = ai(a)) >= 0) {
    uint8_t *o = NULL;
    ssize_t l = serialize_base64str2array(p, n, &o);
    if (l <= 0) { if (l == 0) free(o); return false; }
    memcpy(m->a[i], o, (size_t)l); m->al[i] = (size_t)l; m->ha[i] = true;
    v_free(o);
    return true;
  }
  if (a == ATTR_ASSERTION) {
    for (int k = 1; k < 4; k++) if (is_word(p, n, ANAMES[k])) { m->assertion = k; return true; }
    return false;
  }
  if (a == ATTR_SERIAL_NUMBER) {
    if (n >= 128) return false;
    size_t l = 0;
    while (l < n && p[l] != 0) l++;
    memcpy(m->s, p, l); m->s[l] = 0; m->sl = l; m->hs = true;
    return true;
  }
  int b = serialize_str2bool((const char *)p, n);
  if (b < 0) return false;
  m->rev = b;
  return true;
}
static int after(const jsmntok_t *t, int n, int i) { int k = i + 1; while (k < n && t[k].start < t[i].end) k++; return k; }
static bool member(const jsmntok_t *t, int n, int i) { return i + 1 < n && t[i].type == JSMN_STRING && t[i].size == 1; }
/* strict JSON: value at p, returns the text behind it or NULL (numbers, literals and strings without escapes) */
static const uint8_t *sk(const uint8_t *p, const uint8_t *e) { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; return p; }
static const uint8_t *str(const uint8_t *p, const uint8_t *e) {
  if (p >= e || *p != '"') return NULL;
  for (p++; p < e && *p != '"'; p++) if (*p == '\\' || *p < 32) return NULL;
  return p < e ? p + 1 : NULL;
}
static const uint8_t *val(const uint8_t *p, const uint8_t *e) {
  static const char *lits[] = {"true", "false", "null"};
  p = sk(p, e);
  if (p >= e) return NULL;
  if (*p == '"') return str(p, e);
  if (*p == '{' || *p == '[') {
    bool obj = *p == '{';
    p = sk(p + 1, e);
    if (p < e && *p == (obj ? '}' : ']')) return p + 1;
    for (;;) {
      if (obj) {
        if ((p = str(sk(p, e), e)) == NULL) return NULL;
        p = sk(p, e);
        if (p >= e || *p != ':') return NULL;
        p++;
      }
      if ((p = val(p, e)) == NULL) return NULL;
      p = sk(p, e);
      if (p >= e) return NULL;
      if (*p == (obj ? '}' : ']')) return p + 1;
      if (*p != ',') return NULL;
      p++;
    }
  }
  for (int i = 0; i < 3; i++) { size_t l = strlen(lits[i]); if ((size_t)(e - p) >= l && memcmp(p, lits[i], l) == 0) return p + l; }
  const uint8_t *s = p;
  if (p < e && *p == '-') p++;
  const uint8_t *d = p;
  while (p < e && *p >= '0' && *p <= '9') p++;
  if (p == d || (*d == '0' && p > d + 1)) return NULL;
  (void)s;
  return p;
}
static bool strict(const uint8_t *p, const uint8_t *e) { const uint8_t *q = val(p, e); return q != NULL && sk(q, e) == e; }

/* 0: no voucher allowed, 1: a voucher required with the values in m, 2: allowed with these values (not strict JSON) */
static int expect(const uint8_t *j, size_t n, struct vm *m) {
  static jsmntok_t t[MAXT];
  jsmn_parser p;
  jsmn_init(&p);
  int c = jsmn_parse(&p, (const char *)j, n, t, MAXT);
  if (c < 1 || t[0].type != JSMN_OBJECT || after(t, c, 0) != c) return 0;
  bool ok = strict(j, j + n) && c <= 32;
  int roots = 0, r = -1;
  for (int i = 1; i < c; i = after(t, c, i + 1)) {
    if (!member(t, c, i)) { ok = false; continue; }
    if (is_word(j + t[i].start, (size_t)(t[i].end - t[i].start), ROOT)) { if (roots++ == 0) r = i + 1; }
  }
  if (roots == 0 || t[r].type != JSMN_OBJECT) return 0;
  if (roots > 1) ok = false;
  int end = after(t, c, r);
  for (int i = r + 1; i < end; i = after(t, c, i + 1)) {
    if (!member(t, c, i)) return 0;
    if ((t[i + 1].type != JSMN_STRING && t[i + 1].type != JSMN_PRIMITIVE) || t[i + 1].size != 0) return 0;
    int a = -1;
    for (int k = 0; k < NATTR; k++) if (is_word(j + t[i].start, (size_t)(t[i].end - t[i].start), NAMES[k])) a = k;
    if (a < 0) return 0;
    if (!value(m, a, j + t[i + 1].start, (size_t)(t[i + 1].end - t[i + 1].start))) return 0;
  }
  return ok ? 1 : 2;
}
static void run(const uint8_t *j, size_t n) {
  static struct vm m;
  memset(&m, 0, sizeof m);
  int e = expect(j, n, &m);
  VASSERT(v_live == 0, "harness releases what it used");
  struct Voucher *v = deserialize_voucher(j, n);
  if (v == NULL) {
    VASSERT(e != 1, "a valid voucher text is accepted");
    VASSERT(v_live == 0, "a rejected text leaves nothing allocated");
    VWITNESS("rejected");
    return;
  }
  VASSERT(e != 0, "only voucher objects with known members and valid values are accepted");
  vm_check(v, &m);
  free_voucher(v);
  VASSERT(v_live == 0, "freeing the voucher releases everything");
#ifndef NOACC
  VWITNESS("accepted");
#endif
}
/* every text of n bytes */
void h_raw(void) {
  size_t n = nd_pick(NMIN, NMAX);
  uint8_t *j = nd_buf(n);
  run(j, n);
}
/* a template: bytes written as '?' are arbitrary; template chosen from TPL */
static const char *T[] = TPL;
static uint8_t *fill(const char *t, size_t *len) {
  size_t n = strlen(t);
  uint8_t *j = (uint8_t *)u_malloc(n);
  for (size_t i = 0; i < n; i++) j[i] = t[i] == '\'' ? '"' : t[i] == '?' ? nd_u8() : (uint8_t)t[i];
  *len = n;
  return j;
}
void h_tpl(void) {
  size_t n;
  uint8_t *j = fill(T[nd_pick(0, sizeof T / sizeof *T - 1)], &n);
  run(j, n);
}
/* every prefix of the first template */
void h_cut(void) {
  size_t n;
  uint8_t *j = fill(T[0], &n);
  size_t k = nd_pick(0, n);
  uint8_t *c = (uint8_t *)u_malloc(k);
  memcpy(c, j, k);
  run(c, k);
}
/* an allocation fails */
void h_oom(void) {
  size_t n;
  uint8_t *j = fill(T[nd_pick(0, sizeof T / sizeof *T - 1)], &n);
  v_oom_at = (int)nd_pick(1, 12);
  struct Voucher *v = deserialize_voucher(j, n);
  VASSERT(v == NULL || !v_oom_hit, "no voucher when memory runs out");
  if (v == NULL) VWITNESS("failed");
  if (v == NULL) VASSERT(v_live == 0, "nothing left allocated");
  free_voucher(v);
  VASSERT(v_live == 0, "everything released");
}
/* missing text */
void h_null(void) {
  VASSERT(deserialize_voucher(NULL, 5) == NULL && v_live == 0, "missing text gives no voucher");
  VASSERT(serialize_voucher(NULL) == NULL && v_live == 0, "missing voucher gives no text");
  VWITNESS("null");
}
