/* C05: a voucher survives serialisation and parsing; the text has exactly the set attributes under their standard names */
#include "vmodel.h"
#ifndef BMAX
#define BMAX 3
#endif
#ifndef NMIN
#define NMIN 0
#define NMAX 3
#endif
#define ROOT "ietf-voucher:voucher"
static const char *NAMES[NATTR] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert",
  "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
static const char *ANAMES[4] = {"", "verified", "logged", "proximity"};
static struct vm m;
static int ti(int a) { for (int i = 0; i < 3; i++) if ((int)TA[i] == a) return i; return -1; }
static int ai(int a) { for (int i = 0; i < 5; i++) if ((int)AA[i] == a) return i; return -1; }
static bool present(int a) {
  if (ti(a) >= 0) return m.tset[ti(a)];
  if (ai(a) >= 0) return m.ha[ai(a)];
  if (a == ATTR_ASSERTION) return m.assertion != 0;
  if (a == ATTR_SERIAL_NUMBER) return m.hs;
  return true;
}
/* set attribute a; sym: arbitrary value, otherwise a fixed one */
static void put(struct Voucher *v, int a, bool sym, size_t n) {
  int i, r;
  if ((i = ti(a)) >= 0) {
    struct tm t;
    if (sym) nd_tm(&t);
    else { memset(&t, 0, sizeof t); t.tm_year = 123 + i; t.tm_mon = 1 + i; t.tm_mday = 28; t.tm_hour = 23; t.tm_min = 59 - i; t.tm_sec = 7; }
    r = set_attr_time_voucher(v, (enum VoucherAttributes)a, &t);
    m.t[i] = t; m.tset[i] = true;
  } else if ((i = ai(a)) >= 0) {
    for (size_t k = 0; k < n; k++) m.a[i][k] = sym ? nd_u8() : (uint8_t)(17 * a + 3 * k);
    struct BinaryArray b = {m.a[i], n};
    r = set_attr_array_voucher(v, (enum VoucherAttributes)a, &b);
    m.al[i] = n; m.ha[i] = true;
  } else if (a == ATTR_ASSERTION) {
    m.assertion = sym ? (int)nd_pick(1, 3) : 3;
    r = set_attr_enum_voucher(v, ATTR_ASSERTION, m.assertion);
  } else if (a == ATTR_SERIAL_NUMBER) {
    for (size_t k = 0; k < n; k++) {
      char c = sym ? nd_char() : (char)('0' + k % 10);
      VASSUME(c != 0 && c != '"' && c != '\\' && (unsigned char)c >= 32);
      m.s[k] = c;
    }
    m.s[n] = 0; m.sl = n; m.hs = true;
    r = set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, m.s);
  } else {
    m.rev = sym ? nd_pick(0, 1) : true;
    r = set_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, m.rev);
  }
  VASSERT(r == 0, "attribute set");
}
static const char *ws(const char *p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; return p; }
static const char *lit(const char *p, const char *t) {
  p = ws(p);
  for (; *t; t++, p++) VASSERT(*p == *t, "standard voucher text");
  return p;
}
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void two(char *d, int v) { d[0] = (char)('0' + v / 10); d[1] = (char)('0' + v % 10); }
/* the value of attribute a as it has to be written */
static size_t want(int a, char *o) {
  int i;
  if ((i = ti(a)) >= 0) {
    const struct tm *t = &m.t[i];
    int y = t->tm_year + 1900;
    two(o, y / 100); two(o + 2, y % 100); o[4] = '-'; two(o + 5, t->tm_mon + 1); o[7] = '-'; two(o + 8, t->tm_mday); o[10] = 'T';
    two(o + 11, t->tm_hour); o[13] = ':'; two(o + 14, t->tm_min); o[16] = ':'; two(o + 17, t->tm_sec); o[19] = 'Z';
    return 20;
  }
  if ((i = ai(a)) >= 0) {
    size_t k = 0;
    const uint8_t *b = m.a[i];
    for (size_t p = 0; p < m.al[i]; p += 3) {
      size_t l = m.al[i] - p;
      uint32_t w = (uint32_t)b[p] << 16 | (l > 1 ? (uint32_t)b[p + 1] << 8 : 0) | (l > 2 ? b[p + 2] : 0);
      o[k++] = B64[w >> 18]; o[k++] = B64[w >> 12 & 63]; o[k++] = l > 1 ? B64[w >> 6 & 63] : '='; o[k++] = l > 2 ? B64[w & 63] : '=';
    }
    return k;
  }
  if (a == ATTR_ASSERTION) { strcpy(o, ANAMES[m.assertion]); return strlen(o); }
  memcpy(o, m.s, m.sl);
  return m.sl;
}
/* the text is {ROOT:{...}} with exactly the present attributes, in any order */
static void check_text(const char *p) {
  bool seen[NATTR] = {false};
  p = lit(p, "{"); p = lit(p, "\"" ROOT "\""); p = lit(p, ":"); p = lit(p, "{");
  for (int n = 0; ; n++) {
    p = ws(p);
    if (*p == '}' && n == 0) { p++; break; }
    VASSERT(*p == '"', "member name");
    p++;
    const char *e = p;
    while (*e && *e != '"') e++;
    int a = -1;
    for (int i = 0; i < NATTR; i++) if (strlen(NAMES[i]) == (size_t)(e - p) && bytes_same(NAMES[i], p, (size_t)(e - p))) a = i;
    VASSERT(a >= 0 && present(a) && !seen[a], "each set attribute once under its standard name");
    seen[a] = true;
    p = lit(e + 1, ":");
    if (a == ATTR_DOMAIN_CERT_REVOCATION_CHECKS) p = lit(p, m.rev ? "true" : "false");
    else {
      char w[260];
      size_t l = want(a, w);
      p = lit(p, "\"");
      VASSERT(bytes_same(p, w, l), "the attribute's value");
      p = lit(p + l, "\"");
    }
    p = ws(p);
    if (*p == '}') { p++; break; }
    p = lit(p, ",");
  }
  for (int i = 0; i < NATTR; i++) VASSERT(seen[i] == present(i), "every set attribute is written");
  p = lit(p, "}");
  VASSERT(*ws(p) == 0, "nothing after the object");
}
static void round_trip(struct Voucher *v) {
  vm_check(v, &m);
  char *j = serialize_voucher(v);
  VASSERT(j != NULL, "serialised");
  vm_check(v, &m);
  check_text(j);
  size_t l = strlen(j);
  uint8_t *in = (uint8_t *)u_malloc(l); /* exactly the text: reading past it is an error */
  memcpy(in, j, l);
  struct Voucher *w = deserialize_voucher(in, l);
  VASSERT(w != NULL, "parsed");
  VASSERT(bytes_same(in, j, l), "text not modified");
  vm_check(w, &m);
}
/* one attribute with an arbitrary value */
void h_single(void) {
  struct Voucher *v = init_voucher();
  int a = (int)nd_pick(0, NATTR - 1);
  bool txt = a == ATTR_SERIAL_NUMBER;
  put(v, a, true, ai(a) >= 0 ? nd_pick(1, BMAX) : txt ? nd_pick(NMIN, NMAX) : 0);
  round_trip(v);
  if (ti(a) >= 0) VWITNESS("time");
  if (ai(a) >= 0) VWITNESS("binary");
  if (txt) VWITNESS("serial number");
}
/* all attributes, some arbitrary */
void h_all(void) {
  struct Voucher *v = init_voucher();
  for (int a = 0; a < NATTR; a++) put(v, a, ai(a) >= 0 || a == ATTR_SERIAL_NUMBER, 2);
  round_trip(v);
  VWITNESS("all attributes");
}
/* every presence combination of the attributes LO..HI, the others FULL or absent */
void h_mask(void) {
  struct Voucher *v = init_voucher();
  bool rest = nd_pick(0, 1);
  for (int a = 0; a < NATTR; a++) {
    bool on = a >= LO && a <= HI ? (bool)nd_pick(0, 1) : rest;
    if (on) put(v, a, false, 1 + a % 3);
  }
  round_trip(v);
  VWITNESS("combination");
}
/* long values */
void h_long(void) {
  struct Voucher *v = init_voucher();
  if (nd_pick(0, 1)) put(v, ATTR_SERIAL_NUMBER, true, nd_pick(126, 127));
  else {
    uint8_t *b = nd_buf(BIG);
    int i = (int)nd_pick(0, 4);
    struct BinaryArray x = {b, BIG};
    VASSERT(set_attr_array_voucher(v, AA[i], &x) == 0, "set");
    char *j = serialize_voucher(v);
    VASSERT(j != NULL, "serialised");
    struct Voucher *w = deserialize_voucher((uint8_t *)j, strlen(j));
    VASSERT(w != NULL, "parsed");
    const struct BinaryArray *g = get_attr_array_voucher(w, AA[i]);
    VASSERT(g->length == BIG && bytes_same(g->array, b, BIG), "same bytes");
    VWITNESS("long binary");
    return;
  }
  round_trip(v);
  VWITNESS("long serial");
}
