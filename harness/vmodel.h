/* shadow of a voucher's content and comparison with what the public getters say */
#ifndef VMODEL_H
#define VMODEL_H
#include "v.h"
#include <string.h>
#include <time.h>
#include "voucher/voucher.h"
#include "voucher/array.h"
#define NATTR 11
#define MAXB 8
struct vm {
  bool tset[3]; struct tm t[3];
  int assertion;
  bool hs; char s[160]; size_t sl;
  bool ha[5]; uint8_t a[5][MAXB]; size_t al[5];
  bool rev;
};
static const enum VoucherAttributes TA[3] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON, ATTR_LAST_RENEWAL_DATE};
static const enum VoucherAttributes AA[5] = {ATTR_IDEVID_ISSUER, ATTR_PINNED_DOMAIN_CERT, ATTR_NONCE, ATTR_PRIOR_SIGNED_VOUCHER_REQUEST,
                                             ATTR_PROXIMITY_REGISTRAR_CERT};
static bool tm_same(const struct tm *a, const struct tm *b) {
  return ((a->tm_year ^ b->tm_year) | (a->tm_mon ^ b->tm_mon) | (a->tm_mday ^ b->tm_mday) | (a->tm_hour ^ b->tm_hour) |
          (a->tm_min ^ b->tm_min) | (a->tm_sec ^ b->tm_sec)) == 0;
}
static bool bytes_same(const void *a, const void *b, size_t n) {
  const uint8_t *p = (const uint8_t *)a, *q = (const uint8_t *)b;
  uint8_t d = 0;
  for (size_t i = 0; i < n; i++) d |= p[i] ^ q[i];
  return d == 0;
}
/* full: also the presence predicate of times (branches on the fields) */
static void vm_check(struct Voucher *v, const struct vm *m) {
  for (int i = 0; i < 3; i++) {
    const struct tm *t = get_attr_time_voucher(v, TA[i]);
    VASSERT(t != NULL, "time attribute readable");
    VASSERT(is_attr_voucher_nonempty(v, TA[i]) == m->tset[i], "time attribute present exactly when set");
    if (m->tset[i]) VASSERT(tm_same(t, &m->t[i]), "time attribute has the value set");
  }
  const int *e = get_attr_enum_voucher(v, ATTR_ASSERTION);
  VASSERT(e != NULL && *e == m->assertion, "assertion has the value set");
  VASSERT(is_attr_voucher_nonempty(v, ATTR_ASSERTION) == (m->assertion != 0), "assertion present exactly when set");
  const char *const *s = get_attr_str_voucher(v, ATTR_SERIAL_NUMBER);
  VASSERT(s != NULL && (*s != NULL) == m->hs, "serial number readable exactly when set");
  VASSERT(is_attr_voucher_nonempty(v, ATTR_SERIAL_NUMBER) == m->hs, "serial number present exactly when set");
  if (m->hs) VASSERT(bytes_same(*s, m->s, m->sl) && (*s)[m->sl] == 0, "serial number has the value set");
  for (int i = 0; i < 5; i++) {
    const struct BinaryArray *a = get_attr_array_voucher(v, AA[i]);
    VASSERT(a != NULL, "binary attribute readable");
    VASSERT(is_attr_voucher_nonempty(v, AA[i]) == m->ha[i], "binary attribute present exactly when set");
    VASSERT(a->length == (m->ha[i] ? m->al[i] : 0), "binary attribute length");
    VASSERT((a->array != NULL) == m->ha[i], "binary attribute data present exactly when set");
    if (m->ha[i]) VASSERT(bytes_same(a->array, m->a[i], m->al[i]), "binary attribute has the bytes set");
  }
  const bool *b = get_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS);
  VASSERT(b != NULL && *b == m->rev, "revocation flag has the value set");
  VASSERT(is_attr_voucher_nonempty(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS), "revocation flag always present");
}
/* allocations a voucher with this content owns */
static int vm_owned(const struct vm *m) {
  int n = 1 + (m->hs ? 1 : 0);
  for (int i = 0; i < 5; i++) n += m->ha[i] ? 1 : 0;
  return n;
}
static void nd_tm(struct tm *t) {
  memset(t, 0, sizeof *t);
  t->tm_year = nd_int(); t->tm_mon = nd_int(); t->tm_mday = nd_int(); t->tm_hour = nd_int(); t->tm_min = nd_int(); t->tm_sec = nd_int();
  VASSUME(t->tm_year >= -900 && t->tm_year <= 8099 && t->tm_year != 0);
  VASSUME(t->tm_mon >= 0 && t->tm_mon <= 11);
  VASSUME(t->tm_mday >= 1 && t->tm_mday <= 31);
  VASSUME(t->tm_hour >= 0 && t->tm_hour <= 23);
  VASSUME(t->tm_min >= 0 && t->tm_min <= 59);
  VASSUME(t->tm_sec >= 0 && t->tm_sec <= 60);
}
#endif
