/* C07, C08: voucher attributes: set, get, clear, presence; ownership of every value */
#include "vmodel.h"
#ifndef K
#define K 2
#endif
#ifndef LMAX
#define LMAX 2
#endif
#ifndef NMIN
#define NMIN 0
#define NMAX 1
#endif
#ifdef OWN
#define OWNED(c, t) VASSERT(c, t)
#else
#define OWNED(c, t) ((void)0)
#endif
static struct vm m;
static int ti(enum VoucherAttributes a) { for (int i = 0; i < 3; i++) if (TA[i] == a) return i; return -1; }
static int ai(enum VoucherAttributes a) { for (int i = 0; i < 5; i++) if (AA[i] == a) return i; return -1; }

/* one operation on attribute a; kind 0 typed setter, 1 generic setter, 2 clear */
static int op(struct Voucher *v, int kind, enum VoucherAttributes a) {
  int i, r;
  if (kind == 2) {
    r = clear_attr_voucher(v, a);
    if (r != 0) return r;
    if ((i = ti(a)) >= 0) m.tset[i] = false;
    else if ((i = ai(a)) >= 0) m.ha[i] = false;
    else if (a == ATTR_ASSERTION) m.assertion = 0;
    else if (a == ATTR_SERIAL_NUMBER) m.hs = false;
    else m.rev = false;
    return 0;
  }
  if ((i = ti(a)) >= 0) {
    struct tm t, c;
    nd_tm(&t);
    c = t;
    r = kind ? set_attr_voucher(v, a, &t) : set_attr_time_voucher(v, a, &t);
    VASSERT(tm_same(&c, &t), "argument unmodified");
    memset(&t, 0, sizeof t);
    if (r != 0) return r;
    m.t[i] = c; m.tset[i] = true;
    return 0;
  }
  if ((i = ai(a)) >= 0) {
    size_t n = nd_pick(1, LMAX);
    uint8_t *d = nd_buf(n), c[MAXB];
    memcpy(c, d, n);
    struct BinaryArray arr = {d, n};
    r = kind ? set_attr_voucher(v, a, &arr) : set_attr_array_voucher(v, a, &arr);
    VASSERT(arr.array == d && arr.length == n && bytes_same(c, d, n), "argument unmodified");
    memset(d, 0, n);
    u_free(d); /* the voucher must hold its own copy */
    if (r != 0) return r;
    memcpy(m.a[i], c, n); m.al[i] = n; m.ha[i] = true;
    return 0;
  }
  if (a == ATTR_ASSERTION) {
    int e = (int)nd_range(1, 3);
    r = kind ? set_attr_voucher(v, a, e) : set_attr_enum_voucher(v, a, e);
    if (r == 0) m.assertion = e;
    return r;
  }
  if (a == ATTR_SERIAL_NUMBER) {
    size_t n = nd_pick(0, LMAX);
    char *s = nd_text(n), c[MAXB + 1];
    memcpy(c, s, n + 1);
    r = kind ? set_attr_voucher(v, a, s) : set_attr_str_voucher(v, a, s);
    VASSERT(bytes_same(c, s, n + 1), "argument unmodified");
    memset(s, 'x', n);
    u_free(s);
    if (r != 0) return r;
    memcpy(m.s, c, n + 1); m.sl = n; m.hs = true;
    return 0;
  }
  bool b = nd_bool();
  r = kind ? set_attr_voucher(v, a, (int)b) : set_attr_bool_voucher(v, a, b);
  if (r == 0) m.rev = b;
  return r;
}
/* every sequence of K operations */
void h_seq(void) {
  struct Voucher *v = init_voucher();
  VASSERT(v != NULL, "voucher created");
  vm_check(v, &m);
  for (int k = 0; k < K; k++) {
#ifdef FIRST
    size_t o = k == 0 ? nd_pick(FIRST * NATTR, FIRST * NATTR + NATTR - 1) : nd_pick(0, 3 * NATTR - 1);
#else
    size_t o = nd_pick(0, 3 * NATTR - 1);
#endif
    VASSERT(op(v, (int)(o / NATTR), (enum VoucherAttributes)(o % NATTR)) == 0, "a valid operation succeeds");
    vm_check(v, &m);
    OWNED(v_live == vm_owned(&m), "exactly the current values are allocated");
  }
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("sequence");
}
/* every sequence of K operations on one attribute, any attribute */
void h_one(void) {
  struct Voucher *v = init_voucher();
  enum VoucherAttributes a = (enum VoucherAttributes)nd_pick(0, NATTR - 1);
  for (int k = 0; k < K; k++) {
    VASSERT(op(v, (int)nd_pick(0, 2), a) == 0, "a valid operation succeeds");
    vm_check(v, &m);
    OWNED(v_live == vm_owned(&m), "exactly the current values are allocated");
  }
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("sequence");
}
/* all attributes set, then one changed */
static struct Voucher *filled(void) {
  struct Voucher *v = init_voucher();
  VASSERT(v != NULL, "voucher created");
  for (int a = 0; a < NATTR; a++) VASSERT(op(v, 1, (enum VoucherAttributes)a) == 0, "a valid operation succeeds");
  return v;
}
void h_full(void) {
  struct Voucher *v = filled();
  vm_check(v, &m);
  int kind = (int)nd_pick(0, 2);
  enum VoucherAttributes a = (enum VoucherAttributes)nd_pick(0, NATTR - 1);
  VASSERT(op(v, kind, a) == 0, "a valid operation succeeds");
  vm_check(v, &m);
  OWNED(v_live == vm_owned(&m), "exactly the current values are allocated");
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("changed one of all");
}
/* calls that must fail and change nothing, on an empty and on a full voucher */
void h_bad(void) {
  struct Voucher *v = nd_pick(0, 1) ? filled() : init_voucher();
  int live = v_live;
  int attr = nd_int();                       /* any value, also outside the enumeration */
  enum VoucherAttributes a = (enum VoucherAttributes)attr;
  struct tm t;
  uint8_t by[2] = {nd_u8(), nd_u8()};
  struct BinaryArray arr = {by, 2}, empty = {NULL, 0}, zero = {by, 0};
  memset(&t, 0, sizeof t); t.tm_mday = 1; t.tm_year = 100;
  bool known = attr >= 0 && attr < NATTR;
  switch (nd_pick(0, 13)) {
    case 0: VASSUME(ti(a) < 0); VASSERT(set_attr_time_voucher(v, a, &t) < 0, "time for another attribute refused"); VWITNESS("time"); break;
    case 1: VASSUME(ai(a) < 0); VASSERT(set_attr_array_voucher(v, a, &arr) < 0, "binary data for another attribute refused"); break;
    case 2: VASSUME(a != ATTR_SERIAL_NUMBER); VASSERT(set_attr_str_voucher(v, a, "x") < 0, "text for another attribute refused"); break;
    case 3: VASSUME(a != ATTR_ASSERTION); VASSERT(set_attr_enum_voucher(v, a, 1) < 0, "assertion for another attribute refused"); break;
    case 4: VASSUME(a != ATTR_DOMAIN_CERT_REVOCATION_CHECKS); VASSERT(set_attr_bool_voucher(v, a, true) < 0, "flag for another attribute refused"); break;
    case 5: { int e = nd_int(); VASSUME(e < 1 || e > 3);
      VASSERT(set_attr_enum_voucher(v, ATTR_ASSERTION, e) < 0, "unknown assertion refused");
      VASSERT(set_attr_voucher(v, ATTR_ASSERTION, e) < 0, "unknown assertion refused by the generic setter"); VWITNESS("assertion"); break; }
    case 6: { char *s = nd_text(nd_pick(128, 130));
      VASSERT(set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, s) < 0, "serial number of 128 or more characters refused");
      VASSERT(set_attr_voucher(v, ATTR_SERIAL_NUMBER, s) < 0, "... also by the generic setter"); u_free(s); VWITNESS("long serial"); break; }
    case 7: VASSUME(ai(a) >= 0);
      VASSERT(set_attr_array_voucher(v, a, &empty) < 0 && set_attr_array_voucher(v, a, NULL) < 0, "empty binary data refused");
      VASSERT(set_attr_array_voucher(v, a, &zero) < 0 && set_attr_voucher(v, a, &zero) < 0, "binary data without bytes refused");
      VASSERT(set_attr_voucher(v, a, &empty) < 0 && set_attr_voucher(v, a, (void *)NULL) < 0, "... also by the generic setter"); VWITNESS("empty"); break;
    case 8: VASSERT(set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, NULL) < 0 && set_attr_voucher(v, ATTR_SERIAL_NUMBER, (char *)NULL) < 0, "missing text refused"); break;
    case 9: VASSUME(ti(a) >= 0); VASSERT(set_attr_time_voucher(v, a, NULL) < 0 && set_attr_voucher(v, a, (void *)NULL) < 0, "missing time refused"); VWITNESS("no time"); break;
    case 10: VASSUME(!known); VASSERT(set_attr_voucher(v, a, 1) < 0, "unknown attribute refused"); VWITNESS("unknown"); break;
    case 11: VASSUME(!known); VASSERT(!is_attr_voucher_nonempty(v, a), "unknown attribute is absent"); break;
    case 12:
      if (ti(a) < 0) VASSERT(get_attr_time_voucher(v, a) == NULL, "no time of another attribute");
      if (ai(a) < 0) VASSERT(get_attr_array_voucher(v, a) == NULL, "no binary data of another attribute");
      if (a != ATTR_SERIAL_NUMBER) VASSERT(get_attr_str_voucher(v, a) == NULL, "no text of another attribute");
      if (a != ATTR_ASSERTION) VASSERT(get_attr_enum_voucher(v, a) == NULL, "no assertion of another attribute");
      if (a != ATTR_DOMAIN_CERT_REVOCATION_CHECKS) VASSERT(get_attr_bool_voucher(v, a) == NULL, "no flag of another attribute");
      break;
    case 13:
      VASSERT(set_attr_time_voucher(NULL, a, &t) < 0 && set_attr_array_voucher(NULL, a, &arr) < 0 && set_attr_str_voucher(NULL, a, "x") < 0 &&
              set_attr_enum_voucher(NULL, a, 1) < 0 && set_attr_bool_voucher(NULL, a, true) < 0 && clear_attr_voucher(NULL, a) < 0, "no voucher: refused");
      VASSERT(get_attr_time_voucher(NULL, a) == NULL && get_attr_array_voucher(NULL, a) == NULL && get_attr_str_voucher(NULL, a) == NULL &&
              get_attr_enum_voucher(NULL, a) == NULL && get_attr_bool_voucher(NULL, a) == NULL, "no voucher: no value");
      VASSERT(!is_attr_voucher_nonempty(NULL, a), "no voucher: absent");
      free_voucher(NULL);
      VWITNESS("no voucher");
      break;
  }
  vm_check(v, &m);
  OWNED(v_live == live, "a refused call allocates nothing");
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("refused");
}
/* serial numbers up to the longest accepted */
void h_serial(void) {
  struct Voucher *v = init_voucher();
  size_t n = nd_pick(NMIN, NMAX);
  char *s = nd_text(n);
  VASSERT(set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, s) == 0, "serial number of less than 128 characters accepted");
  const char *g = *get_attr_str_voucher(v, ATTR_SERIAL_NUMBER);
  VASSERT(g != s && bytes_same(g, s, n + 1), "the same text, a private copy");
  u_free(s);
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("long");
}
/* times with any field values */
void h_time(void) {
  struct Voucher *v = init_voucher();
  struct tm t;
  memset(&t, 0, sizeof t);
  t.tm_year = nd_int(); t.tm_mon = nd_int(); t.tm_mday = nd_int(); t.tm_hour = nd_int(); t.tm_min = nd_int(); t.tm_sec = nd_int();
  VASSUME(t.tm_mday >= 1 && t.tm_mday <= 31);
  int i = (int)nd_pick(0, 2);
  VASSERT(set_attr_time_voucher(v, TA[i], &t) == 0, "time accepted");
  VASSERT(is_attr_voucher_nonempty(v, TA[i]), "present");
  VASSERT(tm_same(get_attr_time_voucher(v, TA[i]), &t), "same time");
  VASSERT(clear_attr_voucher(v, TA[i]) == 0 && !is_attr_voucher_nonempty(v, TA[i]), "cleared");
  free_voucher(v);
  VWITNESS("time");
}
/* setting from the voucher's own value */
void h_self(void) {
  struct Voucher *v = filled();
  int i = (int)nd_pick(0, 5);
  if (i < 5) VASSERT(set_attr_array_voucher(v, AA[i], get_attr_array_voucher(v, AA[i])) == 0, "own value accepted");
  else VASSERT(set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, *get_attr_str_voucher(v, ATTR_SERIAL_NUMBER)) == 0, "own value accepted");
  vm_check(v, &m);
  OWNED(v_live == vm_owned(&m), "exactly the current values are allocated");
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
  VWITNESS("self");
}
/* C08: an allocation fails */
void h_oom(void) {
  v_oom_at = (int)nd_pick(1, K + 1);
  struct Voucher *v = init_voucher();
  if (v == NULL) { VASSERT(v_oom_hit && v_live == 0, "creation fails only without memory"); VWITNESS("creation"); return; }
  for (int k = 0; k < K; k++) {
    struct vm before = m;
    bool had = v_oom_hit;
    int kind = (int)nd_pick(0, 1);
    enum VoucherAttributes a = (enum VoucherAttributes)nd_pick(0, NATTR - 1);
    int r = op(v, kind, a);
    VASSERT((r < 0) == (v_oom_hit && !had), "an operation fails exactly when memory ran out during it");
    if (r < 0) { VWITNESS("failed"); (void)before; free_voucher(v); VASSERT(v_live == 0, "still completely releasable"); return; }
    vm_check(v, &m);
  }
  free_voucher(v);
  OWNED(v_live == 0, "freeing the voucher releases everything");
}
