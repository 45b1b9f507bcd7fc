/* C10..C16: the four voucher protocol steps */
#include "reqmodel.h"
#ifndef SL
#define SL 2
#endif
#ifndef CL
#define CL 2
#endif
static void nd_serial(char *d, size_t n) { for (size_t i = 0; i < n; i++) { d[i] = nd_char(); VASSUME(d[i] != 0); } d[n] = 0; }
static struct tm *nd_time(void) { static struct tm t; nd_tm(&t); return &t; }
static struct BinaryArray cms_a, cert_a, key_a, tls_a, issuer_a, nonce_a;
static void common(void) {
  cms_a = nd_arr(2); cert_a = nd_arr(1); key_a = nd_arr(1); issuer_a = nd_arr(2);
  sg_cert = &cert_a; sg_key = &key_a;
}
static struct BinaryArrayList *lists[4];
/* all given, every second given, none given: a list handed to the wrong place differs in content or presence */
static void mklists(int n) {
  int how = (int)nd_pick(0, 3);
  for (int i = 0; i < n; i++) lists[i] = how == 0 || (how < 3 && i % 2 == how - 1) ? nd_list(i % 2 + 1) : NULL;
}
/* nothing may be left but what the harness owns */
static void end(void) { OWNED(v_live == 0, "everything but the result is released"); }

/* ---------------- C10: pledge request */
static void pledge_request(bool oom) {
  common();
  char serial[140];
  const char *sp = serial;
  size_t n = nd_pick(0, SL);
  int bad = oom ? 0 : (int)nd_pick(0, 7);
  nd_serial(serial, n);
  if (bad == 6) { n = nd_pick(128, 130); memset(serial, 'x', n); serial[n] = 0; }
  tls_a = nd_arr(nd_pick(1, CL));
  bool hn = nd_pick(0, 1);
  nonce_a = nd_arr(hn ? nd_pick(1, CL) : 1);
  struct BinaryArray *np = hn ? &nonce_a : NULL, *tp = &tls_a;
  mklists(1);
  struct tm *t = nd_time();
  const struct tm *tq = t;
  if (bad == 1) sp = NULL;
  if (bad == 2) tq = NULL;
  if (bad == 3) tp = NULL;
  if (bad == 4) sg_cert = NULL;
  if (bad == 5) sg_key = NULL;
  sg_fail = bad == 7;
  sg_allowed = bad != 1 && bad != 2 && bad != 3 && bad != 6;
  if (sg_allowed) {
    sg_want.t[0] = *t; sg_want.tset[0] = true;
    if (hn) vm_arr(&sg_want, I_NONCE, np);
    vm_arr(&sg_want, I_PROX, tp);
    vm_str(&sg_want, sp);
    sg_want.assertion = 3;
  }
  sg_certs = lists[0];
  if (oom) v_oom_at = (int)nd_pick(1, 12);
  struct BinaryArray *r = sign_pledge_voucher_request(tq, sp, np, tp, sg_cert, sg_key, lists[0]);
  sg_result(r, bad == 0 && !v_oom_hit);
  if (sg_done && r == NULL) OWNED(0, "a signed message is not lost");
  end();
  if (oom) { if (v_oom_hit) VWITNESS("out of memory"); return; }
  if (r != NULL) VWITNESS("signed");
  if (bad == 7) VWITNESS("signing failed");
  if (bad == 1) VWITNESS("no serial number");
}
void h_pledge(void) { pledge_request(false); }
void h_pledge_oom(void) { pledge_request(true); }

/* ---------------- C11, C12: registrar request */
static void registrar_request(bool oom, bool nulls) {
  common();
  char serial[8], *sp = serial;
  size_t n = nd_pick(0, SL);
  nd_serial(serial, n);
  tls_a = nd_arr(nd_pick(1, CL));
  mklists(oom || nulls ? 1 : 3);
  struct vm *p = &vc[0].content;
  bool other = nd_pick(0, 1);             /* further attributes of the pledge's request */
  if (nulls || oom) { vm_str(p, serial); vm_arr(p, I_PROX, &tls_a); p->assertion = 3; }
  else {
    if (nd_pick(0, 1)) { char s[8]; nd_serial(s, nd_pick(0, SL)); vm_str(p, s); }
    if (nd_pick(0, 1)) { struct BinaryArray a = nd_arr(nd_pick(1, CL)); vm_arr(p, I_PROX, &a); }
    p->assertion = (int)nd_range(0, 3);
  }
  bool hn = nd_pick(0, 1);
  if (hn) { struct BinaryArray a = nd_arr(nd_pick(1, CL)); vm_arr(p, I_NONCE, &a); }
  if (other) {
    struct BinaryArray a = nd_arr(1);
    vm_arr(p, I_ISSUER, &a); vm_arr(p, I_PINNED, &a); vm_arr(p, I_PRIOR, &a);
    p->rev = true;
    for (int i = 0; i < 3; i++) { p->tset[i] = true; p->t[i].tm_year = 100 + i; p->t[i].tm_mday = 1; }
  }
  vc_max = 1;
  vc[0].cms = &cms_a; vc[0].certs = lists[0]; vc[0].store = lists[1];
  vc[0].ok = oom || nd_pick(0, 1);
  struct tm *t = nd_time(), *tq = t;
  struct BinaryArray *ip = &issuer_a, *tp = &tls_a, *mp = &cms_a;
  int bad = nulls ? (int)nd_pick(1, 7) : 0;
  if (bad == 1) sp = NULL;
  if (bad == 2) ip = NULL;
  if (bad == 3) tp = NULL;
  if (bad == 4) tq = NULL;
  if (bad == 5) { mp = NULL; vc[0].cms = NULL; }
  if (bad == 6) sg_cert = NULL;
  if (bad == 7) sg_key = NULL;
  bool match = vc[0].ok && p->hs && sp != NULL && strcmp(p->s, sp) == 0 && p->ha[I_PROX] && tp != NULL && p->al[I_PROX] == tp->length &&
               bytes_same(p->a[I_PROX], tp->array, tp->length) && p->assertion == 3;
  sg_allowed = match && ip != NULL && tq != NULL && mp != NULL;
  sg_fail = !oom && sg_allowed && nd_pick(0, 1);
  if (sg_allowed) {
    sg_want.t[0] = *t; sg_want.tset[0] = true;
    if (hn) { memcpy(sg_want.a[I_NONCE], p->a[I_NONCE], MAXB); sg_want.al[I_NONCE] = p->al[I_NONCE]; sg_want.ha[I_NONCE] = true; }
    vm_str(&sg_want, sp);
    vm_arr(&sg_want, I_ISSUER, ip);
    vm_arr(&sg_want, I_PRIOR, mp);
  }
  sg_certs = lists[2];
  if (oom) v_oom_at = (int)nd_pick(1, 14);
  struct BinaryArray *r = sign_voucher_request(mp, tq, sp, ip, tp, sg_cert, sg_key, lists[0], lists[1], lists[2]);
  sg_result(r, sg_allowed && !sg_fail && bad < 6 && !v_oom_hit);
  end();
  if (oom) { if (v_oom_hit) VWITNESS("out of memory"); return; }
  if (nulls) { VWITNESS("missing argument"); return; }
  if (r != NULL) VWITNESS("signed");
  if (vc[0].ok && !p->hs) VWITNESS("no serial number in the pledge's request");
  if (vc[0].ok && p->hs && !match) VWITNESS("something else does not match");
}
void h_reg(void) { registrar_request(false, false); }
void h_reg_null(void) { registrar_request(false, true); }
void h_reg_oom(void) { registrar_request(true, false); }

/* ---------------- C13, C14: MASA voucher */
static int cb_res, cb_len, cb_seen, ctx_obj;
static char cb_serial[8];
static struct BinaryArray cb_pin;
static int cb(const char *serial, const struct BinaryArrayList *certs, void *ctx, struct BinaryArray *pinned) {
  CONDITION(nvc == 2 && vc[0].ok && vc[1].ok, "the policy is asked after both signatures were verified");
  CONTENT(ctx == &ctx_obj, "the policy gets its context");
  CONTENT(strcmp(serial, cb_serial) == 0, "the policy sees the verified serial number");
  CONTENT(list_same(certs, vc[0].out), "the policy sees the registrar's certificates");
  VASSERT(cb_seen++ == 0, "the policy is asked once");
  VASSERT(pinned != NULL, "place for the certificate");
  if (cb_res < 0) return cb_res;
  if (cb_len == 0) { pinned->array = NULL; pinned->length = 0; return cb_res; }
  struct quiet q = q_on();
  VASSERT(copy_binary_array(pinned, &cb_pin) == 0, "built");
  q_off(q);
  return cb_res;
}
static void masa(bool oom, bool nulls) {
  common();
  mklists(oom || nulls ? 1 : 4);
  struct BinaryArrayList *l5 = lists[0];
  struct vm *a = &vc[0].content, *b = &vc[1].content;
  bool plain = oom || nulls;
  struct BinaryArray prior = nd_arr(plain ? 1 : nd_pick(1, CL));
  if (plain || nd_pick(0, 1)) { char s[8]; nd_serial(s, plain ? 1 : nd_pick(0, SL)); vm_str(a, s); }
  if (plain) vm_str(b, a->s);
  else if (nd_pick(0, 1)) { char s[8]; nd_serial(s, nd_pick(0, SL)); vm_str(b, s); }
  if (plain || nd_pick(0, 1)) vm_arr(a, I_PRIOR, &prior);
  bool hn = nd_pick(0, 1), other = nd_pick(0, 1);
  if (hn) { struct BinaryArray x = nd_arr(1); vm_arr(a, I_NONCE, &x); }
  if (other) {
    struct BinaryArray x = nd_arr(1);
    vm_arr(a, I_ISSUER, &x); vm_arr(a, I_PINNED, &x); vm_arr(a, I_PROX, &x); a->rev = true; a->assertion = 2;
    vm_arr(b, I_NONCE, &x); vm_arr(b, I_ISSUER, &x); vm_arr(b, I_PINNED, &x); vm_arr(b, I_PRIOR, &x); vm_arr(b, I_PROX, &x); b->rev = true; b->assertion = 1;
    for (int i = 0; i < 3; i++) { a->tset[i] = b->tset[i] = true; a->t[i].tm_year = 101 + i; a->t[i].tm_mday = 1; b->t[i].tm_year = 111 + i; b->t[i].tm_mday = 1; }
  }
  vc_max = 2;
  vc[0].cms = &cms_a; vc[0].certs = lists[0]; vc[0].store = lists[1];
  struct BinaryArray prior_a = {a->a[I_PRIOR], a->al[I_PRIOR]};
  vc[1].cms = &prior_a; vc[1].certs = lists[2]; vc[1].store = lists[3];
  vc[0].ok = oom || nd_pick(0, 1);
  vc[1].ok = oom || !vc[0].ok || nd_pick(0, 1);
  struct tm *t = nd_time(), *tq = t;
  voucher_req_fn f = cb;
  struct BinaryArray *mp = &cms_a;
  int bad = nulls ? (int)nd_pick(1, 5) : 0;
  if (bad == 1) tq = NULL;
  if (bad == 2) f = NULL;
  if (bad == 3) { mp = NULL; vc[0].cms = NULL; }
  if (bad == 4) sg_cert = NULL;
  if (bad == 5) sg_key = NULL;
  cb_res = plain ? 0 : (int)nd_pick(0, 1) - 1;
  cb_len = plain ? 1 : (int)nd_pick(0, CL);
  cb_pin = nd_arr((size_t)cb_len);
  bool match = vc[0].ok && vc[1].ok && a->hs && a->ha[I_PRIOR] && b->hs && strcmp(a->s, b->s) == 0 && tq != NULL && f != NULL && mp != NULL;
  if (match) strcpy(cb_serial, a->s);
  sg_allowed = match && cb_res >= 0 && cb_len > 0;
  sg_fail = !oom && sg_allowed && nd_pick(0, 1);
  if (sg_allowed) {
    sg_want.t[1] = *t; sg_want.tset[1] = true;
    if (hn) { memcpy(sg_want.a[I_NONCE], a->a[I_NONCE], MAXB); sg_want.al[I_NONCE] = a->al[I_NONCE]; sg_want.ha[I_NONCE] = true; }
    vm_str(&sg_want, a->s);
    sg_want.assertion = 3;
    vm_arr(&sg_want, I_PINNED, &cb_pin);
  }
  sg_certs = l5;
  if (oom) v_oom_at = (int)nd_pick(1, 14);
  struct BinaryArray *r = sign_masa_pledge_voucher(mp, tq, f, &ctx_obj, sg_cert, sg_key, lists[0], lists[1], lists[2], lists[3], l5);
  sg_result(r, sg_allowed && !sg_fail && bad < 4 && !v_oom_hit);
  CONDITION(!cb_seen || match, "the policy is asked only for a verified, matching request");
  if (sg_done) CONDITION(cb_seen == 1, "the policy decides");
  end();
  if (oom) { if (v_oom_hit) VWITNESS("out of memory"); return; }
  if (nulls) { VWITNESS("missing argument"); return; }
  if (r != NULL) VWITNESS("signed");
  if (!match) VWITNESS("request does not match");
  if (match && cb_res < 0) VWITNESS("policy refuses");
}
void h_masa(void) { masa(false, false); }
void h_masa_null(void) { masa(false, true); }
void h_masa_oom(void) { masa(true, false); }

/* ---------------- C15: the pledge checks the voucher */
static void pledge_check(bool oom, bool nulls) {
  bool plain = oom || nulls;
  common();
  mklists(plain ? 1 : 3);
  char serial[8], *sp = serial;
  nd_serial(serial, plain ? 1 : nd_pick(0, SL));
  tls_a = nd_arr(2);
  struct vm *v = &vc[0].content;
  if (plain) vm_str(v, serial);
  else if (nd_pick(0, 1)) { char s[8]; nd_serial(s, nd_pick(0, SL)); vm_str(v, s); }
  bool hn = nd_pick(0, 1);
  nonce_a = nd_arr(hn && !plain ? nd_pick(1, CL) : 1);
  if (plain) vm_arr(v, I_NONCE, &nonce_a);
  else if (nd_pick(0, 1)) { struct BinaryArray x = nd_arr(nd_pick(1, CL)); vm_arr(v, I_NONCE, &x); }
  if (plain || nd_pick(0, 1)) { struct BinaryArray x = nd_arr(plain ? 1 : nd_pick(1, CL)); vm_arr(v, I_PINNED, &x); }
  if (nd_pick(0, 1)) {
    struct BinaryArray x = nd_arr(1);
    vm_arr(v, I_ISSUER, &x); vm_arr(v, I_PRIOR, &x); vm_arr(v, I_PROX, &x); v->rev = true;
  }
  vc_max = 1;
  vc[0].cms = &cms_a; vc[0].certs = lists[0]; vc[0].store = lists[1];
  vc[0].ok = oom || nd_pick(0, 1);
  struct BinaryArray pin = {v->a[I_PINNED], v->al[I_PINNED]};
  cv_cert = &tls_a; cv_pinned = v->ha[I_PINNED] ? &pin : NULL; cv_store = lists[2];
  cv_ok = oom || !vc[0].ok || nd_pick(0, 1);
  struct BinaryArray *mp = &cms_a, *tp = &tls_a;
  int bad = nulls ? (int)nd_pick(1, 3) : 0;
  if (bad == 1) sp = NULL;
  if (bad == 2) { mp = NULL; vc[0].cms = NULL; }
  if (bad == 3) tp = NULL;
  bool want_out = nd_pick(0, 1);
  struct BinaryArrayList *outl = NULL;
  struct BinaryArray res = {NULL, 0};
  bool nonce_ok = !hn || (v->ha[I_NONCE] && v->al[I_NONCE] == nonce_a.length && bytes_same(v->a[I_NONCE], nonce_a.array, nonce_a.length));
  bool checks = bad == 0 && vc[0].ok && v->hs && strcmp(v->s, serial) == 0 && nonce_ok && v->ha[I_PINNED];
  if (oom) v_oom_at = (int)nd_pick(1, 8);
  int r = verify_masa_pledge_voucher(mp, sp, hn ? &nonce_a : NULL, tp, lists[2], lists[0], lists[1], want_out ? &outl : NULL, &res);
  bool all = checks && cv_ok;
  if (r >= 0) {
    VASSERT(all, "a voucher is accepted only if every check passes");
    VASSERT(nvc == 1 && cv_seen, "both signature and certificate were checked");
    VASSERT(res.length == pin.length && bytes_same(res.array, pin.array, res.length), "the pinned certificate is handed out");
    VASSERT(!want_out || outl == vc[0].out, "the voucher's certificates are handed out");
    VASSERT(!oom || !v_oom_hit, "no success when memory runs out");
  } else {
    VASSERT(!all || v_oom_hit, "a voucher passing every check is accepted");
    VASSERT(res.array == NULL && res.length == 0, "no pinned certificate is handed out on failure");
  }
  struct quiet q = q_on();
  free_binary_array_content(&res);
  if (want_out) free_array_list(outl);
  q_off(q);
  end();
  if (oom) { if (v_oom_hit) VWITNESS("out of memory"); return; }
  if (nulls) { VWITNESS("missing argument"); return; }
  if (r >= 0) VWITNESS("accepted");
  if (checks && !cv_ok) VWITNESS("registrar certificate not verified");
  if (vc[0].ok && !nonce_ok) VWITNESS("wrong nonce");
}
void h_accept(void) { pledge_check(false, false); }
void h_accept_null(void) { pledge_check(false, true); }
void h_accept_oom(void) { pledge_check(true, false); }
