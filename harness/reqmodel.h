/* the signing, signature-checking and certificate-checking operations, as their contracts: they record what they were asked and
 * answer with whatever the harness chose */
#ifndef REQMODEL_H
#define REQMODEL_H
#include "vmodel.h"
#include "voucher/crypto.h"
#ifdef OWN
#define OWNED(c, t) VASSERT(c, t)
#else
#define OWNED(c, t) ((void)0)
#endif
/* which property's assertions are decided: the conditions for signing, or what is signed (default both) */
#ifdef NOCOND
#define CONDITION(c, t) VASSUME(c)
#else
#define CONDITION(c, t) VASSERT(c, t)
#endif
#ifdef NOCONT
#define CONTENT(c, t) ((void)0)
#else
#define CONTENT(c, t) VASSERT(c, t)
#endif
/* the harness's own work does not count as allocation calls of the code under test */
struct quiet { int n, at; };
static struct quiet q_on(void) { struct quiet q = {v_alloc_n, v_oom_at}; v_oom_at = 0; return q; }
static void q_off(struct quiet q) { v_alloc_n = q.n; v_oom_at = q.at; }

static bool arr_same(const struct BinaryArray *a, const struct BinaryArray *b) {
  return a == b || (a && b && a->length == b->length && bytes_same(a->array, b->array, a->length));
}
static bool list_same(const struct BinaryArrayList *a, const struct BinaryArrayList *b) {
  if (a == b) return true;
  if (a == NULL || b == NULL) return false;
  const struct dl_list *p = a->list.next, *q = b->list.next;
  for (; p != &a->list && q != &b->list; p = p->next, q = q->next) {
    const struct BinaryArrayList *x = dl_list_entry(p, struct BinaryArrayList, list), *y = dl_list_entry(q, struct BinaryArrayList, list);
    if (x->length != y->length || x->flags != y->flags || !bytes_same(x->arr, y->arr, x->length)) return false;
  }
  return p == &a->list && q == &b->list;
}
static struct BinaryArray nd_arr(size_t n) { struct BinaryArray a = {nd_buf(n), n}; return a; }
/* an uncounted list of k one-byte certificates, or none */
static struct BinaryArrayList *nd_list(int k) {
  struct quiet q = q_on();
  int live = v_live;
  struct BinaryArrayList *l = init_array_list();
  for (int i = 0; i < k; i++) { uint8_t b = nd_u8(); VASSERT(push_array_list(l, &b, 1, i) == 0, "list built"); }
  v_live = live;
  q_off(q);
  return l;
}
static const enum VoucherAttributes ALLA[3] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON, ATTR_LAST_RENEWAL_DATE};
/* a voucher with this content (counted: the caller owns it) */
static struct Voucher *vm_build(const struct vm *m) {
  struct quiet q = q_on();
  struct Voucher *v = init_voucher();
  for (int i = 0; i < 3; i++) if (m->tset[i]) VASSERT(set_attr_time_voucher(v, TA[i], &m->t[i]) == 0, "built");
  if (m->assertion) VASSERT(set_attr_enum_voucher(v, ATTR_ASSERTION, m->assertion) == 0, "built");
  if (m->hs) VASSERT(set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, m->s) == 0, "built");
  for (int i = 0; i < 5; i++) if (m->ha[i]) {
    struct BinaryArray a = {(uint8_t *)m->a[i], m->al[i]};
    VASSERT(set_attr_array_voucher(v, AA[i], &a) == 0, "built");
  }
  VASSERT(set_attr_bool_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, m->rev) == 0, "built");
  q_off(q);
  return v;
}
static void vm_arr(struct vm *m, int i, const struct BinaryArray *a) {
  VASSERT(a->length <= MAXB, "BOUND model size");
  memcpy(m->a[i], a->array, a->length); m->al[i] = a->length; m->ha[i] = true;
}
static void vm_str(struct vm *m, const char *s) { strcpy(m->s, s); m->sl = strlen(s); m->hs = true; }
enum { I_ISSUER, I_PINNED, I_NONCE, I_PRIOR, I_PROX };

/* ---- signature checking */
struct vcall {
  const struct BinaryArray *cms;          /* what has to be checked */
  const struct BinaryArrayList *certs, *store;
  bool ok;                                /* the answer */
  struct vm content;
  struct BinaryArrayList *out;            /* certificates handed out */
  bool seen;
};
static struct vcall vc[2];
static int nvc, vc_max;
struct Voucher *x_verify_cms_voucher(const struct BinaryArray *cms, const struct BinaryArrayList *certs, const struct BinaryArrayList *store,
                                     struct BinaryArrayList **out) {
  VASSERT(nvc < vc_max, "no message is checked that does not have to be");
  struct vcall *c = &vc[nvc++];
  if (cms == NULL) { VASSERT(c->cms == NULL, "the received message is checked"); return NULL; }
  CONDITION(c->cms != NULL && arr_same(cms, c->cms), "exactly the received message is checked");
  CONDITION(list_same(certs, c->certs), "checked with the configured certificates");
  CONDITION(list_same(store, c->store), "checked with the configured trust store");
  c->seen = true;
  if (!c->ok) return NULL;
  if (out != NULL) {
    struct quiet q = q_on();
    uint8_t b = 77;
    *out = init_array_list();
    VASSERT(push_array_list(*out, &b, 1, 5) == 0, "list built");
    c->out = *out;
    q_off(q);
  }
  return vm_build(&c->content);
}
/* ---- signing */
static bool sg_allowed, sg_fail, sg_done;
static struct vm sg_want;
static const struct BinaryArray *sg_cert, *sg_key;
static const struct BinaryArrayList *sg_certs;
static struct BinaryArray *sg_res;
static uint8_t sg_bytes[2];
struct BinaryArray *x_sign_cms_voucher(struct Voucher *v, const struct BinaryArray *cert, const struct BinaryArray *key, const struct BinaryArrayList *certs) {
  CONDITION(sg_allowed, "nothing is signed unless every condition holds");
  VASSERT(!sg_done, "signed once");
  VASSERT(v != NULL, "voucher given");
  if (cert == NULL || key == NULL) { VASSERT(sg_cert == NULL || sg_key == NULL, "certificate and key passed on"); return NULL; }
#ifndef NOCONT
  vm_check(v, &sg_want);
#endif
  CONTENT(sg_cert && arr_same(cert, sg_cert), "signed with the given certificate");
  CONTENT(sg_key && arr_same(key, sg_key), "signed with the given key");
  CONTENT(list_same(certs, sg_certs), "all additional certificates are included");
  if (sg_fail) return NULL;
  sg_done = true;
  struct quiet q = q_on();
  sg_bytes[0] = nd_u8(); sg_bytes[1] = nd_u8();
  struct BinaryArray src = {sg_bytes, 2};
  sg_res = init_binary_array();
  VASSERT(copy_binary_array(sg_res, &src) == 0, "built");
  q_off(q);
  return sg_res;
}
/* the result is the signed message, or nothing */
static void sg_result(struct BinaryArray *r, bool should) {
  if (!should) CONDITION(r == NULL, "no result unless every condition and step succeeded");
  if (r != NULL) {
    VASSERT(sg_done, "only a signed message is returned");
    VASSERT(r->length == 2 && r->array[0] == sg_bytes[0] && r->array[1] == sg_bytes[1], "the signed message is returned unchanged");
    free_binary_array(r);
  } else VASSERT(!should || v_oom_hit, "a result unless a step failed");
}
#ifndef OSSLMODEL_H
/* ---- certificate checking */
static bool cv_ok, cv_seen;
static const struct BinaryArray *cv_cert, *cv_pinned;
static const struct BinaryArrayList *cv_store;
int crypto_verify_cert(const uint8_t *cert, const size_t length, const struct BinaryArrayList *certs, const struct BinaryArrayList *store) {
  VASSERT(length == cv_cert->length && bytes_same(cert, cv_cert->array, length), "the registrar's TLS certificate is checked");
  VASSERT(certs != NULL && certs->list.next != &certs->list, "against the pinned certificate");
  const struct BinaryArrayList *e = dl_list_entry(certs->list.next, struct BinaryArrayList, list);
  VASSERT(e->list.next == &certs->list, "only the pinned certificate is used");
  VASSERT(cv_pinned && e->length == cv_pinned->length && bytes_same(e->arr, cv_pinned->array, e->length), "against the pinned certificate");
  VASSERT(list_same(store, cv_store), "with the domain store");
  cv_seen = true;
  return cv_ok ? 0 : -1;
}
#endif
#endif
