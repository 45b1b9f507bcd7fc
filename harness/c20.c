/* C20: generated keys, generated and signed certificates, on the crypto library's contracts */
#include "osslmodel.h"
/* ---- library contracts used only here */
struct o_time { struct asn1_string_st s; int set; long adj; const char *str; bool norm; };
struct o_int { struct asn1_string_st s; uint64_t v; bool set; };
struct X509_extension_st { int nid; const char *val; };
static void touch(X509 *x) { VASSERT(x != NULL && x->refs > 0, "alive"); x->is_signed = false; x->verified = false; }
int X509_set_version(X509 *x, long v) { if (step()) return 0; touch(x); x->version = v; x->version_set = true; return 1; }
ASN1_INTEGER *ASN1_INTEGER_new(void) { if (step()) return NULL; return o_new(sizeof(struct o_int)); }
int ASN1_INTEGER_set_uint64(ASN1_INTEGER *a, uint64_t v) { if (step()) return 0; ((struct o_int *)a)->v = v; ((struct o_int *)a)->set = true; return 1; }
void ASN1_INTEGER_free(ASN1_INTEGER *a) { if (a) o_free(a); }
int X509_set_serialNumber(X509 *x, ASN1_INTEGER *a) { if (step()) return 0; touch(x); x->sn = ((struct o_int *)a)->v; x->sn_set = ((struct o_int *)a)->set; return 1; }
ASN1_TIME *X509_getm_notBefore(const X509 *x) { X509 *y = (X509 *)x; touch(y); if (y->nb == NULL) y->nb = o_new(sizeof(struct o_time)); return y->nb; }
ASN1_TIME *X509_getm_notAfter(const X509 *x) { X509 *y = (X509 *)x; touch(y); if (y->na == NULL) y->na = o_new(sizeof(struct o_time)); return y->na; }
ASN1_TIME *X509_gmtime_adj(ASN1_TIME *t, long adj) { if (step()) return NULL; struct o_time *o = (struct o_time *)t; VASSERT(o != NULL, "BOUND existing time"); o->set = 1; o->adj = adj; return t; }
ASN1_TIME *ASN1_TIME_set(ASN1_TIME *t, time_t v) { if (step()) return NULL; struct o_time *o = t ? (struct o_time *)t : o_new(sizeof *o); o->set = 3; o->adj = v; return (ASN1_TIME *)o; }
ASN1_TIME *ASN1_TIME_new(void) { if (step()) return NULL; return o_new(sizeof(struct o_time)); }
int ASN1_TIME_set_string(ASN1_TIME *t, const char *s) { if (step()) return 0; if (t) { struct o_time *o = (struct o_time *)t; o->set = 2; o->str = (const char *)dup_u(s, strlen(s)); o->norm = false; } return 1; }
int ASN1_TIME_normalize(ASN1_TIME *t) { if (t == NULL || step()) return 0; ((struct o_time *)t)->norm = true; return 1; }
int X509_set1_notAfter(X509 *x, const ASN1_TIME *t) { if (t == NULL || step()) return 0; *(struct o_time *)X509_getm_notAfter(x) = *(const struct o_time *)t; return 1; }
void ASN1_STRING_free(ASN1_STRING *s) { if (s) o_free(s); }
void ASN1_TIME_free(ASN1_TIME *s) { if (s) o_free(s); }
X509_NAME *X509_NAME_new(void) { if (step()) return NULL; X509_NAME *n = o_new(sizeof *n); n->own = true; return n; }
void X509_NAME_free(X509_NAME *n) { if (n == NULL) return; VASSERT(n->own, "only an owned name is released"); o_free(n); }
int X509_NAME_add_entry_by_txt(X509_NAME *n, const char *f, int type, const unsigned char *b, int len, int loc, int set) {
  if (step()) return 0;
  VASSERT(n->n < NE, "BOUND name entries");
  VASSERT((type == MBSTRING_ASC || type == MBSTRING_UTF8) && loc == -1 && set == 0, "the entry is appended as text");
  n->k[n->n] = (const char *)dup_u(f, strlen(f));
  n->v[n->n] = dup_u(b, len < 0 ? strlen((const char *)b) : (size_t)len);
  n->type[n->n++] = type;
  return 1;
}
static void name_copy(X509_NAME *d, const X509_NAME *s) { *d = *s; d->own = false; }
int X509_set_issuer_name(X509 *x, const X509_NAME *n) { if (n == NULL || step()) return 0; touch(x); name_copy(&x->issuer, n); return 1; }
int X509_set_subject_name(X509 *x, const X509_NAME *n) { if (n == NULL || step()) return 0; touch(x); name_copy(&x->subject, n); return 1; }
X509_NAME *X509_get_subject_name(const X509 *x) { VASSERT(x->refs > 0, "alive"); if (step()) return NULL; return (X509_NAME *)&x->subject; }
X509_EXTENSION *X509V3_EXT_conf_nid(LHASH_OF(CONF_VALUE) *conf, X509V3_CTX *ctx, int nid, const char *v) {
  VASSERT(conf == NULL && ctx == NULL, "BOUND no configuration");
  if (step()) return NULL;
  X509_EXTENSION *e = o_new(sizeof *e);
  e->nid = nid; e->val = (const char *)dup_u(v, strlen(v));
  return e;
}
int X509_add_ext(X509 *x, X509_EXTENSION *e, int loc) { if (step()) return 0; (void)loc; touch(x); VASSERT(e->nid == NID_basic_constraints, "only the requested extension is added"); x->bc = e->val; x->nbc++; return 1; }
void X509_EXTENSION_free(X509_EXTENSION *e) { if (e) o_free(e); }
int X509_set_pubkey(X509 *x, EVP_PKEY *k) { if (step()) return 0; touch(x); VASSERT(k && k->refs > 0, "alive"); if (x->pubkey != k) { pkey_free(x->pubkey); k->refs++; x->pubkey = k; } return 1; }
static const char md_s[] = "sha256";
const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)md_s; }
int X509_sign(X509 *x, EVP_PKEY *k, const EVP_MD *md) {
  VASSERT(k && k->refs > 0 && x && x->refs > 0, "alive");
  VASSERT(md == (const EVP_MD *)md_s, "signed with SHA-256");
  if (step()) return 0;
  x->is_signed = true; x->verified = false; x->sigkey = k->der; x->sigkeylen = k->len; x->out = NULL;
  return 64;
}
static bool sig_bad;
int X509_verify(X509 *x, EVP_PKEY *k) {
  VASSERT(k && k->refs > 0 && x && x->refs > 0, "alive");
  if (step()) { sig_bad = true; return st_mode ? -1 : 0; }
  if (x->is_signed && k->len == x->sigkeylen && bytes_same(k->der, x->sigkey, k->len)) x->verified = true;
  return x->verified;
}
/* key generation: failure is zero or negative */
struct evp_pkey_ctx_st { int id, phase, bits, nid; bool params; };
static int kfail(void) { return st_mode ? -2 : 0; }
EVP_PKEY_CTX *EVP_PKEY_CTX_new_id(int id, ENGINE *e) { (void)e; if (step()) return NULL; EVP_PKEY_CTX *c = o_new(sizeof *c); c->id = id; return c; }
EVP_PKEY_CTX *EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e) { (void)e; if (k == NULL || step()) return NULL; VASSERT(k->refs > 0, "alive"); EVP_PKEY_CTX *c = o_new(sizeof *c); c->id = k->type; c->params = k->params; return c; }
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *c) { if (c) o_free(c); }
int EVP_PKEY_keygen_init(EVP_PKEY_CTX *c) { if (step()) return kfail(); c->phase = 1; return 1; }
int EVP_PKEY_paramgen_init(EVP_PKEY_CTX *c) { if (step()) return kfail(); c->phase = 2; return 1; }
int EVP_PKEY_CTX_set_rsa_keygen_bits(EVP_PKEY_CTX *c, int b) { if (step()) return kfail(); c->bits = b; return 1; }
int EVP_PKEY_CTX_set_ec_paramgen_curve_nid(EVP_PKEY_CTX *c, int n) { if (step()) return kfail(); c->nid = n; return 1; }
static uint8_t *gen_b;
static int want_id, want_bits;
static bool generated;
int EVP_PKEY_paramgen(EVP_PKEY_CTX *c, EVP_PKEY **k) { VASSERT(c->phase == 2, "initialised"); VASSERT(c->nid == NID_X9_62_prime256v1, "curve P-256"); if (step()) return kfail(); *k = k_new(NULL, 0, c->id); (*k)->params = true; return 1; }
int EVP_PKEY_keygen(EVP_PKEY_CTX *c, EVP_PKEY **k) {
  VASSERT(c->phase == 1, "initialised");
  VASSERT(c->id == want_id, "key of the requested type");
  if (c->id == EVP_PKEY_RSA) VASSERT(c->bits == want_bits, "key of the requested size");
  else VASSERT(c->params || c->nid == NID_X9_62_prime256v1, "curve P-256");
  if (step()) return kfail();
  generated = true;
  *k = k_new(gen_b, 3, c->id);
  return 1;
}
int RAND_bytes(unsigned char *b, int n) { if (step()) return st_mode ? -1 : 0; for (int i = 0; i < n; i++) b[i] = gen_b[i]; generated = true; return 1; }
static void faults(int mode, int steps, int allocs) {
  if (mode == 1) { st_fail = (int)nd_range(1, (size_t)steps); st_mode = (int)nd_pick(0, 1); }
  if (mode == 2) v_oom_at = (int)nd_range(1, (size_t)allocs);
}
static void end(int steps) {
  VASSERT(v_live == 0, "every library object and buffer but the result is released");
  VASSERT(st_n <= steps, "BOUND number of library calls");
}
/* ---- keys */
static void keygen(int mode) {
  gen_b = nd_buf(3);
  int fn = (int)nd_pick(0, 2);
  want_id = fn ? EVP_PKEY_EC : EVP_PKEY_RSA;
  want_bits = nd_int();
  faults(mode, 12, 3);
  if (fn == 0) {
    struct BinaryArray *r = crypto_generate_rsakey(want_bits);
    if (r) { VASSERT(!st_hit && !v_oom_hit && generated && r->length == 3 && bytes_same(r->array, gen_b, 3), "exactly the generated key"); free_binary_array(r); VWITNESS("generated"); }
    else VASSERT(st_hit || v_oom_hit, "a key when nothing failed");
  } else if (fn == 1) {
    uint8_t *k = NULL;
    ssize_t r = crypto_generate_eckey(&k);
    if (r >= 0) { VASSERT(!st_hit && generated && r == 3 && bytes_same(k, gen_b, 3), "exactly the generated key"); v_free(k); VWITNESS("generated"); }
    else VASSERT((st_hit || v_oom_hit) && k == NULL, "a key when nothing failed, none otherwise");
  } else {
    uint8_t b[3] = {0};
    size_t n = nd_pick(0, 3);
    struct BinaryArray a = {b, n};
    int r = crypto_getrand(&a);
    if (r == 0) VASSERT(n > 0 && generated && bytes_same(b, gen_b, n), "random bytes of the library");
    else VASSERT(st_hit || n == 0, "random bytes when nothing failed");
  }
  if (st_hit) VWITNESS("library failure");
  end(12);
}
void h_keygen(void) { keygen(0); }
void h_keygen_step(void) { keygen(1); }
void h_keygen_oom(void) { keygen(2); }

/* ---- generated certificates */
static const char *KN[] = {"C", "CN", "serialNumber", "O"};
static struct keyvalue_list *mk_kv(int n, int first) {
  if (n < 0) return NULL;
  struct quiet q = q_on();
  int live = v_live;
  struct keyvalue_list *l = init_keyvalue_list();
  for (int i = 0; i < n; i++) VASSERT(push_keyvalue_list(l, (char *)KN[(first + i) % 4], nd_text(1 + (size_t)i % 2)) == 0, "built");
  v_live = live;
  q_off(q);
  return l;
}
static void name_check(const X509_NAME *n, const struct keyvalue_list *l) {
  const struct dl_list *p = l->list.next;
  for (int i = 0; i < n->n; i++, p = p->next) {
    VASSERT(p != &l->list, "no other name entry");
    const struct keyvalue_list *e = dl_list_entry(p, struct keyvalue_list, list);
    VASSERT(strcmp(n->k[i], e->key) == 0, "the requested name entry");
    size_t l2 = strlen(e->value);
    VASSERT(strlen((const char *)n->v[i]) == l2 && bytes_same(n->v[i], (const uint8_t *)e->value, l2), "the requested name value");
  }
  VASSERT(p == &l->list, "every requested name entry");
}
static struct crypto_cert_meta meta;
static struct BinaryArray key_b, ca_b, cert_b;
static int gen_type;
static bool seen;
/* the certificate when it is encoded */
static void cert_check(const X509 *x) {
  VASSERT(x->fresh, "the new certificate is given out");
  VASSERT(x->version_set && x->version == X509_VERSION_3, "version 3");
  VASSERT(x->sn_set && x->sn == meta.serial_number, "the requested serial number");
  const struct o_time *b = (const struct o_time *)x->nb, *a = (const struct o_time *)x->na;
  VASSERT(b && b->set == 1 && b->adj == meta.not_before, "the requested start of validity");
  if (meta.not_after_absolute) VASSERT(a && a->set == 2 && strcmp(a->str, meta.not_after_absolute) == 0, "the requested absolute end of validity");
  else VASSERT(a && a->set == 1 && a->adj == meta.not_after, "the requested end of validity");
  if (meta.issuer) name_check(&x->issuer, meta.issuer); else VASSERT(x->issuer.n == 0, "no issuer");
  if (meta.subject) name_check(&x->subject, meta.subject); else VASSERT(x->subject.n == 0, "no subject");
  if (meta.basic_constraints) VASSERT(x->nbc == 1 && strcmp(x->bc, meta.basic_constraints) == 0, "the requested basic constraints");
  else VASSERT(x->nbc == 0, "no basic constraints");
  VASSERT(x->pubkey && x->pubkey->len == key_b.length && bytes_same(x->pubkey->der, key_b.array, key_b.length), "for the given key");
  VASSERT(x->pubkey->type == gen_type, "key of the expected type");
  VASSERT(x->is_signed && x->sigkeylen == key_b.length && bytes_same(x->sigkey, key_b.array, key_b.length), "signed with the given key");
}
static void gen(int mode, int what) {
  key_b = nd_arr(2);
  int fn = (int)nd_pick(0, 1);
  gen_type = fn ? EVP_PKEY_RSA : EVP_PKEY_EC;
  meta.serial_number = nd_u64();
  meta.not_before = nd_long();
  meta.not_after = nd_long();
  int bad = 0;
  if (mode == 0 && what == 0) {
    bad = (int)nd_pick(0, 3);
    if (nd_pick(0, 1)) { meta.not_after_absolute = nd_text(3); if (nd_pick(0, 1)) meta.not_after = 0; }
    meta.issuer = mk_kv((int)nd_pick(0, 3) - 1, 0);
    meta.subject = mk_kv((int)nd_pick(0, 3) - 1, 1);
    meta.basic_constraints = nd_pick(0, 1) ? nd_text(2) : NULL;
  } else {
    if (nd_pick(0, 1)) { meta.not_after_absolute = nd_text(3); meta.not_after = 0; }
    meta.issuer = mk_kv(2, 0); meta.subject = mk_kv(2, 2);
    meta.basic_constraints = nd_text(2);
  }
  bool both = meta.not_after_absolute && meta.not_after != 0;
  uint8_t *out = NULL, **o = bad == 3 ? NULL : &out;
  faults(mode, 34, 2);
  const struct crypto_cert_meta *m = bad == 1 ? NULL : &meta;
  const uint8_t *k = bad == 2 ? NULL : key_b.array;
  ssize_t r = fn ? crypto_generate_rsacert(m, k, 2, o) : crypto_generate_eccert(m, k, 2, o);
  if (r >= 0) {
    VASSERT(!bad && !st_hit && !v_oom_hit && seen, "a certificate only when every step succeeded");
    VASSERT(!both, "contradictory validity is refused");
    VASSERT(r == 2 && bytes_same(out, ca_b.array, 2), "the encoded certificate is returned");
    v_free(out);
    VWITNESS("generated");
  } else {
    VASSERT(bad || both || st_hit || v_oom_hit, "a certificate when nothing failed");
    VASSERT(out == NULL, "no certificate on failure");
    if (both) VWITNESS("contradictory validity");
    if (sig_bad) VWITNESS("bad signature");
    if (st_hit) VWITNESS("library failure");
  }
  end(34);
}
void h_gen(void) { gen(0, 0); }
void h_gen_step(void) { gen(1, 0); }

/* ---- signed certificates */
static int signing;
static void sign_check(const X509 *x) {
  VASSERT(!x->fresh && x->len == cert_b.length && bytes_same(x->der, cert_b.array, x->len), "the given certificate is signed");
  VASSERT(x->issuer.n == 1 && strcmp(x->issuer.k[0], "CA") == 0, "issuer is the subject of the CA certificate");
  VASSERT(bytes_same(x->issuer.v[0], ca_b.array, ca_b.length), "issuer is the subject of the CA certificate");
  VASSERT(x->is_signed && x->sigkeylen == key_b.length && bytes_same(x->sigkey, key_b.array, key_b.length), "signed with the CA key");
  VASSERT(x->verified, "the signature was checked");
  VASSERT(x->pubkey == NULL && !x->version_set && !x->sn_set && x->nb == NULL && x->na == NULL && x->nbc == 0 && x->subject.n == 0, "nothing else is changed");
}
int x_i2d_X509(const X509 *x, unsigned char **out) {
  VASSERT(x->refs > 0, "alive");
  if (step()) return -1;
  if (signing) sign_check(x); else cert_check(x);
  seen = true;
  if (!signing) ca_b = nd_arr(2); else gen_b = nd_buf(3);
  return signing ? o_enc(gen_b, 3, out) : o_enc(ca_b.array, 2, out);
}
/* the CA certificate's subject is recognisable */
X509 *x_d2i_X509(X509 **a, const unsigned char **in, long len) {
  const unsigned char *p = in ? *in : NULL;
  X509 *x = d2i_X509(a, in, len);
  if (x && p == ca_b.array && signing) { x->subject.n = 1; x->subject.k[0] = "CA"; x->subject.v[0] = dup_u(ca_b.array, ca_b.length); }
  return x;
}
static void sign(int mode) {
  signing = 1;
  int bad = mode ? 0 : (int)nd_pick(0, 5);
  key_b = nd_arr(2); ca_b = nd_arr(bad == 5 ? 0 : 2); cert_b = nd_arr(3);
  uint8_t *c = NULL;
  if (bad != 2) { struct quiet q = q_on(); c = v_malloc(3); q_off(q); memcpy(c, cert_b.array, 3); }
  uint8_t *before = c;
  faults(mode, 12, 2);
  ssize_t r = crypto_sign_cert(bad == 1 ? NULL : key_b.array, 2, bad == 4 ? NULL : ca_b.array, ca_b.length, 3, bad == 3 ? NULL : &c);
  if (r >= 0) {
    VASSERT(!bad && !st_hit && seen, "a signed certificate only when every step succeeded");
    VASSERT(r == 3 && bytes_same(c, gen_b, 3), "the signed certificate is returned");
    VWITNESS("signed");
  } else {
    VASSERT(bad || st_hit || v_oom_hit, "a signed certificate when nothing failed");
    VASSERT(c == before && (c == NULL || bytes_same(c, cert_b.array, 3)), "the certificate is left as it was on failure");
    if (sig_bad) VWITNESS("bad signature");
    if (st_hit) VWITNESS("library failure");
    if (bad) VWITNESS("refused");
  }
  v_free(c);
  end(12);
}
void h_sign(void) { sign(0); }
void h_sign_step(void) { sign(1); }
